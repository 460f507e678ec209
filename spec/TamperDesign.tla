---------------------------- MODULE TamperDesign ----------------------------
(* Somebody changes a genuine wheel, step by step: its members, its RECORD, or both.  Whatever is accepted in the end
   has only content that RECORD vouches for, and changes of the members alone are always noticed. *)
EXTENDS Wheel, Json
CONSTANTS MaxOps, EmitCases
VARIABLES mem, rec, where, hist

Info == "foo-1.0.dist-info"
WheelName == Info \o "/WHEEL"
RecName == Info \o "/RECORD"
\* A content is a string; its digest names it.
Dig(a, d) == a \o "=" \o d
Row(n, a, d) == <<n, Dig(a, d), ToString(Len(d))>>
M0 == <<[n |-> "p/a.py", d |-> "AA", dir |-> FALSE], [n |-> "p/b", d |-> "B", dir |-> FALSE], [n |-> WheelName, d |-> "WW", dir |-> FALSE]>>
R0 == [i \in 1..3 |-> Row(M0[i].n, "sha256", M0[i].d)] \o << <<RecName, "", "">> >>

Algos == <<"md5", "sha1", "sha224", "sha256", "sha384", "sha512">>
Full(m, rows) ==
  [c |-> Split(m.n, "/"), ab |-> FALSE, dir |-> m.dir, um |-> 33188, s |-> 0, n |-> 0, size |-> IF m.dir THEN "0" ELSE ToString(Len(m.d)), ok |-> TRUE,
   dig |-> [i \in 1..Len(Algos) |-> Dig(Algos[i], m.d)], data |-> m.d, head |-> "", asCon |-> "", asGui |-> "",
   lines |-> IF m.d = "WW" THEN <<"Wheel-Version: 1.0", "Root-Is-Purelib: true">> ELSE <<"x">>, rok |-> rows # <<>>, rows |-> rows]
Archive == WithNames([i \in 1..Len(mem) |-> Full(mem[i], IF mem[i].n = RecName THEN rec ELSE <<>>)]
                     \o IF where = "" THEN <<>> ELSE <<Full([n |-> where, d |-> "R", dir |-> FALSE], rec)>>)
Accepted == Integrity(Archive) = ""

Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Op(k, i, s) == [k |-> k, i |-> i - 1, s |-> s]
Did(k, i, s) == hist' = Append(hist, Op(k, i, s))
Alter(d) == IF d = "" THEN "x" ELSE (IF SubSeq(d, 1, 1) = "Z" THEN "Y" ELSE "Z") \o SubSeq(d, 2, Len(d))
MemberOp == \E i \in 1..Len(mem) :
  \/ mem' = [mem EXCEPT ![i].d = Alter(@)] /\ Did("alter", i, "")
  \/ mem' = [mem EXCEPT ![i].d = @ \o "x"] /\ Did("grow", i, "")
  \/ mem' = [mem EXCEPT ![i].d = ""] /\ Did("empty", i, "")
  \/ mem' = Without(mem, i) /\ Did("drop", i, "")
  \/ mem' = [mem EXCEPT ![i].n = "q/c"] /\ Did("rename", i, "q/c")
  \/ mem' = [mem EXCEPT ![i].n = Info \o "/RECORD.jws"] /\ Did("rename", i, Info \o "/RECORD.jws")
  \/ mem' = Append(mem, [mem[i] EXCEPT !.d = @ \o "y"]) /\ Did("dup", i, "y")
  \/ mem' = Append(mem, mem[i]) /\ Did("dup", i, "")
  \/ mem' = <<[mem[i] EXCEPT !.d = @ \o "y"]>> \o mem /\ Did("dupfirst", i, "y")
  \/ Len(mem) > 1 /\ mem' = [mem EXCEPT ![i].d = mem[(i % Len(mem)) + 1].d, ![(i % Len(mem)) + 1].d = mem[i].d] /\ Did("swap", i, "")
AddOp ==
  \/ mem' = Append(mem, [n |-> "q/n", d |-> "new", dir |-> FALSE]) /\ Did("add", 1, "q/n")
  \/ mem' = Append(mem, [n |-> Info \o "/RECORD.p7s", d |-> "new", dir |-> FALSE]) /\ Did("add", 1, Info \o "/RECORD.p7s")
  \/ mem' = Append(mem, [n |-> "z.dist-info/x", d |-> "new", dir |-> FALSE]) /\ Did("add", 1, "z.dist-info/x")
RowOp == \E i \in 1..Len(rec) :
  \/ rec' = Without(rec, i) /\ Did("rowdrop", i, "")
  \/ rec' = Append(rec, rec[i]) /\ Did("rowdup", i, "")
  \/ rec[i][2] # "" /\ rec' = [rec EXCEPT ![i][2] = @ \o "!"] /\ Did("rowhash", i, "")
  \/ \E a \in {"md5", "sha1", "sha256", "sha512"} : \E m \in 1..Len(mem) :
       mem[m].n = rec[i][1] /\ (\A k \in (m + 1)..Len(mem) : mem[k].n # rec[i][1]) /\ rec' = [rec EXCEPT ![i] = Row(mem[m].n, a, mem[m].d)] /\ Did("rowalgo", i, a)
  \/ rec' = [rec EXCEPT ![i][3] = "9"] /\ Did("rowsize", i, "9")
  \/ rec' = [rec EXCEPT ![i][2] = ""] /\ Did("rownohash", i, "")
  \/ rec' = [rec EXCEPT ![i][3] = ""] /\ Did("rownosize", i, "")
  \/ \E n \in {"p/b", "q/n", RecName} \ {rec[i][1]} : rec' = [rec EXCEPT ![i][1] = n] /\ Did("rowname", i, n)
  \/ rec' = [rec EXCEPT ![i][1] = "./" \o @] /\ Did("rowspell", i, "")
Next ==
  /\ Len(hist) < MaxOps
  /\ \/ (MemberOp \/ AddOp) /\ UNCHANGED <<rec, where>>
     \/ RowOp /\ UNCHANGED <<mem, where>>
     \/ mem' = Append(mem, [n |-> "q/n", d |-> "new", dir |-> FALSE]) /\ rec' = Append(rec, Row("q/n", "sha256", "new")) /\ Did("addlisted", 1, "q/n") /\ UNCHANGED where
     \/ \E w \in {"", Info \o "/RECORDS"} : where' = w /\ Did("norecord", 1, w) /\ UNCHANGED <<mem, rec>>
Init == mem = M0 /\ rec = R0 /\ where = RecName /\ hist = <<>>
Spec == Init /\ [][Next]_<<mem, rec, where, hist>>

Sigs == {Info \o "/RECORD.jws", Info \o "/RECORD.p7s"}
Steps == {hist[i].k : i \in 1..Len(hist)}
Same(ms1, ms2) == {<<ms1[i].n, ms1[i].d>> : i \in {j \in 1..Len(ms1) : ms1[j].n \notin Sigs}} = {<<ms2[i].n, ms2[i].d>> : i \in {j \in 1..Len(ms2) : ms2[j].n \notin Sigs}}
Genuine == hist = <<>> => Accepted
\* What is accepted is vouched for by a strong digest, and there is one file of each name.
Vouched == Accepted =>
  /\ \A i \in 1..Len(mem) : mem[i].n \in Sigs \cup {RecName} \/ \E r \in 1..Len(rec), a \in {"sha256", "sha384", "sha512"} :
       Clean(Split(rec[r][1], "/")) = Split(mem[i].n, "/") /\ rec[r][2] = Dig(a, mem[i].d) /\ rec[r][3] = ToString(Len(mem[i].d))
  /\ \A i, j \in 1..Len(mem) : i # j => mem[i].n # mem[j].n
  /\ where = RecName
\* No change that leaves RECORD alone goes unnoticed.
Noticed == (Accepted /\ \A k \in Steps : ~HasPrefix(k, "row") /\ k \notin {"addlisted", "norecord"}) => Same(mem, M0)
\* A change of RECORD alone never makes another content acceptable.
Harmless == (Accepted /\ \A k \in Steps : HasPrefix(k, "row")) => mem = M0
\* One change is enough, except for a second or a respelled row, another strong digest, a signature, and a file added with its row.
Single == (Len(hist) = 1 /\ Accepted) => \/ hist[1].k \in {"rowdup", "rowspell", "addlisted"} \/ (hist[1].k = "rowalgo" /\ hist[1].s \in Strong)
  \/ hist[1].s \in Sigs \/ (hist[1].k \in {"rowsize", "rownohash", "rownosize"} /\ hist[1].i = 3)
Emit == (EmitCases /\ Len(hist) > 0) => PrintT("CASE " \o ToJson(hist))
=============================================================================
