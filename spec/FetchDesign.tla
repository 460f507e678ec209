---------------------------- MODULE FetchDesign ----------------------------
(* A client that downloads a file, step by step, from servers that redirect, fail, lie, or stop at any point: what it
   delivers is complete and has every digest the link promised, and the outcome is the one the specification of a
   download gives. *)
EXTENDS Index, Json
CONSTANTS MaxChunks, EmitCases
VARIABLES frag, srv, at, hops, got, pc, result

\* A content is a sequence of chunks; "A" is the right one.  The digest of a content names it.
Frags == {"", "#sha256=AA", "#md5=AA", "#egg=x", "#sha256=AA&md5=BB", "#md5=AA&egg=x", "#sha256=AA;x", "#sha512=BB", "#SHA256=BB"}
Bodies == {"AA", "AB", "BB", "A"}
\* Three places; each has a status, a place to go to, a content, and how many chunks of it are sent.
Place == [st : {200, 404, 302}, to : {"a", "b", "c"}, body : Bodies, sent : 0..MaxChunks]
Useful(p) == (p.st = 302 => p.body = "AA" /\ p.sent = Len("AA")) /\ (p.st # 302 => p.to = "a") /\ p.sent <= Len(p.body) /\ (p.st = 404 => p.body = "A" /\ p.sent = 1)
Places == TLCEval({p \in Place : Useful(p)})
Names == {"a", "b", "c"}
Dir(n) == CASE n = "a" -> "/x/a" [] n = "b" -> "/b" [] n = "c" -> "/y/z/c"
Url(n) == "http://h0" \o Dir(n)
\* How place m is spelled in a redirect.
Spell(m) == CASE m = "a" -> "http://h0/x/./q/../a" [] m = "b" -> "//h0/b" [] m = "c" -> "/y/z/c"

Init == frag \in Frags /\ srv \in [Names -> Places] /\ at = "a" /\ hops = 0 /\ got = "" /\ pc = "ask" /\ result = "none"
\* places that cannot be reached do not matter
Reach == LET go(n) == IF srv[n].st = 302 THEN {srv[n].to} ELSE {} IN {"a"} \cup go("a") \cup UNION {go(n) : n \in go("a")}
Canon == \A n \in Names \ Reach : srv[n] = [st |-> 404, to |-> "a", body |-> "A", sent |-> 1]

Ask == /\ pc = "ask"
       /\ IF srv[at].st = 302 THEN IF hops < MaxHops THEN at' = srv[at].to /\ hops' = hops + 1 /\ UNCHANGED <<pc, result>> ELSE pc' = "done" /\ result' = "err" /\ UNCHANGED <<at, hops>>
          ELSE pc' = "body" /\ UNCHANGED <<at, hops, result>>
       /\ UNCHANGED <<frag, srv, got>>
Chunk == /\ pc = "body" /\ Len(got) < srv[at].sent
         /\ got' = got \o Ch(srv[at].body, Len(got) + 1) /\ UNCHANGED <<frag, srv, at, hops, pc, result>>
End == /\ pc = "body" /\ Len(got) = srv[at].sent
       /\ pc' = IF srv[at].sent = Len(srv[at].body) /\ srv[at].st = 200 THEN "verify" ELSE "done"
       /\ result' = IF srv[at].sent = Len(srv[at].body) /\ srv[at].st = 200 THEN result ELSE "err"
       /\ UNCHANGED <<frag, srv, at, hops, got>>
DigsOf(c) == [i \in 1..6 |-> <<<<"md5", "sha1", "sha224", "sha256", "sha384", "sha512">>[i], c>>]
Verify == /\ pc = "verify" /\ pc' = "done"
          /\ result' = IF ~FragBad(frag) /\ DigestsOK(frag, DigsOf(got)) THEN "ok" ELSE "err"
          /\ UNCHANGED <<frag, srv, at, hops, got>>
Next == Ask \/ Chunk \/ End \/ Verify
Spec == Init /\ [][Next]_<<frag, srv, at, hops, got, pc, result>> /\ WF_<<frag, srv, at, hops, got, pc, result>>(Next)

Routes == LET N == <<"a", "b", "c">> IN [i \in 1..3 |-> LET p == srv[N[i]] IN [u |-> Url(N[i]), st |-> p.st, loc |-> IF p.st = 302 THEN Spell(p.to) ELSE "", whole |-> p.sent = Len(p.body), data |-> p.body, digs |-> DigsOf(p.body)]]
Promised == {p[2] : p \in {q \in Range(FragPairs(frag)) : q[1] \in Known}}
\* Nothing is delivered but the complete content of a successful answer, with every promised digest.
Delivered == result = "ok" => srv[at].st = 200 /\ got = srv[at].body /\ Promised \subseteq {got}
\* The steps have the outcome of the specification.
Agrees == pc = "done" => LET d == Download(Routes, Url("a") \o frag) IN (result = "ok") = d.ok /\ (d.ok => d.data = got)
Ends == <>(pc = "done")
Emit == (EmitCases /\ pc = "ask" /\ hops = 0 /\ Canon) => PrintT("CASE " \o ToJson([frag |-> frag, srv |-> srv]))
=============================================================================
