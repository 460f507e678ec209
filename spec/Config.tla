------------------------------- MODULE Config -------------------------------
(* Python's configparser, line by line, as entry_points.txt is read; and the entry points declared.

   A file is a sequence of lines.  cfg: [delims: seq of one-character strings, comments: seq of strings,
   strict, empties (empty lines are part of values), lower (names are in lower case)]. *)
EXTENDS Strs

WS == {" ", "\t", "\r", "\f"}
Strip(s) == Trim(s, WS)
Indent(s) == Len(s) - Len(LTrim(s, WS))
IsComment(s, cfg) == \E i \in 1..Len(cfg.comments) : HasPrefix(Strip(s), cfg.comments[i])
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
\* Where the first delimiter is; 0 if there is none.
SepAt(s, cfg) == LET P == {i \in 1..Len(s) : \E d \in 1..Len(cfg.delims) : cfg.delims[d] = Ch(s, i)} IN IF P = {} THEN 0 ELSE MinOf(P)
NoLimit == 1000000

\* secs: seq of [name, opts: seq of [k, v: seq of lines]]; cur: the number of the current section or 0;
\* open: the last option of it may be continued; ind: its indentation.
Start == [err |-> FALSE, secs |-> <<>>, cur |-> 0, open |-> FALSE, ind |-> 0]
SecNo(st, n) == LET P == {i \in 1..Len(st.secs) : st.secs[i].name = n} IN IF P = {} THEN 0 ELSE MinOf(P)
OptNo(sec, k) == LET P == {i \in 1..Len(sec.opts) : sec.opts[i].k = k} IN IF P = {} THEN 0 ELSE MinOf(P)
AddLine(st, v) == LET o == st.secs[st.cur].opts IN [st EXCEPT !.secs[st.cur].opts[st.last].v = Append(@, v)]
Fail(st) == [st EXCEPT !.err = TRUE]

OnHeader(st, n, ind, cfg) ==
  LET k == SecNo(st, n) IN
  IF k # 0 /\ cfg.strict THEN Fail(st)
  ELSE [err |-> FALSE, secs |-> IF k # 0 THEN st.secs ELSE Append(st.secs, [name |-> n, opts |-> <<>>]),
        cur |-> IF k # 0 THEN k ELSE Len(st.secs) + 1, open |-> FALSE, ind |-> ind, last |-> 0]
OnOption(st, v, ind, cfg) ==
  LET p == SepAt(v, cfg) raw == RTrim(SubSeq(v, 1, p - 1), WS) k == IF cfg.lower THEN ToLower(raw) ELSE raw
      val == Strip(SubSeq(v, p + 1, Len(v))) IN
  IF st.cur = 0 \/ p = 0 \/ raw = "" THEN Fail(st)
  ELSE LET sec == st.secs[st.cur] o == OptNo(sec, k) IN
       IF o # 0 /\ cfg.strict THEN Fail(st)
       ELSE LET n == IF o # 0 THEN o ELSE Len(sec.opts) + 1 IN
            [err |-> FALSE, cur |-> st.cur, open |-> TRUE, ind |-> ind, last |-> n,
             secs |-> [st.secs EXCEPT ![st.cur].opts = IF o # 0 THEN [@ EXCEPT ![o].v = <<val>>] ELSE Append(@, [k |-> k, v |-> <<val>>])]]
OnLine(st, line, cfg) ==
  IF st.err THEN st
  ELSE LET com == IsComment(line, cfg) v == IF com THEN "" ELSE Strip(line) ind == Indent(line) IN
    IF v = ""
    THEN IF cfg.empties THEN (IF ~com /\ st.open THEN AddLine(st, "") ELSE st) ELSE [st EXCEPT !.ind = NoLimit]
    ELSE IF st.open /\ ind > st.ind THEN AddLine(st, v)
    ELSE IF HasPrefix(v, "[") /\ HasSuffix(v, "]") THEN OnHeader(st, SubSeq(v, 2, Len(v) - 1), ind, cfg)
    ELSE OnOption(st, v, ind, cfg)

RECURSIVE ReadFrom(_, _, _, _)
ReadFrom(lines, i, st, cfg) == IF i > Len(lines) THEN st ELSE ReadFrom(lines, i + 1, TLCEval(OnLine(st, lines[i], cfg)), cfg)
Read(lines, cfg) == ReadFrom(lines, 1, Start, cfg)

RECURSIVE DropEmpty(_)
DropEmpty(v) == IF v # <<>> /\ v[Len(v)] = "" THEN DropEmpty(SubSeq(v, 1, Len(v) - 1)) ELSE v
ValueOf(v) == Join(DropEmpty(v), "\n")
\* The result as a set of <<section, option, value>> and the set of section names.
Triples(st) == UNION {{<<st.secs[i].name, st.secs[i].opts[j].k, ValueOf(st.secs[i].opts[j].v)>> : j \in 1..Len(st.secs[i].opts)} : i \in 1..Len(st.secs)}
SecNames(st) == {st.secs[i].name : i \in 1..Len(st.secs)}

\* What this specification says nothing about: brackets that are not a whole line, and the section DEFAULT.
OddLine(s) == LET v == Strip(s) IN
  (HasPrefix(v, "[") /\ (~HasSuffix(v, "]") \/ Len(v) = 2 \/ IndexOf(SubSeq(v, 2, Len(v) - 1), "]") # 0)) \/ v = "[DEFAULT]"

\* ---- entry points ----
EPCfg == [delims |-> <<"=">>, comments |-> <<"#", ";">>, strict |-> TRUE, empties |-> TRUE, lower |-> FALSE]
Word == Letters \cup Digits \cup {"_"}
AllWord(s) == s # "" /\ \A i \in 1..Len(s) : Ch(s, i) \in Word
Dotted(s) == LET p == Split(s, ".") IN \A i \in 1..Len(p) : AllWord(p[i])
\* The part before the extras, if what follows is extras: "[" ... "]" on one line at the end.
RefPart(v) == LET b == IndexOf(v, "[") IN
  IF b # 0 /\ HasSuffix(v, "]") /\ IndexOf(SubSeq(v, b, Len(v)), "\n") = 0 THEN RTrim(SubSeq(v, 1, b - 1), WS \cup {"\n"}) ELSE v
\* <<module, object>>, or <<>> if v is no reference to a callable
RefOf(v) == LET r == RefPart(v) p == Split(r, ":") IN
  IF Len(p) = 2 /\ Dotted(p[1]) /\ Dotted(p[2]) THEN p ELSE <<>>
\* Not judged: white space around the colon, identifiers that begin with a digit.
OddRef(v) == LET r == RefPart(v) IN
  \/ \E i \in 1..Len(r) : Ch(r, i) = ":" /\ ((i > 1 /\ Ch(r, i - 1) \in WS \cup {"\n"}) \/ (i < Len(r) /\ Ch(r, i + 1) \in WS \cup {"\n"}))
  \/ \E i \in 1..Len(r) : Ch(r, i) \in Digits /\ (i = 1 \/ Ch(r, i - 1) \in {".", ":"})
NameOKForScript(k) == k \notin {"", ".", ".."} /\ IndexOf(k, "/") = 0

Kinds == {"console_scripts", "gui_scripts"}
\* The scripts declared: a set of [kind, name, ref]; ok: the declaration is well-formed.
Declared(lines) ==
  LET st == TLCEval(Read(lines, EPCfg)) T == IF st.err THEN {} ELSE {t \in Triples(st) : t[1] \in Kinds} IN
  [ok |-> ~st.err /\ \A t \in T : NameOKForScript(t[2]) /\ RefOf(t[3]) # <<>>,
   odd |-> (\E i \in 1..Len(lines) : OddLine(lines[i])) \/ \E t \in T : OddRef(t[3]),
   scripts |-> {[kind |-> t[1], name |-> t[2], ref |-> RefOf(t[3])] : t \in T}]
=============================================================================
