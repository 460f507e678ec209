---------------------------- MODULE ConfigDesign ----------------------------
(* Every file of up to MaxLines lines over an alphabet of lines, read line by line: each line is accounted for
   exactly once, names are unique, and nothing declared is lost or invented. *)
EXTENDS Config, Json
CONSTANTS MaxLines, Alphabet, Strict, Empties, EmitCases
VARIABLES state, text, used

C == [delims |-> <<"=", ":">>, comments |-> <<"#", ";">>, strict |-> Strict, empties |-> Empties, lower |-> TRUE]
Small == <<"[a]", " [b]", "x = 1", "X=", "  y", "", " # c", "y: 2 = 3", "\tz=:", "junk">>
Large == Small \o <<"[console_scripts]", "x = m:f", "  [e]", "; c", "=v", "  x = 2", "   deep = 3", "[a ]", "[]", "k", " = ", "\t", "    [a]">>
Lines == IF Alphabet = "small" THEN Small ELSE Large

\* used: what happened to the lines: [h: headers, o: options, c: continuations, n: none]
Init == state = Start /\ text = <<>> /\ used = [h |-> 0, o |-> 0, c |-> 0, n |-> 0]
Next ==
  /\ Len(text) < MaxLines /\ ~state.err
  /\ \E i \in 1..Len(Lines) : LET ln == Lines[i] n == OnLine(state, ln, C) v == Strip(ln) IN
       /\ state' = n /\ text' = Append(text, ln)
       /\ used' = IF n.err THEN used
                  ELSE IF IsComment(ln, C) \/ v = "" THEN [used EXCEPT !.n = @ + 1]
                  ELSE IF state.open /\ Indent(ln) > state.ind THEN [used EXCEPT !.c = @ + 1]
                  ELSE IF HasPrefix(v, "[") /\ HasSuffix(v, "]") THEN [used EXCEPT !.h = @ + 1]
                  ELSE [used EXCEPT !.o = @ + 1]
Spec == Init /\ [][Next]_<<state, text, used>>

RECURSIVE Sum(_, _)
Sum(F(_), n) == IF n = 0 THEN 0 ELSE F(n) + Sum(F, n - 1)
Opts(i) == Len(state.secs[i].opts)
NonEmpty(v) == Cardinality({j \in 1..Len(v) : v[j] # ""})
ContOf(i) == LET f(j) == NonEmpty(SubSeq(state.secs[i].opts[j].v, 2, Len(state.secs[i].opts[j].v))) IN Sum(f, Opts(i))
\* In a strict file every header makes a section, every option line an option, every continuation line one line of a value.
Accounted == (Strict /\ ~state.err) =>
  /\ used.h = Len(state.secs) /\ used.o = Sum(Opts, Len(state.secs)) /\ used.c = Sum(ContOf, Len(state.secs))
  /\ used.h + used.o + used.c + used.n = Len(text)
Unique == /\ \A i, j \in 1..Len(state.secs) : i # j => state.secs[i].name # state.secs[j].name
          /\ \A i \in 1..Len(state.secs) : \A j, k \in 1..Opts(i) : j # k => state.secs[i].opts[j].k # state.secs[i].opts[k].k
NamesClean == \A i \in 1..Len(state.secs) : \A j \in 1..Opts(i) : LET k == state.secs[i].opts[j].k IN k # "" /\ k = Strip(k) /\ SepAt(k, C) = 0
\* An error is never forgotten, and reading in one go is reading line by line.
SameAsRead == state.err = Read(text, C).err /\ (~state.err => state = Read(text, C))
Emit == (EmitCases /\ Len(text) > 0) => PrintT("CASE " \o ToJson([text |-> text, strict |-> Strict, empties |-> Empties]))
=============================================================================
