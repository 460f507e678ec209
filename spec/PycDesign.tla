------------------------------ MODULE PycDesign ------------------------------
(* The life of a source, its compiled form and an interpreter.  A wheel is installed with some clamp time; later layers may replace the source (with the
   compiled file still there).  The interpreter runs the compiled file if it takes it for current and compiles the source otherwise.
   The installed compiled file is current (so nothing is compiled again), and an interpreter never runs what the source is not, except where the
   ways of telling say so: an unchecked file, or a replacement of the same size and time under ByTime. *)
EXTENDS Pyc
CONSTANTS MaxTime, MaxOps, ClampFirst   \* ClampFirst: the compiler sees the clamped times
VARIABLES src, pyc, clamp, inval, ran, n
vars == <<src, pyc, clamp, inval, ran, n>>
Texts == {"a", "b", "cc"}
SizeOf(t) == ToString(Len(t))
Inst(m) == Earlier(m, clamp)
Compile(t, m) == LET f == FlagsFor(inval, clamp) IN [magic |-> TRUE, flags |-> f, hash |-> IF f = ByTime THEN "" ELSE t, s |-> IF f = ByTime THEN m ELSE 0, size |-> IF f = ByTime THEN SizeOf(t) ELSE "", code |-> t]
Init == /\ clamp \in 0..MaxTime /\ inval \in {"", "timestamp", "checked-hash", "unchecked-hash"}
        /\ \E t \in Texts, m \in 1..MaxTime : /\ src = [t |-> t, s |-> Inst(m), first |-> TRUE, sametime |-> TRUE]
                                              /\ pyc = Compile(t, IF ClampFirst THEN Inst(m) ELSE m)
        /\ ran = [what |-> "", again |-> FALSE] /\ n = 0
Takes == Current(pyc, src.s, SizeOf(src.t), src.t)
Run == /\ ran' = (IF Takes THEN [what |-> pyc.code, again |-> FALSE] ELSE [what |-> src.t, again |-> TRUE]) /\ UNCHANGED <<src, pyc, clamp, inval>>
Replace == \E t \in Texts, m \in 1..MaxTime : /\ src' = [t |-> t, s |-> m, first |-> FALSE, sametime |-> m = pyc.s /\ SizeOf(t) = pyc.size] /\ ran' = [what |-> "", again |-> FALSE] /\ UNCHANGED <<pyc, clamp, inval>>
Next == n < MaxOps /\ n' = n + 1 /\ (Run \/ Replace)
Spec == Init /\ [][Next]_vars
Faithful == ran.what \in {"", src.t} \/ pyc.flags = Unchecked \/ (pyc.flags = ByTime /\ src.sametime)
Fresh == src.first => ~ran.again
=============================================================================
