------------------------------ MODULE GoDesign ------------------------------
(* Builds of Go layers that run side by side: each makes a directory of its own, has the compiler write its binaries there one by one (the
   compiler may be missing, fail or be cancelled after any of them, and may talk meanwhile), reads the directory into a layer, and removes it.
   A layer is exactly what its own compiler wrote, there is none after a failure, and in the end no directory remains.
   With Own = FALSE (one directory shared by all) the first of these does not hold: the model can tell. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Builds, Bins, Own
VARIABLES pc, want, dirs, said, layer, err
vars == <<pc, want, dirs, said, layer, err>>
Dir(b) == IF Own THEN b ELSE CHOOSE x \in Builds : TRUE
Init == /\ pc = [b \in Builds |-> "start"] /\ want \in [Builds -> SUBSET Bins \ {{}}]
        /\ dirs = [d \in {} |-> {}] /\ said = [b \in Builds |-> FALSE]
        /\ layer = [b \in Builds |-> {}] /\ err = [b \in Builds |-> FALSE]
To(b, s) == pc' = [pc EXCEPT ![b] = s]
Mk(b) == pc[b] = "start" /\ To(b, "compile") /\ dirs' = (IF Dir(b) \in DOMAIN dirs THEN dirs ELSE (Dir(b) :> {}) @@ dirs) /\ UNCHANGED <<want, said, layer, err>>
There(b) == Dir(b) \in DOMAIN dirs
Write(b) == /\ pc[b] = "compile" /\ There(b) /\ \E x \in want[b] \ dirs[Dir(b)] : dirs' = [dirs EXCEPT ![Dir(b)] = @ \cup {x}]
            /\ UNCHANGED <<pc, want, said, layer, err>>
Talk(b) == pc[b] = "compile" /\ ~said[b] /\ said' = [said EXCEPT ![b] = TRUE] /\ UNCHANGED <<pc, want, dirs, layer, err>>
Compiled(b) == pc[b] = "compile" /\ There(b) /\ want[b] \subseteq dirs[Dir(b)] /\ To(b, "read") /\ UNCHANGED <<want, dirs, said, layer, err>>
Fail(b) == pc[b] \in {"compile", "read"} /\ To(b, "clean") /\ err' = [err EXCEPT ![b] = TRUE] /\ UNCHANGED <<want, dirs, said, layer>>
Read(b) == pc[b] = "read" /\ There(b) /\ To(b, "clean") /\ layer' = [layer EXCEPT ![b] = dirs[Dir(b)]] /\ UNCHANGED <<want, dirs, said, err>>
Clean(b) == pc[b] = "clean" /\ To(b, "done") /\ dirs' = [d \in DOMAIN dirs \ {Dir(b)} |-> dirs[d]] /\ UNCHANGED <<want, said, layer, err>>
Step(b) == Mk(b) \/ Write(b) \/ Talk(b) \/ Compiled(b) \/ Fail(b) \/ Read(b) \/ Clean(b)
Next == \E b \in Builds : Step(b)
Spec == Init /\ [][Next]_vars /\ \A b \in Builds : WF_vars(Step(b))
Exact == \A b \in Builds : pc[b] = "done" => (IF err[b] THEN layer[b] = {} ELSE layer[b] = want[b])
NothingLeft == (\A b \in Builds : pc[b] = "done") => DOMAIN dirs = {}
Ends == \A b \in Builds : <>(pc[b] = "done")
=============================================================================
