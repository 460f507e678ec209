------------------------------ MODULE LookDesign ------------------------------
(* Path lookup as a machine that takes one step per component or symlink, over every symlink graph on a
   few names.  Every lookup ends; the number of symlinks followed is bounded; without the bound it would
   not end (set Bounded to FALSE to see TLC's counterexample). *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Names, Targets, Bounded, Limit, Wanted
VARIABLES links, cur, todo, hops, done
vars == <<links, cur, todo, hops, done>>

\* links: which of the names at the root are symlinks, and to what; other names are directories.
Init == /\ links \in [Names -> Targets \cup {<<"dir">>}]
        /\ cur = <<>> /\ todo \in Wanted /\ hops = 0 /\ done = ""
IsLink(p) == Len(p) = 1 /\ links[p[1]] # <<"dir">>
Exists(p) == \/ Len(p) = 1
             \/ Len(p) = 2 /\ p[1] # p[2]
Step ==
  /\ done = ""
  /\ UNCHANGED links
  /\ IF todo = <<>> THEN done' = "ok" /\ UNCHANGED <<cur, todo, hops>>
     ELSE LET c == Head(todo) rest == Tail(todo) q == Append(cur, c) IN
       IF c = ".." THEN /\ cur' = IF cur = <<>> THEN <<>> ELSE SubSeq(cur, 1, Len(cur) - 1)
                        /\ todo' = rest /\ UNCHANGED <<hops, done>>
       ELSE IF ~Exists(q) THEN done' = "notexist" /\ UNCHANGED <<cur, todo, hops>>
       ELSE IF IsLink(q)
            THEN IF Bounded /\ hops >= Limit THEN done' = "loop" /\ UNCHANGED <<cur, todo, hops>>
                 ELSE /\ todo' = links[c] \o rest
                      /\ hops' = IF Bounded THEN hops + 1 ELSE hops
                      /\ UNCHANGED <<cur, done>>
       ELSE cur' = q /\ todo' = rest /\ UNCHANGED <<hops, done>>
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)
HopsBounded == hops <= Limit
InsideRoot == \A i \in 1..Len(cur) : cur[i] \in Names
Ends == <>(done # "")
TargetSet == {<<a>> : a \in Names} \cup {<<a, b>> : a, b \in Names} \cup {<<"..", a>> : a \in Names}
WantedSet == {<<a, b>> : a, b \in Names} \cup {<<a>> : a \in Names}
=============================================================================
