---------------------------- MODULE EngineDesign ----------------------------
(* Several images loaded into one engine at the same time, each for the duration of its own action.  The engine maps
   names to images: loading under a name that is taken replaces the image, removing takes the name away.  The names
   have to differ, and then no interleaving of the sessions lets one see or remove the image of another. *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS N, Unique
Sessions == 1..N
VARIABLES pc, name, engine
vars == <<pc, name, engine>>
None == 0
Init == /\ pc = [s \in Sessions |-> "start"] /\ engine = [t \in Sessions |-> None]
        /\ name \in [Sessions -> Sessions] /\ (Unique => \A s, t \in Sessions : s # t => name[s] # name[t])
Go(s, a, b) == pc[s] = a /\ pc' = [pc EXCEPT ![s] = b]
Start(s) == Go(s, "start", "load") /\ UNCHANGED <<name, engine>>
Load(s) == Go(s, "load", "act") /\ engine' = [engine EXCEPT ![name[s]] = s] /\ UNCHANGED name
\* the engine gives up in the middle; whether it had already taken the image is up to it
LoadFails(s) == Go(s, "load", "cleanup") /\ engine' \in {engine, [engine EXCEPT ![name[s]] = s]} /\ UNCHANGED name
Act(s) == Go(s, "act", "cleanup") /\ UNCHANGED <<name, engine>>
Remove(s) == Go(s, "cleanup", "done") /\ engine' = [engine EXCEPT ![name[s]] = None] /\ UNCHANGED name
Next == \E s \in Sessions : Start(s) \/ Load(s) \/ LoadFails(s) \/ Act(s) \/ Remove(s)
Spec == Init /\ [][Next]_vars /\ \A s \in Sessions : WF_vars(Start(s) \/ Load(s) \/ LoadFails(s) \/ Act(s) \/ Remove(s))
OwnImage == \A s \in Sessions : pc[s] = "act" => engine[name[s]] = s
NothingLeft == (\A s \in Sessions : pc[s] = "done") => engine = [t \in Sessions |-> None]
Ends == <>(\A s \in Sessions : pc[s] = "done")
=============================================================================
