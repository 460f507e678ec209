---------------------------- MODULE DockerDesign ----------------------------
(* Loading an image into the engine for the duration of an action.  Every combination of faults; whatever happens,
   the action runs at most once, only while the image is loaded, and the image does not stay behind. *)
EXTENDS Strs, Json
CONSTANT EmitCases
VARIABLES pc, loaded, acted, removed, cancelled, fault, result
vars == <<pc, loaded, acted, removed, cancelled, fault, result>>
Faults == [engine : {"ok", "missing"}, cancel : {"never", "before", "load", "act"}, load : {"ok", "early", "late"}, act : {"ok", "fail", "panic"}, rm : {"ok", "fail"}, img : {"ok", "bad"}]
Init == /\ pc = "start" /\ loaded = FALSE /\ acted = 0 /\ removed = 0 /\ result = "" /\ fault \in Faults
        /\ cancelled = (fault.cancel = "before")
First(r) == IF result = "" THEN r ELSE result
Start == pc = "start" /\ (IF fault.engine = "missing" \/ cancelled THEN pc' = "cleanup" /\ result' = "load" ELSE pc' = "load" /\ UNCHANGED result)
         /\ UNCHANGED <<loaded, acted, removed, cancelled, fault>>
Load == pc = "load" /\ (IF fault.cancel = "load" THEN cancelled' = TRUE /\ pc' = "cleanup" /\ result' = "load" /\ UNCHANGED loaded
                        ELSE IF fault.load # "ok" \/ fault.img = "bad" THEN pc' = "cleanup" /\ result' = "load" /\ UNCHANGED <<loaded, cancelled>>
                        ELSE loaded' = TRUE /\ pc' = "act" /\ UNCHANGED <<result, cancelled>>)
        /\ UNCHANGED <<acted, removed, fault>>
Act == pc = "act" /\ acted' = acted + 1 /\ cancelled' = (cancelled \/ fault.cancel = "act") /\ pc' = "cleanup"
       /\ result' = (IF fault.act = "ok" THEN "" ELSE fault.act) /\ UNCHANGED <<loaded, removed, fault>>
\* the removal does not depend on the context
Cleanup == pc = "cleanup" /\ removed' = removed + 1 /\ loaded' = FALSE /\ pc' = "done"
           /\ result' = (IF fault.rm = "fail" /\ loaded THEN First("rm") ELSE result) /\ UNCHANGED <<acted, cancelled, fault>>
Next == Start \/ Load \/ Act \/ Cleanup
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Gone == pc = "done" => ~loaded
OnceWhileLoaded == acted <= 1 /\ (pc = "act" => loaded) /\ (acted = 1 => fault.load = "ok" /\ fault.img = "ok" /\ fault.engine = "ok")
Reported == pc = "done" => (result = "" <=> (acted = 1 /\ fault.act = "ok" /\ fault.rm = "ok"))
Ends == <>(pc = "done")
Emit == EmitCases /\ pc = "start" => PrintT("CASE " \o ToJson(fault))
=============================================================================
