------------------------------ MODULE AskDesign ------------------------------
(* Several users describe interpreters with command lines that are the first words of one array.  Each user's inquiry is put behind its words, step by step,
   in a copy (Private) or in the array itself. *)
EXTENDS Plat
CONSTANTS MaxWords, Users, Private
VARIABLES mem, us
vars == <<mem, us>>
Words == <<"py", "a", "b", "c", "d", "e">>
Mem0 == SubSeq(Words, 1, MaxWords)
Init == /\ mem = Mem0
        /\ us \in [1..Users -> {[n |-> n, pc |-> "c", own |-> SubSeq(Mem0, 1, n), ran |-> <<>>] : n \in 1..MaxWords}]
InPlace(u) == ~Private /\ us[u].n + 2 <= MaxWords
Put(u, w, at, next) == /\ us[u].pc = w[1]
                 /\ IF InPlace(u) THEN mem' = [mem EXCEPT ![at] = w[2]] /\ us' = [us EXCEPT ![u].pc = next]
                    ELSE us' = [us EXCEPT ![u].pc = next, ![u].own = Append(@, w[2])] /\ UNCHANGED mem
PutC(u) == Put(u, <<"c", "-c">>, us[u].n + 1, "q")
PutQ(u) == Put(u, <<"q", "inquiry">>, us[u].n + 2, "run")
Run(u) == /\ us[u].pc = "run" /\ us' = [us EXCEPT ![u].pc = "done", ![u].ran = IF InPlace(u) THEN SubSeq(mem, 1, us[u].n + 2) ELSE us[u].own] /\ UNCHANGED mem
Next == \E u \in 1..Users : PutC(u) \/ PutQ(u) \/ Run(u)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* Every interpreter is run with the words of its own user and the inquiry, and nobody's words change.
Own == \A u \in 1..Users : us[u].pc = "done" => us[u].ran = SubSeq(Mem0, 1, us[u].n) \o Inquiry
Kept == mem = Mem0
Ends == <>(\A u \in 1..Users : us[u].pc = "done")
=============================================================================
