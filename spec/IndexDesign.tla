----------------------------- MODULE IndexDesign -----------------------------
(* An index that gets files one by one, in any order: the selection is the best by every criterion in turn, adding a
   file changes it only if that file is better, and it does not depend on the order. *)
EXTENDS Index, Json
CONSTANTS MaxFiles, EmitCases
VARIABLES listed, want

Inst == <<<<"cp39", "cp39", "linux">>, <<"py3", "none", "any">>>>
V(s) == ParseVersion(s).v
Vers == {"1.0", "1.0.0", "1.1a1", "2.0"}
Texts == {"p-" \o v \o b \o "-" \o t \o ".whl" : v \in Vers, b \in {"", "-1"}, t \in {"cp39-cp39-linux", "py2.py3-none-any"}} \cup {"p-2.0.tar.gz", "p-2.0-cp27-none-any.whl"}
Files == TLCEval({[text |-> t, yanked |-> y, req |-> r] : t \in Texts, y \in BOOLEAN, r \in {""}} \cup {[text |-> t, yanked |-> FALSE, req |-> r] : t \in Texts, r \in {"<3", ">=3.9"}})
Specs == <<"", "==1.0", "<2.0">>
Reqs == TLCEval([s \in Range(Specs) |-> ParseSpec(s).v])
\* The candidate a file gives, if any.
CandOf == TLCEval([f \in Files |-> Candidates(<<f>>, <<V("3.9")>>, Inst)])

Init == listed = <<>> /\ want \in Range(Specs)
Add == Len(listed) < MaxFiles /\ \E f \in Files : listed' = Append(listed, f) /\ UNCHANGED want
Next == Add
Spec == Init /\ [][Next]_<<listed, want>>

All(fs) == UNION {{[c EXCEPT !.i = i] : c \in CandOf[fs[i]]} : i \in 1..Len(fs)}
Of(fs) == TLCEval(Best(All(fs), Reqs[want]))
Texts2(fs, B) == {fs[c.i] : c \in B}
Swapped == [i \in 1..Len(listed) |-> listed[Len(listed) + 1 - i]]
OrderFree == Texts2(listed, Of(listed)) = Texts2(Swapped, Of(Swapped))
\* What is selected is acceptable, and something is whenever something is acceptable.
Sound == LET C == TLCEval(All(listed)) B == Of(listed) M == {c \in C : MatchSpec(Reqs[want], c.ver)} IN
  /\ B \subseteq M /\ (B = {}) = (M = {})
  /\ \A b \in B, c \in M :
       \* nothing acceptable that is neither a pre-release nor yanked is passed over for one that is
       /\ (IsPreRelease(b.ver) \/ b.yanked) => IsPreRelease(c.ver) \/ c.yanked
       \* among the ordinary ones the highest version wins, then the tag, then the build
       /\ (~IsPreRelease(c.ver) /\ ~c.yanked) =>
            /\ CmpVersion(c.ver, b.ver) <= 0
            /\ CmpVersion(c.ver, b.ver) = 0 => (b.rank <= c.rank /\ (b.rank = c.rank => CmpBuild(c.build, b.build) <= 0))
\* Adding a file that is not selected does not change the selection, unless it makes a yanked version available.
Monotone == Len(listed) > 0 =>
  LET before == SubSeq(listed, 1, Len(listed) - 1) B == Of(listed) A == Of(before) f == listed[Len(listed)] IN
  (f \notin Texts2(listed, B) /\ f.yanked) => Texts2(before, A) = Texts2(listed, B)
Emit == (EmitCases /\ Len(listed) > 0) => PrintT("CASE " \o ToJson([files |-> listed, want |-> want]))
=============================================================================
