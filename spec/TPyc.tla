-------------------------------- MODULE TPyc --------------------------------
EXTENDS Pyc, TraceBase
Tag == "cpython-312"
Ok(set) == \A i \in 1..Len(set.srcs) : IsSource(set.srcs[i].c) => set.srcs[i].py.ok
Works(ev, set) == ev.how = "" /\ ~ev.early /\ ~ev.notmp /\ Ok(set)
Find(out, c) == LET S == {i \in 1..Len(out) : out[i].c = c} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
\* what is right for one source and one of its levels of optimization [o, code]
LevelWhy(ev, src, lev, out) ==
  LET i == Find(out, OptCacheOf(src.c, Tag, lev.o)) IN
  IF i = 0 THEN <<"not compiled: " \o Join(src.c, "/")>>
  ELSE LET o == out[i] y == PycWhy(o.py, [src EXCEPT !.py.code = lev.code], Earlier(src.s, ev.clamp), FlagsFor(ev.inval, ev.clamp)) IN
       Ck(y = "", Join(src.c, "/") \o ": " \o y)
       \o Ck(o.mode = 420 /\ o.size = o.len, "mode or size of " \o Join(o.c, "/"))
       \o Ck(ev.clamp = 0 \/ o.s = ev.clamp, "time of " \o Join(o.c, "/"))
RECURSIVE Levels(_, _, _, _)
Levels(ev, src, levs, out) == IF levs = <<>> THEN <<>> ELSE LevelWhy(ev, src, Head(levs), out) \o Levels(ev, src, Tail(levs), out)
OneWhy(ev, src, out) == IF IsSource(src.c) THEN Levels(ev, src, src.py.codes, out) ELSE <<>>
Wanted(ev, set) == {OptCacheOf(set.srcs[i].c, Tag, ev.opts[k]) : i \in {j \in 1..Len(set.srcs) : IsSource(set.srcs[j].c)}, k \in 1..Len(ev.opts)}
RECURSIVE All(_, _, _)
All(ev, srcs, out) == IF srcs = <<>> THEN <<>> ELSE OneWhy(ev, Head(srcs), out) \o All(ev, Tail(srcs), out)
RunWhy(ev, set, r) ==
  IF ~Works(ev, set) THEN Ck(r.err # "", "no error although the compiler " \o (IF Ok(set) THEN "fails" ELSE "refuses a source")) \o Ck(r.out = <<>>, "files although there is an error")
  ELSE IF r.err # "" THEN <<"an error: " \o r.err>>
  ELSE All(ev, set.srcs, r.out)
       \o Ck({r.out[i].c : i \in 1..Len(r.out)} = Wanted(ev, set) /\ Len(r.out) = Cardinality(Wanted(ev, set)), "other files: " \o ToString({r.out[i].c : i \in 1..Len(r.out)}))
SetWhy(ev, set) == RunWhy(ev, set, set.runs[1]) \o RunWhy(ev, set, set.runs[2])
                   \o Ck(~Works(ev, set) \/ ev.clamp = 0 \/ set.runs[1].sum = set.runs[2].sum, "another run gives other files")
RECURSIVE Sets(_, _)
Sets(ev, i) == IF i = 0 THEN <<>> ELSE Sets(ev, i - 1) \o SetWhy(ev, ev.sets[i])
RECURSIVE Dirs(_)
Dirs(pp) == IF pp = <<>> THEN "" ELSE "@/" \o Head(pp) \o (IF Len(pp) > 1 THEN ":" ELSE "") \o Dirs(Tail(pp))
\* The directories of the image come before the ones of the caller.
Path(ev) == Dirs(ev.pp) \o (IF ev.pp # <<>> /\ ev.host # "" THEN ":" ELSE "") \o ev.host
EnvOK(ev, e) == e.pp = Path(ev) /\ e.seed = "0" /\ e.sde = (IF ev.clamp = 0 THEN "unset" ELSE ToString(ev.clamp))
Judge(ev) ==
  IF ev.how \in {"none", "empty"} THEN Ck(~ev.made, "a compiler without a command")
  ELSE IF ~ev.made THEN <<"no compiler">>
  ELSE Sets(ev, Len(ev.sets))
    \o Ck(\A i \in 1..Len(ev.envs) : EnvOK(ev, ev.envs[i]), "the compiler sees " \o ToString(ev.envs))
    \o Ck(ev.left = <<>>, "left behind: " \o ToString(ev.left))
TraceNext == StepWith(Judge)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
