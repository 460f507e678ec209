------------------------------- MODULE TModes -------------------------------
EXTENDS Modes, TraceBase
RECURSIVE Reasons(_, _)
Reasons(Op(_), n) == IF n = 0 THEN <<>> ELSE Reasons(Op, n - 1) \o Op(n)
\* ms: a sequence of [m, go, back, str, dir, reg]
ModeWhy(e) ==
     Ck(e.go = ToGo(e.m), "mode " \o ToString(e.m) \o " converts to " \o ToString(e.go))
  \o Ck(e.back = (IF TypeOf(e.m) = "irregular" THEN e.m % 4096 ELSE e.m), "mode " \o ToString(e.m) \o " comes back as " \o ToString(e.back))
  \o Ck(e.str = Show(e.m), "mode " \o ToString(e.m) \o " is shown as " \o e.str)
  \o Ck(e.dir = (Fmt(e.m) = 4) /\ e.reg = (Fmt(e.m) = 8), "mode " \o ToString(e.m) \o ": directory " \o ToString(e.dir) \o ", regular " \o ToString(e.reg))
\* gs: host modes [go, m, again]
GoWhy(e) == Ck(e.m = FromGo(e.go), "host mode " \o ToString(e.go) \o " converts to " \o ToString(e.m))
         \o Ck(e.again = e.go, "host mode " \o ToString(e.go) \o " comes back as " \o ToString(e.again))
\* zs: external attributes [hi, lo: the two halves, unix, unused, dos, rhi, rlo]
ZipWhy(e) == Ck(e.unix = e.hi /\ e.unused = e.lo \div 256 /\ e.dos = e.lo % 256, "external attributes " \o ToString(<<e.hi, e.lo>>) \o " read as " \o ToString(e))
          \o Ck(e.rhi = e.hi /\ e.rlo = e.lo, "external attributes " \o ToString(<<e.hi, e.lo>>) \o " written as " \o ToString(<<e.rhi, e.rlo>>))
\* attrs: by name, the position of the only bit set; dos: [bit, kept]
AttrWhy(ev) == Ck(ev.attrs = AttrBits, "file attribute bits " \o ToString(ev.attrs))
            \o Reasons(LAMBDA i : Ck(ev.dos[i] = (i - 1 \in DOSBits), "attribute bit " \o ToString(i - 1) \o " in DOS attributes: " \o ToString(ev.dos[i])), Len(ev.dos))
Judge(ev) == Reasons(LAMBDA i : ModeWhy(ev.ms[i]), Len(ev.ms)) \o Reasons(LAMBDA i : GoWhy(ev.gs[i]), Len(ev.gs))
          \o Reasons(LAMBDA i : ZipWhy(ev.zs[i]), Len(ev.zs)) \o AttrWhy(ev)
TraceNext == StepWith(Judge)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
