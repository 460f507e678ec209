-------------------------------- MODULE TWrap --------------------------------
EXTENDS TraceBase
NL == "\n"
SP == " "
TAB == "\t"
MinCols == 24
BlockPad == 16
Slop == 5
INSTANCE Wrap
WrapWhy(ev) == LET s == TLCEval(Chars(ev.s)) out == TLCEval(Chars(ev.out)) IN
     Ck(Kept(s, ev.i, ev.w, out), "the text is not kept")
  \o Ck(Fits(s, ev.i, ev.w, out), "a line is longer than " \o ToString(ev.w))
  \o Ck(Unbroken(s, ev.i, ev.w, out), "broken without need")
  \o Ck(ev.plain, "Wrap and WrapIndent differ")
\* what the help of each command has to list
Listed(c) ==
  CASE c = "" -> <<"image", "layer", "python", "help", "--help">>
    [] c = "image" -> <<"build", "--help">>
    [] c = "image build" -> <<"--base", "-c,", "--config.Cmd", "--config.Entrypoint", "-e,", "--config.Env.append", "-E,", "--config.Env.clear", "-w,", "--config.WorkingDir", "-t,", "--tag", "--help">>
    [] c = "layer" -> <<"dir", "gobuild", "squash", "wheel", "--help">>
    [] c = "layer dir" -> <<"--chown-gid", "--chown-gname", "--chown-uid", "--chown-uname", "--prefix", "--prefix-gid", "--prefix-gname", "--prefix-uid", "--prefix-uname", "--help">>
    [] c = "layer gobuild" -> <<"-o,", "--output", "--help">>
    [] c = "layer squash" -> <<"--help">>
    [] c = "layer wheel" -> <<"--platform-file", "--help">>
    [] c = "python" -> <<"getwheel", "inspect", "--help">>
    [] c = "python getwheel" -> <<"--index-server", "--help">>
    [] c = "python inspect" -> <<"--imagefile", "--interpreter", "--help">>
HelpWhy(ev) == LET ws == TLCEval({ev.words[k] : k \in 1..Len(ev.words)}) IN
     Ck(ev.rc = 0, "exit status " \o ToString(ev.rc)) \o Ck(ev.err = "", "messages: " \o ev.err)
  \o Ck(ev.words = ev.wide, "other words at width " \o ToString(ev.w))
  \o Ck(\A k \in 1..Len(Listed(ev.cmd)) : Listed(ev.cmd)[k] \in ws, "not listed: " \o ToString({x \in {Listed(ev.cmd)[k] : k \in 1..Len(Listed(ev.cmd))} : x \notin ws}))
Judge(ev) == CASE ev.k = "wrap" -> WrapWhy(ev) [] ev.k = "help" -> HelpWhy(ev)
TraceNext == StepWith(Judge)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
