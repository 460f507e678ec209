------------------------------- MODULE Image -------------------------------
(* Building an image: the base's layers and configuration plus what was asked for.
   A configuration is [env, ep, cmd: sequences of strings, wd: string, rest: a set of <<key, value>>, hist: number of
   history entries for layers].  An image is [layers: sequence of content digests, cfg]. *)
EXTENDS Strs
EmptyCfg == [env |-> <<>>, ep |-> <<>>, cmd |-> <<>>, wd |-> "", rest |-> {}, hist |-> 0]
EmptyImage == [layers |-> <<>>, cfg |-> EmptyCfg]
\* f: [clear, env, hasep, ep, hascmd, cmd, wd]
Configured(c, f) ==
  [c EXCEPT !.env = (IF f.clear THEN <<>> ELSE c.env) \o f.env,
            !.ep = IF f.hasep THEN f.ep ELSE c.ep,
            !.cmd = IF f.hascmd THEN f.cmd ELSE c.cmd,
            !.wd = IF f.wd # "" THEN f.wd ELSE c.wd]
BuildImage(base, adds, f) == [layers |-> base.layers \o adds, cfg |-> [Configured(base.cfg, f) EXCEPT !.hist = base.cfg.hist + Len(adds)]]
NoFlags == [clear |-> FALSE, env |-> <<>>, hasep |-> FALSE, ep |-> <<>>, hascmd |-> FALSE, cmd |-> <<>>, wd |-> ""]
=============================================================================
