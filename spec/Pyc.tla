--------------------------------- MODULE Pyc ---------------------------------
(* Compiled Python files (C27).
   A source is [c: components of its place, s: its time, size: numeral, py: [hash: as the interpreter hashes it, ok: it compiles, code: digest of
   what it compiles to]], a compiled file [c, mode, s, size, len, py: [ok: it can be loaded, magic: of this interpreter, flags, hash or s and size:
   how the interpreter tells if it is current, file, fab: the name of the source it mentions, code]]. *)
EXTENDS Strs

\* where the compiled form of the source at c is, for an interpreter and an optimization level
OptCacheOf(c, tag, o) == SubSeq(c, 1, Len(c) - 1) \o <<"__pycache__", DropSuffix(c[Len(c)], ".py") \o "." \o tag \o (IF o = 0 THEN "" ELSE ".opt-" \o ToString(o)) \o ".pyc">>
CacheOf(c, tag) == OptCacheOf(c, tag, 0)
IsSource(c) == HasSuffix(c[Len(c)], ".py")
Earlier(a, b) == IF b # 0 /\ b < a THEN b ELSE a
\* The ways an interpreter tells whether a compiled file is current: by time and size, by hash, or not at all.
ByTime == 0
Unchecked == 1
Checked == 3
FlagsFor(inval, clamp) == CASE inval = "timestamp" -> ByTime [] inval = "unchecked-hash" -> Unchecked [] inval = "checked-hash" -> Checked
                            [] OTHER -> IF clamp # 0 THEN Checked ELSE ByTime
\* Whether an interpreter takes p for the compiled form of a source of that time, size and hash.
Current(p, s, size, hash) == p.magic /\ (IF p.flags = ByTime THEN p.s = s /\ p.size = size ELSE IF p.flags = Checked THEN p.hash = hash ELSE p.flags = Unchecked)
\* Why a compiled file is not right for a source that is installed with the time s.
PycWhy(p, src, s, flags) ==
  IF ~p.ok \/ ~p.magic THEN "the interpreter cannot load it"
  ELSE IF p.flags # flags THEN "it is checked in another way: " \o ToString(p.flags)
  ELSE IF ~Current(p, s, src.size, src.py.hash) \/ (p.flags = Unchecked /\ p.hash # src.py.hash) THEN "it is not current"
  ELSE IF p.code # src.py.code THEN "it is not what the source compiles to"
  ELSE IF ~p.fab \/ p.file # src.c THEN "it mentions another file: " \o ToString(p.file)
  ELSE ""
=============================================================================
