-------------------------------- MODULE Modes --------------------------------
(* POSIX mode values (16 bits) and their readings. *)
EXTENDS Strs
Bit(m, k) == (m \div k) % 2 = 1
Fmt(m) == m \div 4096
TypeOf(m) == CASE Fmt(m) = 1 -> "fifo" [] Fmt(m) = 2 -> "chr" [] Fmt(m) = 4 -> "dir" [] Fmt(m) = 6 -> "blk"
               [] Fmt(m) = 8 -> "reg" [] Fmt(m) = 10 -> "sym" [] Fmt(m) = 12 -> "sock" [] OTHER -> "irregular"
FmtOf(t) == CASE t = "fifo" -> 1 [] t = "chr" -> 2 [] t = "dir" -> 4 [] t = "blk" -> 6 [] t = "reg" -> 8 [] t = "sym" -> 10 [] t = "sock" -> 12 [] OTHER -> 0
ToGo(m) == [perm |-> m % 512, setuid |-> Bit(m, 2048), setgid |-> Bit(m, 1024), sticky |-> Bit(m, 512), type |-> TypeOf(m)]
FromGo(g) == g.perm + (IF g.setuid THEN 2048 ELSE 0) + (IF g.setgid THEN 1024 ELSE 0) + (IF g.sticky THEN 512 ELSE 0) + 4096 * FmtOf(g.type)
\* as 'ls -l' shows it
TypeChar(m) == CASE Fmt(m) = 1 -> "p" [] Fmt(m) = 2 -> "c" [] Fmt(m) = 4 -> "d" [] Fmt(m) = 6 -> "b" [] Fmt(m) = 8 -> "-"
                 [] Fmt(m) = 10 -> "l" [] Fmt(m) = 12 -> "s" [] Fmt(m) = 14 -> "w" [] OTHER -> "?"
X(x, special, yes, no) == IF special THEN (IF x THEN yes ELSE no) ELSE IF x THEN "x" ELSE "-"
Show(m) ==
  TypeChar(m) \o (IF Bit(m, 256) THEN "r" ELSE "-") \o (IF Bit(m, 128) THEN "w" ELSE "-") \o X(Bit(m, 64), Bit(m, 2048), "s", "S")
              \o (IF Bit(m, 32) THEN "r" ELSE "-") \o (IF Bit(m, 16) THEN "w" ELSE "-") \o X(Bit(m, 8), Bit(m, 1024), "s", "S")
              \o (IF Bit(m, 4) THEN "r" ELSE "-") \o (IF Bit(m, 2) THEN "w" ELSE "-") \o X(Bit(m, 1), Bit(m, 512), "t", "T")
\* the bits of a Windows file attribute value, by position
AttrBits == [readonly |-> 0, hidden |-> 1, system |-> 2, directory |-> 4, archive |-> 5, device |-> 6, normal |-> 7, temporary |-> 8,
             sparse |-> 9, reparse |-> 10, compressed |-> 11, offline |-> 12, notindexed |-> 13, encrypted |-> 14, integrity |-> 15,
             virtual |-> 16, noscrub |-> 17, recallopen |-> 18, recallaccess |-> 22]
DOSBits == {0, 1, 2, 4, 5}
=============================================================================
