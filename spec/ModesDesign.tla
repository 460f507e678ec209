----------------------------- MODULE ModesDesign -----------------------------
(* Every mode value: conversion to the host's representation and back loses nothing but unnamed types, and what
   is shown determines the value. *)
EXTENDS Modes
VARIABLE mode
Init == mode = 0
Next == mode < 65535 /\ mode' = mode + 1
Spec == Init /\ [][Next]_mode
Lossless == FromGo(ToGo(mode)) = IF TypeOf(mode) = "irregular" THEN mode % 4096 ELSE mode
\* reading the shown form back
B(c, set) == c \in set
ReadShown(s) ==
  (CASE Ch(s, 1) = "p" -> 1 [] Ch(s, 1) = "c" -> 2 [] Ch(s, 1) = "d" -> 4 [] Ch(s, 1) = "b" -> 6 [] Ch(s, 1) = "-" -> 8 [] Ch(s, 1) = "l" -> 10 [] Ch(s, 1) = "s" -> 12 [] Ch(s, 1) = "w" -> 14 [] OTHER -> 0) * 4096
  + (IF Ch(s, 4) \in {"s", "S"} THEN 2048 ELSE 0) + (IF Ch(s, 7) \in {"s", "S"} THEN 1024 ELSE 0) + (IF Ch(s, 10) \in {"t", "T"} THEN 512 ELSE 0)
  + (IF Ch(s, 2) = "r" THEN 256 ELSE 0) + (IF Ch(s, 3) = "w" THEN 128 ELSE 0) + (IF Ch(s, 4) \in {"x", "s"} THEN 64 ELSE 0)
  + (IF Ch(s, 5) = "r" THEN 32 ELSE 0) + (IF Ch(s, 6) = "w" THEN 16 ELSE 0) + (IF Ch(s, 7) \in {"x", "s"} THEN 8 ELSE 0)
  + (IF Ch(s, 8) = "r" THEN 4 ELSE 0) + (IF Ch(s, 9) = "w" THEN 2 ELSE 0) + (IF Ch(s, 10) \in {"x", "t"} THEN 1 ELSE 0)
Determines == LET s == Show(mode) IN Len(s) = 10 /\ (IF Ch(s, 1) = "?" THEN ReadShown(s) = mode % 4096 ELSE ReadShown(s) = mode)
=============================================================================
