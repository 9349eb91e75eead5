-------------------------------- MODULE U64 --------------------------------
(* Unsigned 64-bit numbers as <<h, m, l>>, limbs of base 2^24 (TLC integers   *)
(* are 32 bits wide). A number is representable in a u64 iff h < 2^16; sums   *)
(* of representable numbers stay exact, so overflow is visible as ~Fits.      *)
EXTENDS Integers, Sequences, SequencesExt

Limb == 16777216

U(n)      == <<0, n \div Limb, n % Limb>>
Zero      == <<0, 0, 0>>
MaxU64    == <<65535, Limb - 1, Limb - 1>>
Fits(x)   == x[1] < 65536
Lt(x, y)  == \/ x[1] < y[1]
             \/ x[1] = y[1] /\ x[2] < y[2]
             \/ x[1] = y[1] /\ x[2] = y[2] /\ x[3] < y[3]
Le(x, y)  == ~Lt(y, x)
UMin(x, y) == IF Lt(y, x) THEN y ELSE x
UMax(x, y) == IF Lt(x, y) THEN y ELSE x
Add(x, y) == LET l == x[3] + y[3]
                 m == x[2] + y[2] + (l \div Limb)
             IN  <<x[1] + y[1] + (m \div Limb), m % Limb, l % Limb>>
(* x - y for Le(y, x) *)
Sub(x, y) == LET l == x[3] - y[3]
                 bl == IF l < 0 THEN 1 ELSE 0
                 m == x[2] - y[2] - bl
                 bm == IF m < 0 THEN 1 ELSE 0
             IN  <<x[1] - y[1] - bm, m + bm * Limb, l + bl * Limb>>
IsSmall(x) == x[1] = 0 /\ x[2] < 64
(* the value as a TLC integer, saturated at 2^30 *)
Clip(x)   == IF IsSmall(x) THEN x[2] * Limb + x[3] ELSE 1073741824

USum(s)   == FoldLeft(Add, Zero, s)
USumTo(s, n) == USum(SubSeq(s, 1, n))

IMin(a, b) == IF a < b THEN a ELSE b
IMax(a, b) == IF a < b THEN b ELSE a
=============================================================================
