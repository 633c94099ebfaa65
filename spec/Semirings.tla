----------------------------- MODULE Semirings -----------------------------
(***************************************************************************)
(* The weight algebras used by the specification, encoded over TLC's      *)
(* 32-bit integers.                                                        *)
(*                                                                         *)
(*   "trop"  tropical semiring (min,+); a weight w is the integer 64*w,    *)
(*           the additive zero (+infinity) is TINF.                        *)
(*   "int"   natural numbers (+,x), exact multiplicities.                  *)
(*   "bool"  {0,1} (or,and).                                               *)
(*   "real"  non-negative reals (+,x) in fixed point, scale RS = 2^20.     *)
(*           Probability weights p and log weights -ln p are both mapped   *)
(*           to p; equality is up to a tolerance.                          *)
(*                                                                         *)
(* UNDEF marks a sum that does not converge (or leaves the encodable      *)
(* range); contracts make no claim about undefined values.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

TINF  == 1000000000
UNDEF == -1999999999
RK    == 1024
RS    == 1048576          \* RK * RK

Zero(sr) == IF sr = "trop" THEN TINF ELSE 0
One(sr)  == CASE sr = "trop" -> 0 [] sr = "real" -> RS [] OTHER -> 1

MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a < b THEN b ELSE a
AbsI(a) == IF a < 0 THEN -a ELSE a

Add(sr, a, b) ==
  IF a = UNDEF \/ b = UNDEF THEN UNDEF
  ELSE CASE sr = "trop" -> MinI(a, b)
         [] sr = "bool" -> MaxI(a, b)
         [] OTHER       -> IF a > TINF \/ b > TINF THEN UNDEF ELSE a + b

RMul(a, b) ==
  LET ah == a \div RK  al == a % RK  bh == b \div RK  bl == b % RK
  IN  IF ah > 30000 \/ bh > 30000 THEN UNDEF
      ELSE ah * bh + (ah * bl + al * bh) \div RK + ((al * bl) \div RK) \div RK

Mul(sr, a, b) ==
  IF a = Zero(sr) \/ b = Zero(sr) THEN Zero(sr)
  ELSE IF a = UNDEF \/ b = UNDEF THEN UNDEF
  ELSE CASE sr = "trop" -> a + b
         [] sr = "bool" -> MinI(a, b)
         [] sr = "int"  -> IF a > 30000 \/ b > 30000 THEN UNDEF ELSE a * b
         [] sr = "real" -> RMul(a, b)

\* 1/(1-a) in fixed point
RInv1(a) == LET d == RS - a
                q == (RS * RK) \div d
                r == (RS * RK) % d
            IN  q * RK + (r * RK) \div d

Star(sr, a) ==
  IF a = UNDEF THEN UNDEF
  ELSE CASE sr = "trop" -> IF a >= 0 THEN 0 ELSE UNDEF
         [] sr = "bool" -> 1
         [] sr = "int"  -> IF a = 0 THEN 1 ELSE UNDEF
         [] sr = "real" -> IF a < (RS \div 32) * 31 THEN RInv1(a) ELSE UNDEF

\* Equality of two weights as far as the encoding can tell.
WEq(sr, a, b) ==
  \/ a = b
  \/ a = UNDEF \/ b = UNDEF
  \/ sr = "real" /\ AbsI(a - b) <= 64 + MaxI(a, b) \div 512

\* Strict order of the natural order of "trop" (smaller is better).
Idempotent(sr) == sr \in {"trop", "bool"}

RECURSIVE SumSeq(_, _)
SumSeq(sr, ws) == IF ws = <<>> THEN Zero(sr)
                  ELSE Add(sr, Head(ws), SumSeq(sr, Tail(ws)))
=============================================================================
