-------------------------------- MODULE Big --------------------------------
(* Natural numbers of any size: sequences of digits to the base 10000, the   *)
(* least significant one first, without leading zeros.                       *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC

LOCAL Base == 10000

RECURSIVE ToBig(_)
ToBig(n) == IF n = 0 THEN << >> ELSE << n % Base >> \o ToBig(n \div Base)

LOCAL Digit(a, i) == IF i \in 1..Len(a) THEN a[i] ELSE 0

RECURSIVE BigAddFrom(_, _, _, _)
BigAddFrom(a, b, i, carry) ==
  IF i > Len(a) /\ i > Len(b) THEN ToBig(carry)
  ELSE LET s == Digit(a, i) + Digit(b, i) + carry
       IN << s % Base >> \o BigAddFrom(a, b, i + 1, s \div Base)
BigAdd(a, b) == BigAddFrom(a, b, 1, 0)

RECURSIVE BigScaleFrom(_, _, _, _)
BigScaleFrom(a, d, i, carry) ==
  IF i > Len(a) THEN ToBig(carry)
  ELSE LET s == a[i] * d + carry IN << s % Base >> \o BigScaleFrom(a, d, i + 1, s \div Base)

RECURSIVE BigMulFrom(_, _, _)
BigMulFrom(a, b, i) ==
  IF i > Len(b) THEN << >>
  ELSE LET rest == TLCEval(BigMulFrom(a, b, i + 1))
           here == IF b[i] = 0 THEN << >> ELSE BigScaleFrom(a, b[i], 1, 0)
       IN BigAdd(here, IF rest = << >> THEN << >> ELSE << 0 >> \o rest)
BigMul(a, b) == IF a = << >> \/ b = << >> THEN << >> ELSE TLCEval(BigMulFrom(a, b, 1))

RECURSIVE BigLeqFrom(_, _, _)
BigLeqFrom(a, b, i) ==
  IF i = 0 THEN TRUE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE BigLeqFrom(a, b, i - 1)
BigLeq(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE BigLeqFrom(a, b, Len(a))

(* Product of a sequence of (small) natural numbers *)
RECURSIVE BigProduct(_)
BigProduct(s) == IF s = << >> THEN << 1 >> ELSE BigMul(ToBig(s[1]), BigProduct(Tail(s)))
=============================================================================
