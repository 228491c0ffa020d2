----------------------------- MODULE Utilities -----------------------------
(* Text, given as sequences of character codes; paths; vectors of integers.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Spaces == { 9, 10, 11, 12, 13, 32 }
IsSpace(c) == c \in Spaces
Range(s) == { s[i] : i \in 1..Len(s) }

(* Positions of the first and the last character that is no space *)
Solid(s) == { i \in 1..Len(s) : ~IsSpace(s[i]) }
Lowest(S) == CHOOSE i \in S : \A j \in S : i <= j
Highest(S) == CHOOSE i \in S : \A j \in S : i >= j
TrimLeft(s) == IF Solid(s) = {} THEN << >> ELSE SubSeq(s, Lowest(Solid(s)), Len(s))
TrimRight(s) == IF Solid(s) = {} THEN << >> ELSE SubSeq(s, 1, Highest(Solid(s)))
TrimBoth(s) == TrimLeft(TrimRight(s))

(* Words are maximal runs of characters without spaces. *)
WordEnd(s, i) == LET S == { j \in i..Len(s) : IsSpace(s[j]) } IN IF S = {} THEN Len(s) ELSE Lowest(S) - 1
RECURSIVE WordsFrom(_, _)
WordsFrom(s, i) ==
  IF i > Len(s) THEN << >>
  ELSE IF IsSpace(s[i]) THEN WordsFrom(s, i + 1)
  ELSE << SubSeq(s, i, WordEnd(s, i)) >> \o WordsFrom(s, WordEnd(s, i) + 1)
Words(s) == WordsFrom(s, 1)

(* Splitting at runs of separators: text that starts with a separator yields *)
(* an empty first field, text that ends with one yields no further field.    *)
RECURSIVE FieldsFrom(_, _, _, _)
FieldsFrom(s, i, start, Sep) ==
  IF i > Len(s) THEN (IF start > Len(s) THEN << >> ELSE << SubSeq(s, start, Len(s)) >>)
  ELSE IF s[i] \in Sep
  THEN LET S == { j \in i..Len(s) : s[j] \notin Sep }
           e == IF S = {} THEN Len(s) + 1 ELSE Lowest(S)
       IN << SubSeq(s, start, i - 1) >> \o FieldsFrom(s, e, e, Sep)
  ELSE FieldsFrom(s, i + 1, start, Sep)
Fields(s, Sep) == IF s = << >> THEN << << >> >> ELSE FieldsFrom(s, 1, 1, Sep)

(* Numerals: optional sign, digits, optionally a point and three digits at    *)
(* most.  The value is in thousandths.                                        *)
IsDigit(c) == c \in 48..57
RECURSIVE DigitsValue(_)
DigitsValue(s) == IF s = << >> THEN 0 ELSE 10 * DigitsValue(SubSeq(s, 1, Len(s) - 1)) + s[Len(s)] - 48
Unsigned(s) == IF s # << >> /\ s[1] \in {43, 45} THEN Tail(s) ELSE s
Points(s) == { i \in 1..Len(s) : s[i] = 46 }
IsNumeral(s) == LET u == Unsigned(s) IN
  /\ u # << >> /\ Range(u) \subseteq (48..57) \cup {46}
  /\ Cardinality(Points(u)) <= 1 /\ Len(u) > Cardinality(Points(u))
Thousandths(s) ==
  LET u == Unsigned(s)
      p == IF Points(u) = {} THEN Len(u) + 1 ELSE Lowest(Points(u))
      f == SubSeq(u, p + 1, Len(u))
      v == 1000 * DigitsValue(SubSeq(u, 1, p - 1)) + DigitsValue(f) * (10 ^ (3 - Len(f)))
  IN IF s[1] = 45 THEN -v ELSE v

Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
Lowered(s) == [ i \in 1..Len(s) |-> Lower(s[i]) ]
Inf == << 105, 110, 102 >>
Infinity == << 105, 110, 102, 105, 110, 105, 116, 121 >>
NaN == << 110, 97, 110 >>
PlusInfinities == { Inf, Infinity, << 43 >> \o Inf, << 43 >> \o Infinity }
MinusInfinities == { << 45 >> \o Inf, << 45 >> \o Infinity }

(* Result of converting a word: whether it succeeds, and the value *)
Converted(s, ok, v) ==
  LET t == Lowered(s) IN
  IF IsNumeral(s) THEN ok /\ v = Thousandths(s)
  ELSE IF t \in PlusInfinities THEN ok /\ v = 2000000000
  ELSE IF t \in MinusInfinities THEN ok /\ v = -2000000000
  ELSE IF t = NaN THEN ok /\ v = 2000000001
  ELSE ~ok /\ v = 0

(* Decimal numerals, padded to the width of the largest number *)
RECURSIVE Numeral(_)
Numeral(n) == IF n < 10 THEN << 48 + n >> ELSE Append(Numeral(n \div 10), 48 + (n % 10))
Padded(n, N, fill) == [ i \in 1..(Len(Numeral(N)) - Len(Numeral(n))) |-> fill ] \o Numeral(n)

(* Paths: the last component, the part before its last dot, and the rest *)
Slash == 47
Dot == 46
Components(s) == { i \in 1..Len(s) : s[i] # Slash }
BaseName(s) ==
  IF s = << >> THEN << >>
  ELSE IF Components(s) = {} THEN << Slash >>
  ELSE LET e == Highest(Components(s))
           B == { i \in 1..e : s[i] = Slash }
       IN SubSeq(s, IF B = {} THEN 1 ELSE Highest(B) + 1, e)
Special(f) == f \in { << Dot >>, << Dot, Dot >> } \/ Dot \notin Range(f)
LastDot(f) == Highest({ i \in 1..Len(f) : f[i] = Dot })
Stem(s) == LET f == BaseName(s) IN IF Special(f) THEN f ELSE SubSeq(f, 1, LastDot(f) - 1)
Extension(s) == LET f == BaseName(s) IN IF Special(f) THEN << >> ELSE SubSeq(f, LastDot(f), Len(f))

(* Vectors *)
VectorSum(a, b) == [ i \in 1..Len(a) |-> a[i] + b[i] ]
VectorDifference(a, b) == [ i \in 1..Len(a) |-> a[i] - b[i] ]
Multiple(f, a) == [ i \in 1..Len(a) |-> f * a[i] ]
Magnitude(i) == IF i < 0 THEN -i ELSE i
(* Relative tolerance r / 16, absolute tolerance t / 16 *)
Close(a, b, r, t) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : 16 * Magnitude(a[i] - b[i]) <= t + r * Magnitude(b[i])
=============================================================================
