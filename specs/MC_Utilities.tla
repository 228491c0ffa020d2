---------------------------- MODULE MC_Utilities ----------------------------
(* Text grows by one character per step.                                      *)
EXTENDS Utilities, CSV, Json, IOUtils

CONSTANTS Alphabet, MaxLength

VARIABLE s
Init == s = << >>
Next == Len(s) < MaxLength /\ \E c \in Alphabet : s' = Append(s, c)
Spec == Init /\ [][Next]_s

RECURSIVE Concatenate(_)
Concatenate(t) == IF t = << >> THEN << >> ELSE t[1] \o Concatenate(Tail(t))
TrimLaws ==
  /\ TrimLeft(TrimLeft(s)) = TrimLeft(s) /\ TrimRight(TrimRight(s)) = TrimRight(s)
  /\ TrimLeft(TrimRight(s)) = TrimRight(TrimLeft(s))
  /\ Words(TrimBoth(s)) = Words(s)
WordLaws ==
  /\ Concatenate(Words(s)) = SelectSeq(s, LAMBDA c : ~IsSpace(c))
  /\ \A i \in 1..Len(Words(s)) : Words(s)[i] # << >> /\ Solid(Words(s)[i]) = 1..Len(Words(s)[i])
FieldLaws ==
  /\ Concatenate(Fields(s, Spaces)) = SelectSeq(s, LAMBDA c : ~IsSpace(c))
  /\ SelectSeq(Fields(s, Spaces), LAMBDA f : f # << >>) = Words(s)
  /\ (Solid(s) # {} => Fields(TrimBoth(s), Spaces) = Words(s))
PathLaws ==
  /\ Stem(s) \o Extension(s) = BaseName(s)
  /\ BaseName(BaseName(s)) = BaseName(s)
  /\ (BaseName(s) # << Slash >> => Slash \notin Range(BaseName(s)))
  /\ (s # << >> /\ s[Len(s)] # Slash => BaseName(Append(s, Slash)) = BaseName(s))
  /\ BaseName(<< 97, Slash >> \o << 98 >> \o s) = IF Slash \in Range(s) THEN BaseName(<< 98 >> \o s) ELSE << 98 >> \o s
NumeralLaws == \A n \in {0, 7, 10, 99, 100, 1000, 12345} :
  /\ DigitsValue(Numeral(n)) = n
  /\ IsNumeral(Numeral(n)) /\ Thousandths(Numeral(n)) = 1000 * n
  /\ Len(Padded(n, 12345, 48)) = 5 /\ DigitsValue(Padded(n, 12345, 48)) = n
Export == CSVWrite("%1$s", <<ToJson(s)>>, IOEnv.EXPORT)
=============================================================================
