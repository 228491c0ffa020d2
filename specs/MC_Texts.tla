------------------------------- MODULE MC_Texts -------------------------------
(* Somebody writes values and adds comments and blank lines anywhere.        *)
EXTENDS Texts, CSV, Json, IOUtils

CONSTANTS Points, MaxLines
QuickPoints == { << 0, 100 >>, << -250, 2000000000 >> }

VARIABLES values, doc, newline
vars == << values, doc, newline >>

Init == values = << >> /\ doc = << >> /\ newline = TRUE
WriteValue(x) == values' = Append(values, x) /\ doc' = Append(doc, [ k |-> "v", x |-> x ]) /\ UNCHANGED newline
Insert(k) == \E i \in 0..Len(doc) :
  /\ doc' = SubSeq(doc, 1, i) \o << [ k |-> k, x |-> << >> ] >> \o SubSeq(doc, i + 1, Len(doc))
  /\ UNCHANGED << values, newline >>
Cut == doc # << >> /\ newline' = FALSE /\ UNCHANGED << values, doc >>
Next == newline /\ (Cut \/ (Len(doc) < MaxLines /\ (\/ \E x \in Points : WriteValue(x) \/ Insert("c") \/ Insert("b"))))
Spec == Init /\ [][Next]_vars

RoundTrip == ReadFrom(doc, 1, << >>) = values /\ Values(doc) = values
WrittenOnly == ReadFrom(Written(values), 1, << >>) = values
BagLaws == /\ SameBag(values, values)
           /\ values # << >> => ~SameBag(values, Tail(values))
           /\ SameBag(values, [ i \in 1..Len(values) |-> values[Len(values) + 1 - i] ])
Export == CSVWrite("%1$s", <<ToJson([ doc |-> doc, newline |-> newline ])>>, IOEnv.EXPORT)
=============================================================================
