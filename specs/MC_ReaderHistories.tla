------------------------- MODULE MC_ReaderHistories -------------------------
(* A reader that reads several edge lists with names one after the other.   *)
(* The implementation's memory is the map from names to numbers; Forget     *)
(* says whether it is cleared for a new file.  What is read has to be what  *)
(* the file describes, whatever was read before; the model shows that this  *)
(* holds for all histories if and only if the memory is cleared.            *)
EXTENDS Readers, CSV, Json, IOUtils

CONSTANTS Names, MaxLines, MaxReads, Forget

Two == { << 97 >>, << 98 >> }
Three == { << 97 >>, << 98 >>, << 99 >> }

VARIABLES history, memory, last

Lines == UNION { [ 1..k -> { p \in Names \X Names : p[1] # p[2] } ] : k \in 1..MaxLines }
Line(p) == [ k |-> "e", u |-> p[1], v |-> p[2], hw |-> FALSE, w |-> 0 ]
Doc(L) == [ weights |-> FALSE, lines |-> [ i \in 1..Len(L) |-> Line(L[i]) ] ]

(* Reading: names unknown to the memory get the next number, counting from  *)
(* zero for every file.                                                     *)
RECURSIVE Number(_, _, _, _)
Number(S, k, m, next) ==
  IF k > Len(S) THEN m
  ELSE IF S[k] \in DOMAIN m THEN Number(S, k + 1, m, next)
  ELSE Number(S, k + 1, (S[k] :> next) @@ m, next + 1)

Read(L) ==
  LET m == Number(EndPoints(Doc(L).lines, Len(L)), 1, IF Forget THEN << >> ELSE memory, 0) IN
  /\ memory' = m
  /\ last' = { { m[L[i][1]], m[L[i][2]] } : i \in 1..Len(L) }
  /\ history' = Append(history, L)

Init == history = << >> /\ memory = << >> /\ last = {}
Next == Len(history) < MaxReads /\ \E L \in Lines : Read(L)
Spec == Init /\ [][Next]_<< history, memory, last >>

ReadsWhatIsWritten ==
  history # << >> =>
    LET C == EdgeListComplex(Doc(history[Len(history)])) IN
    last = { s \in DOMAIN C : Cardinality(s) = 2 }

Export == Len(history) = MaxReads => CSVWrite("%1$s", <<ToJson(history)>>, IOEnv.EXPORT)
=============================================================================
