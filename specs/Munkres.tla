------------------------------- MODULE Munkres -------------------------------
(* The assignment algorithm as a state machine: starred zeros form a partial *)
(* assignment that grows along alternating paths of primed and starred zeros.*)
EXTENDS Matching, CSV, Json, IOUtils

CONSTANTS N, Values

VARIABLES C, M, stars, primes, rows, cols, pc

state == <<C, M, stars, primes, rows, cols, pc>>
Ix == 1..N

Lex(a, b) == \E k \in Ix : a[k] < b[k] /\ \A l \in 1..k-1 : a[l] = b[l]
Init == /\ C \in [Ix -> [Ix -> Values]]
        /\ \A i \in 1..N-1 : ~Lex(C[i+1], C[i])        \* up to exchanging rows
        /\ M = [i \in Ix |-> [j \in Ix |-> C[i][j] - Min({C[i][k] : k \in Ix})]]
        /\ stars = {} /\ primes = {} /\ rows = {} /\ cols = {} /\ pc = "star"

Star == /\ pc = "star"
        /\ LET free == {z \in Ix \X Ix : M[z[1]][z[2]] = 0 /\ \A s \in stars : s[1] # z[1] /\ s[2] # z[2]} IN
           IF free = {} THEN pc' = "cover" /\ UNCHANGED stars
           ELSE \E z \in free : stars' = stars \cup {z} /\ UNCHANGED pc
        /\ UNCHANGED <<C, M, primes, rows, cols>>
Cover == /\ pc = "cover"
         /\ cols' = {s[2] : s \in stars}
         /\ pc' = IF Cardinality(stars) = N THEN "done" ELSE "prime"
         /\ UNCHANGED <<C, M, stars, primes, rows>>
Uncovered == (Ix \ rows) \X (Ix \ cols)

(* Alternating path starting at primed zero z: star in its column, prime in  *)
(* the row of that star, and so on.                                          *)
RECURSIVE Path(_, _)
Path(z, P) ==
  LET s == {t \in stars : t[2] = z[2]} IN
  IF s = {} THEN {z}
  ELSE LET t == CHOOSE x \in s : TRUE
           q == CHOOSE x \in P : x[1] = t[1]
       IN {z, t} \cup Path(q, P)

Prime ==
  /\ pc = "prime"
  /\ \E z \in {u \in Uncovered : M[u[1]][u[2]] = 0} :
       LET s == {t \in stars : t[1] = z[1]} IN
       IF s # {}
       THEN /\ primes' = primes \cup {z}
            /\ rows' = rows \cup {z[1]}
            /\ cols' = cols \ {t[2] : t \in s}
            /\ UNCHANGED <<stars, pc>>
       ELSE LET W == Path(z, primes \cup {z}) IN
            /\ stars' = (stars \ W) \cup (W \ stars)
            /\ primes' = {} /\ rows' = {} /\ cols' = {} /\ pc' = "cover"
  /\ UNCHANGED <<C, M>>
Adjust ==
  /\ pc = "prime"
  /\ \A u \in Uncovered : M[u[1]][u[2]] # 0
  /\ LET v == Min({M[u[1]][u[2]] : u \in Uncovered}) IN
     M' = [i \in Ix |-> [j \in Ix |-> M[i][j] + (IF i \in rows THEN v ELSE 0) - (IF j \in cols THEN 0 ELSE v)]]
  /\ UNCHANGED <<C, stars, primes, rows, cols, pc>>
Next == Star \/ Cover \/ Prime \/ Adjust
Spec == Init /\ [][Next]_state /\ WF_state(Next)

NonNegative == \A i, j \in Ix : M[i][j] >= 0
Equivalent == \A i, j, k, l \in Ix : M[i][j] + M[k][l] - M[i][l] - M[k][j] = C[i][j] + C[k][l] - C[i][l] - C[k][j]
Independent == /\ \A s, t \in stars : s # t => s[1] # t[1] /\ s[2] # t[2]
               /\ \A s \in stars : M[s[1]][s[2]] = 0
CostOf(S) == MapThenSumSet(LAMBDA s : C[s[1]][s[2]], S)
AllPermutations == {f \in [Ix -> Ix] : \A i, j \in Ix : i # j => f[i] # f[j]}
Optimal == pc = "done" =>
  /\ CostOf(stars) = MinAssignment(C)
  /\ CostOf(stars) = Min({CostOf({<<i, f[i]>> : i \in Ix}) : f \in AllPermutations})
Terminates == <>(pc = "done")

Export == pc = "star" /\ stars = {} => CSVWrite("%1$s", <<ToJson(C)>>, IOEnv.EXPORT)
=============================================================================
