----------------------------- MODULE MC_Samples -----------------------------
(* Angles in steps of a twelfth of a half turn                                *)
EXTENDS Samples, CSV, Json, IOUtils

CONSTANTS Radii
VARIABLES theta, phi, r
vars == << theta, phi, r >>
Init == theta \in 0..23 /\ phi \in 0..12 /\ r \in Radii
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Short(p) == [ i \in 1..3 |-> (p[i] + 5) \div 10 ]
Length2(p) == Plus([ i \in 1..3 |-> Square(Short(p)[i]) ])
OnSphere == Abs(Length2(SpherePoint(theta, phi, r, << 0, 0, 0 >>)) - Square(1000 * r)) <= 6000 * r
(* x^2 + y^2 = (R + r cos theta)^2 *)
OnTorus == LET p == Short(TorusPoint(theta, phi, 3, r)) IN
  Abs(Square(p[1]) + Square(p[2]) - Square(3000 + (r * Cos(theta)) \div 10)) <= 20000
Antipodal == SpherePoint(theta + 12, 12 - phi, r, << 0, 0, 0 >>)[3] = -SpherePoint(theta, phi, r, << 0, 0, 0 >>)[3]
Export == CSVWrite("%1$s", <<ToJson(<<theta, phi, r>>)>>, IOEnv.EXPORT)
=============================================================================
