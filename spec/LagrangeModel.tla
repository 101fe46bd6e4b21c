----------------------------- MODULE LagrangeModel -----------------------------
(* The definition of LagrangeFE has the properties of a Lagrangian element: one *)
(* state per element and lattice point.                                          *)
EXTENDS LagrangeFE
VARIABLES ref, p, x
vars == <<ref, p, x>>
Init == /\ ref \in Refs /\ p \in 1..3 /\ x \in Inside(ref)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Nodes == AllNodes(ref, p)
Unity == Sum(Nodes, LAMBDA nd : Phi(ref, p, nd, x)) = Scale(ref, p)
Delta == x \in Nodes => \A nd \in Nodes : Phi(ref, p, nd, x) = IF nd = x THEN Scale(ref, p) ELSE 0
\* reproduces monomials of degree p (for quadrilaterals: tensor product)
Repro == ref # "quad" =>
  \A r \in 0..p : \A s \in 0..(IF ref = "seg" THEN 0 ELSE p - r) :
    LET Y(nd) == IF ref = "seg" THEN 0 ELSE nd[2]
        val(nd) == Pow((nd[1] * p) \div 12, r) * Pow((Y(nd) * p) \div 12, s)
    IN Pow(12, r + s) * Sum(Nodes, LAMBDA nd : val(nd) * Phi(ref, p, nd, x)) = Pow(p * x[1], r) * Pow(p * Y(x), s) * D(p)
\* gradients of the sum of all functions vanish
GradUnity == \A k \in 1..Dim(ref) : Sum(Nodes, LAMBDA nd : DPhi(ref, p, nd, x, k)) = 0
\* restriction to a side is the element of the segment in the order of the side
Trace == \A k \in 1..NSides(ref) : \A s \in 0..12 : x = OnSide(ref, k, s) =>
  \A nd \in Nodes : LET on == {m \in 0..p : OnSide(ref, k, (12 * m) \div p) = nd}
                    IN Phi(ref, p, nd, x) * D(p) = IF on = {} THEN 0 ELSE SegFn(p, CHOOSE m \in on : TRUE, s) * Scale(ref, p)
Ordered == NodesOK(ref, p, OuterNodes(ref, p) \o
             (LET RECURSIVE L(_)
                 L(S) == IF S = {} THEN <<>> ELSE LET y == CHOOSE y \in S : TRUE IN <<y>> \o L(S \ {y}) IN L(InnerNodes(ref, p))))
===============================================================================
