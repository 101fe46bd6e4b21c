----------------------------- MODULE Product_Trace -----------------------------
(* state: mesh, sp: id -> component numberings and kinds of a product space      *)
EXTENDS ProductSpace, TraceBase
VARIABLES l, mesh, sp
vars == <<l, mesh, sp>>
E == Trace[l]
NoMesh == [pts |-> <<>>, edges |-> <<>>, cells |-> <<>>]
Init == l = 1 /\ mesh = NoMesh /\ sp = <<>>
Comps(lays) == [c \in 1..Len(lays) |-> Table(mesh, Layout(mesh, lays[c]), TRUE)]
Lays(cs) == [c \in 1..Len(cs) |-> FacLay(cs[c][1], cs[c][2])]

\* sum over the entities of codimension k1-1 of what they contribute to entry (r, c)
GlobM(ps, Te, Tr, k1) ==
  LET Pe == ProdTable(mesh, Te)
      Pr == ProdTable(mesh, Tr)
      F == [i \in 1..NumEnt(mesh, k1 - 1) |-> ElMat(ps, Te, Tr, k1, i)]
      Pos(s, x) == {j \in 1..Len(s) : s[j] = x}
  IN [r \in 1..Pe.n |-> [c \in 1..Pr.n |->
       SumOf([i \in 1..Len(F) |->
         LET A == Pos(Pe.g[k1][i], r - 1)
             B == Pos(Pr.g[k1][i], c - 1)
         IN IF A = {} \/ B = {} THEN 0 ELSE F[i][CHOOSE a \in A : TRUE][CHOOSE b \in B : TRUE]])]]
Step ==
  \/ E.e = "reset" /\ mesh' = NoMesh /\ sp' = <<>>
  \/ E.e = "mesh" /\ mesh' = [pts |-> E.pts, edges |-> E.edges, cells |-> E.cells] /\ sp' = <<>>
  \/ /\ E.e = "pdof"
     /\ LET T == Comps(E.lays) IN Holds(ProdOK(mesh, T, E)) /\ UNCHANGED sp
     /\ UNCHANGED mesh
  \/ /\ E.e = "space"
     /\ LET T == Comps(Lays(E.cs))
        IN /\ Holds(ProdOK(mesh, T, E))
           /\ Holds(E.nsf = [c \in 1..Len(E.cs) |-> FacLay(E.cs[c][1], E.cs[c][2])])
           /\ Holds(E.has = [c \in 1..Len(E.cs) |-> FacHas(E.cs[c][1])])
           /\ Holds(E.sane)
           /\ Holds(E.added = [c \in 1..Len(E.cs) |-> c - 1])
           /\ Holds(E.after = 0)
           /\ sp' = (E.id :> [t |-> T, cs |-> E.cs]) @@ sp
     /\ UNCHANGED mesh
  \/ /\ E.e = "cspace"   \* space of a single component
     /\ Holds(DofsOK(mesh, sp[E.id].t[E.c + 1], E))
     /\ Holds(E.nsf = FacLay(sp[E.id].cs[E.c + 1][1], sp[E.id].cs[E.c + 1][2]))
     /\ Holds(E.has = FacHas(sp[E.id].cs[E.c + 1][1]) /\ E.same)
     /\ UNCHANGED <<mesh, sp>>
  \/ /\ E.e = "uspace"
     /\ Holds(E.ok = UsAllowed(mesh, E.k, E.mask))
     /\ E.ok => LET y == UsLay(E.k, E.p, E.mask)
                IN Holds(E.nsf = y /\ E.has = UsHas(E.k, E.mask) /\ E.same /\ DofsOK(mesh, Table(mesh, Layout(mesh, y), TRUE), E))
     /\ UNCHANGED <<mesh, sp>>
  \/ /\ E.e = "pmat"
     /\ \A i \in 1..NumEnt(mesh, E.k) : Holds(E.el[i] = ElMat(E.ps, sp[E.te].t, sp[E.tr].t, E.k + 1, i))
     /\ Holds(E.d = GlobM(E.ps, sp[E.te].t, sp[E.tr].t, E.k + 1))
     /\ UNCHANGED <<mesh, sp>>
  \/ /\ E.e = "pvec"
     /\ \A i \in 1..NumEnt(mesh, E.k) : Holds(E.el[i] = ElVec(E.ps, sp[E.te].t, E.k + 1, i))
     /\ UNCHANGED <<mesh, sp>>
  \/ /\ E.e = "badcomp" /\ Holds(~E.ok) /\ UNCHANGED <<mesh, sp>>
Next == l <= N /\ l' = l + 1 /\ Step
Spec == Init /\ [][Next]_vars
===============================================================================
