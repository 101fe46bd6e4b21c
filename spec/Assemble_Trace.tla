--------------------------- MODULE Assemble_Trace ----------------------------
(* Dof handlers, assembly, triplet matrices and fixed components.               *)
(* state: mesh, dh: id -> numbering, mats/vecs: id -> assembled object,          *)
(*        coo: id -> matrix                                                      *)
EXTENDS DofHandler, TripletMatrix, TraceBase
VARIABLES l, mesh, dh, mats, vecs, coo
vars == <<l, mesh, dh, mats, vecs, coo>>
E == Trace[l]
NoMesh == [pts |-> <<>>, edges |-> <<>>, cells |-> <<>>]
Init == l = 1 /\ mesh = NoMesh /\ dh = <<>> /\ mats = <<>> /\ vecs = <<>> /\ coo = <<>>

Counts(e) == IF e.kind = "u" THEN Layout(mesh, e.lay) ELSE e.req
ChkOf(e) == IF e.kind = "u" THEN e.chk ELSE TRUE

\* synthetic local contributions, as the driver's providers deliver them
Ev(s, en, i, j) == ((7 * en + 3 * i + 5 * j + i * j * (en + 1) + s) % 11) - 5
Active(e, i) == e.act[(i % Len(e.act)) + 1] # 0
Ents(e) == 0..(NumEnt(mesh, e.k) - 1)

\* contributions to row r (1-based global index gr) of the assembled matrix
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(f, S \ {x})

\* local contributions of entity i as set of <<row, col, value, tag>>
LocM(e, i) ==
  LET rows == dh[e.te].g[e.k + 1][i + 1]
      cols == dh[e.tr].g[e.k + 1][i + 1]
  IN [a \in 1..Len(rows), b \in 1..Len(cols) |-> <<rows[a], cols[b], Ev(e.s, i, a - 1, b - 1)>>]

RECURSIVE AddAll(_, _, _)
AddAll(M, F, D) ==
  IF D = {} THEN M
  ELSE LET x == CHOOSE y \in D : TRUE
           t == F[x]
       IN AddAll([M EXCEPT !.d[t[1] + 1][t[2] + 1] = CAdd(@, <<t[3], 0>>)], F, D \ {x})
RECURSIVE AsmM(_, _, _)
AsmM(M, e, S) ==
  IF S = {} THEN M
  ELSE LET i == CHOOSE y \in S : TRUE
           F == LocM(e, i)
       IN AsmM(AddAll(M, F, DOMAIN F), e, S \ {i})
RECURSIVE AddV(_, _, _, _, _)
AddV(v, rows, s, i, a) ==
  IF a = 0 THEN v
  ELSE AddV([v EXCEPT ![rows[a] + 1] = CAdd(@, <<Ev(s, i, a - 1, 0), 0>>)], rows, s, i, a - 1)
RECURSIVE AsmV(_, _, _)
AsmV(v, e, S) ==
  IF S = {} THEN v
  ELSE LET i == CHOOSE y \in S : TRUE
           rows == dh[e.te].g[e.k + 1][i + 1]
       IN AsmV(AddV(v, rows, e.s, i, Len(rows)), e, S \ {i})

ActiveSet(e) == {i \in Ents(e) : Active(e, i)}
EvalOK(e) == {e.ev[i] : i \in 1..Len(e.ev)} \subseteq ActiveSet(e)
MatStart(e) == IF e.kind = "add" THEN mats[e.id] ELSE NewM(dh[e.te].n, dh[e.tr].n)
VecStart(e) == IF e.kind = "add" THEN vecs[e.id] ELSE [i \in 1..dh[e.te].n |-> Zero]
SameM(M, e) == e.rows = M.r /\ e.cols = M.c /\ e.d = M.d

Keep == UNCHANGED <<mesh, dh, mats, vecs>>
Step ==
  \/ E.e = "reset" /\ mesh' = NoMesh /\ dh' = <<>> /\ mats' = <<>> /\ vecs' = <<>> /\ coo' = <<>>
  \/ /\ E.e = "mesh"
     /\ mesh' = [pts |-> E.pts, edges |-> E.edges, cells |-> E.cells]
     /\ dh' = <<>> /\ mats' = <<>> /\ vecs' = <<>> /\ UNCHANGED coo
  \/ /\ E.e = "dof"
     /\ LET T == Table(mesh, Counts(E), ChkOf(E))
        IN Holds(DofsOK(mesh, T, E)) /\ dh' = (E.id :> T) @@ dh
     /\ UNCHANGED <<mesh, mats, vecs, coo>>
  \/ /\ E.e = "mat"
     /\ LET M == AsmM(MatStart(E), E, ActiveSet(E))
        IN Holds(SameM(M, E)) /\ Holds(EvalOK(E)) /\ mats' = (E.id :> M) @@ mats
     /\ UNCHANGED <<mesh, dh, vecs, coo>>
  \/ /\ E.e = "vec"
     /\ LET v == AsmV(VecStart(E), E, ActiveSet(E))
        IN Holds(E.d = v) /\ Holds(EvalOK(E)) /\ vecs' = (E.id :> v) @@ vecs
     /\ UNCHANGED <<mesh, dh, mats, coo>>
  \/ E.e = "cnew" /\ coo' = (E.id :> NewM(E.r, E.c)) @@ coo /\ Keep
  \/ E.e = "cadd" /\ coo' = [coo EXCEPT ![E.id] = Add(@, E.i, E.j, E.v)] /\ Keep
  \/ E.e = "czero" /\ coo' = [coo EXCEPT ![E.id] = Clear(@)] /\ Keep
  \/ E.e = "czerop" /\ coo' = [coo EXCEPT ![E.id] = ClearIf(@, E.p, E.r, E.c)] /\ Keep
  \/ E.e = "ccopy" /\ coo' = (E.to :> coo[E.id]) @@ coo /\ Keep
  \/ E.e = "cmul" /\ Holds(E.r = MulV(coo[E.id], E.al, E.x)) /\ UNCHANGED coo /\ Keep
  \/ /\ E.e = "cmul2"
     /\ Holds(E.r = MulAdd(coo[E.id], E.al, E.x, E.y)) /\ Holds(E.sr = E.r)
     /\ UNCHANGED coo /\ Keep
  \/ /\ E.e = "cget"
     /\ Holds(SameM(coo[E.id], E)) /\ Holds(E.s = E.d) /\ E.print
     /\ UNCHANGED coo /\ Keep
  \/ /\ E.e = "cfix"
     /\ LET M == coo[E.id]
            R == IF E.kind = "flag" THEN FixM(M, E.fl) ELSE AltM(M, E.fl)
            B == IF E.kind = "flag" THEN FixB(M, E.fl, E.v, E.b) ELSE AltB(M, E.fl, E.v, E.b)
        IN Holds(SameM(R, E)) /\ Holds(E.rb = B) /\ coo' = [coo EXCEPT ![E.id] = R]
     /\ Keep
Next == l <= N /\ l' = l + 1 /\ Step
Spec == Init /\ [][Next]_vars
===============================================================================
