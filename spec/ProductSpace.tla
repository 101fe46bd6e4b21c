----------------------------- MODULE ProductSpace ------------------------------
(* Product spaces: the dofs of the components are numbered one component after  *)
(* the other. A component is described by its numbering T (DofHandler.tla).     *)
EXTENDS DofHandler

Offs(T) == Prefix([c \in 1..Len(T) |-> T[c].n])
\* local and own dofs of entity i1 of codimension k1-1
PLocal(T, off, k1, i1) == Cat([c \in 1..Len(T) |-> [j \in 1..Len(T[c].g[k1][i1]) |-> T[c].g[k1][i1][j] + off[c]]])
POwn(T, off, k1, i1) == Cat([c \in 1..Len(T) |-> [j \in 1..Len(T[c].in[k1][i1]) |-> T[c].in[k1][i1][j] + off[c]]])
\* position of the first local dof of each component
PStart(T, k1, i1) == Prefix([c \in 1..Len(T) |-> Len(T[c].g[k1][i1])])

ProdTable(m, T) ==
  LET off == Offs(T)
  IN [n |-> Last(off),
      g |-> [k1 \in 1..3 |-> [i1 \in 1..NumEnt(m, k1 - 1) |-> PLocal(T, off, k1, i1)]],
      in |-> [k1 \in 1..3 |-> [i1 \in 1..NumEnt(m, k1 - 1) |-> POwn(T, off, k1, i1)]]]

\* the component a dof belongs to (0-based)
CompOf(off, d) == (CHOOSE c \in 1..(Len(off) - 1) : off[c] <= d /\ d < off[c + 1]) - 1

\* layouts <<point, segment, tria, quad>> of the components of a factory:
\* h continuous, l discontinuous on cells, f discontinuous on edges, t traces
FacLay(kind, p) ==
  CASE kind = "h" -> <<1, p - 1, ((p - 1) * (p - 2)) \div 2, (p - 1) * (p - 1)>>
    [] kind = "l" -> <<0, 0, ((p + 1) * (p + 2)) \div 2, (p + 1) * (p + 1)>>
    [] kind = "f" -> <<0, p + 1, 0, 0>>
    [] kind = "t" -> <<1, p - 1, 0, 0>>
\* element types for which shape functions are given <<point, segment, tria, quad>>
FacHas(kind) ==
  CASE kind = "h" -> <<FALSE, TRUE, TRUE, TRUE>>
    [] kind = "l" -> <<FALSE, FALSE, TRUE, TRUE>>
    [] kind = "f" -> <<FALSE, TRUE, FALSE, FALSE>>
    [] kind = "t" -> <<FALSE, TRUE, TRUE, TRUE>>

\* a space for which only some of the specifications are given (bits of mask: 1
\* triangles, 2 quadrilaterals, 4 edges); it numbers what these talk about
Bit(mask, b) == (mask \div b) % 2 = 1
UsHas(kind, mask) == <<FALSE, Bit(mask, 4) /\ FacHas(kind)[2], Bit(mask, 1) /\ FacHas(kind)[3], Bit(mask, 2) /\ FacHas(kind)[4]>>
UsLay(kind, p, mask) ==
  LET h == UsHas(kind, mask) l == FacLay(kind, p) any == h[2] \/ h[3] \/ h[4]
  IN <<IF any THEN l[1] ELSE 0, IF any THEN l[2] ELSE 0, IF h[3] THEN l[3] ELSE 0, IF h[4] THEN l[4] ELSE 0>>
\* a space of functions on cells needs a specification for every type of cell
UsAllowed(m, kind, mask) ==
  LET h == UsHas(kind, mask)
      Needs(n) == \E c \in 1..Len(m.cells) : Len(m.cells[c].v) = n
  IN IF h[3] \/ h[4] THEN (Needs(3) => h[3]) /\ (Needs(4) => h[4]) ELSE h[2]

\* answers e of a product dof handler of mesh m with component numberings T
ProdOK(m, T, e) ==
  LET P == ProdTable(m, T)
      off == Offs(T)
      nc == Len(T)
  IN /\ DofsOK(m, P, e)
     /\ e.nc = nc /\ e.off = off
     /\ e.cn = [c \in 1..nc |-> T[c].n]
     /\ Len(e.comp) = P.n
     /\ \A d \in 1..P.n : e.comp[d] = CompOf(off, d - 1)
     /\ Len(e.cnl) = nc /\ Len(e.cni) = nc /\ Len(e.st) = nc
     /\ \A c \in 1..nc : \A k1 \in 1..3 : \A i \in 1..NumEnt(m, k1 - 1) :
          /\ e.cnl[c][k1][i] = Len(T[c].g[k1][i])
          /\ e.cni[c][k1][i] = Len(T[c].in[k1][i])
          /\ e.st[c][k1][i] = PStart(T, k1, i)[c]
     \* the handlers of the components
     /\ \A c \in 1..nc : DofsOK(m, T[c], e.ch[c])

\* contributions: local matrices / vectors of pairs of components; a provider
\* p has the components p.tr, p.te (0-based), a seed and an activity pattern
Term(s, i, a, b) == ((7 * i + 3 * a + 5 * b + a * b * (i + 1) + s) % 11) - 5
Act(p, i) == p.act[(i % Len(p.act)) + 1] # 0
SumOf(f) == LET RECURSIVE S(_)
                S(i) == IF i = 0 THEN 0 ELSE S(i - 1) + f[i]
            IN S(Len(f))
CompAt(st, a) == (CHOOSE c \in 1..(Len(st) - 1) : st[c] <= a /\ a < st[c + 1])
\* entry in row a, column b (0-based) of the element matrix
BlockEntry(ps, ste, str, i, a, b) ==
  LET ct == CompAt(ste, a)
      cu == CompAt(str, b)
  IN SumOf([q \in 1..Len(ps) |->
       IF Act(ps[q], i) /\ ps[q].te = ct - 1 /\ ps[q].tr = cu - 1
       THEN Term(ps[q].s, i, a - ste[ct], b - str[cu]) ELSE 0])
ElMat(ps, Te, Tr, k1, i1) ==
  LET ste == PStart(Te, k1, i1)
      str == PStart(Tr, k1, i1)
  IN [a \in 1..Last(ste) |-> [b \in 1..Last(str) |-> BlockEntry(ps, ste, str, i1 - 1, a - 1, b - 1)]]
ElVec(ps, Te, k1, i1) ==
  LET ste == PStart(Te, k1, i1)
  IN [a \in 1..Last(ste) |->
       LET ct == CompAt(ste, a - 1)
       IN SumOf([q \in 1..Len(ps) |->
            IF Act(ps[q], i1 - 1) /\ ps[q].te = ct - 1 THEN Term(ps[q].s, i1 - 1, a - 1 - ste[ct], 0) ELSE 0])]
===============================================================================
