----------------------------- MODULE MeshExport -----------------------------
(* Text output of meshes.  A mesh m: [pts, edges, cells (nodes), ce (edges)],   *)
(* indices from 0; coordinates scaled by 1200 * S, six digits are written.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
\* accuracy of numbers with six digits (in units of the scaled coordinates)
Tol == 2
Near(a, b) == Abs(a - b) <= Tol + (Abs(a) \div 150000)
NearPt(p, q) == Near(p[1], q[1]) /\ Near(p[2], q[2])
SeqSet(s) == {s[i] : i \in DOMAIN s}
Only(s) == Len(s) = 1

--------------------------------------------------------------------------------
(* names of files                                                               *)
EndsWith(s, t) == Len(s) >= Len(t) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t
WithExt(s, t) == IF EndsWith(s, t) THEN s ELSE s \o t
\* without directories
BaseName(s) == LET P == {i \in 1..Len(s) : SubSeq(s, i, i) = "/"}
                   k == IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : j <= i
               IN SubSeq(s, k + 1, Len(s))
FunctionName(s) == LET b == BaseName(WithExt(s, ".m")) IN SubSeq(b, 1, Len(b) - 2)

--------------------------------------------------------------------------------
(* MATLAB function with the mesh: coordinates, triangles and quadrilaterals     *)
(* (nodes counted from 1, then the index of the cell), edges                    *)
Inc(s) == [i \in 1..Len(s) |-> s[i] + 1]
CellRows(m, nv) == { Inc(m.cells[i]) \o <<i - 1>> : i \in {j \in DOMAIN m.cells : Len(m.cells[j]) = nv} }
MatlabOK(m, name, f) ==
  /\ f.ok /\ f.fn = FunctionName(name) /\ f.ret = <<"x", "y", "TRI", "QUAD", "EDS">>
  /\ Len(f.a.x) = Len(m.pts) /\ Len(f.a.y) = Len(m.pts)
  /\ \A i \in DOMAIN m.pts : Near(f.a.x[i], m.pts[i][1]) /\ Near(f.a.y[i], m.pts[i][2])
  /\ f.a.EDS = [i \in DOMAIN m.edges |-> Inc(m.edges[i])]
  /\ SeqSet(f.a.TRI) = CellRows(m, 3) /\ Len(f.a.TRI) = Cardinality(CellRows(m, 3))
  /\ SeqSet(f.a.QUAD) = CellRows(m, 4) /\ Len(f.a.QUAD) = Cardinality(CellRows(m, 4))
(* MATLAB function with the parents: rows (index of the parent, number of the   *)
(* child), for cells also the refinement edge; -1 if there is none              *)
ParentsOK(lv, name, f) ==
  /\ f.ok /\ f.fn = FunctionName(name) /\ f.ret = <<"PTPAR", "EDPAR", "CELLPAR">>
  /\ f.a.PTPAR = lv.par[3] /\ f.a.EDPAR = lv.par[2]
  /\ f.a.CELLPAR = [i \in DOMAIN lv.par[1] |-> lv.par[1][i] \o <<lv.re[i]>>]
FileNo(e, n) == CHOOSE i \in DOMAIN e.files : e.files[i] = n
WriteMatlabOK(m, e) == e.files = << WithExt(e.name, ".m") >> /\ MatlabOK(m, e.name, e.c[1])
WriteLevelOK(lv, e) == e.files = << WithExt(e.name, ".m") >> /\ ParentsOK(lv, e.name, e.c[1])
\* one pair of files for every level of a hierarchy
LevelName(b, k) == b \o "_L" \o ToString(k)
WriteHierarchyOK(levels, e) ==
  /\ Len(levels) = e.n /\ Len(e.files) = 2 * e.n
  /\ \A k \in 0..e.n-1 :
       LET a == LevelName(e.name, k) \o ".m"
           b == LevelName(e.name, k) \o "_pi.m"
       IN /\ a \in SeqSet(e.files) /\ b \in SeqSet(e.files)
          /\ MatlabOK(levels[k+1], a, e.c[FileNo(e, a)])
          /\ ParentsOK(levels[k+1], b, e.c[FileNo(e, b)])

--------------------------------------------------------------------------------
(* csv: codim, index, then coordinates (nodes), nodes (edges), edges (cells)    *)
WriteMatplotlibOK(m, e) ==
  LET r == e.c[1].rows
      of(c) == SelectSeq(r, LAMBDA x : x[1] = c)
      np == of(2)
  IN /\ e.files = << WithExt(e.name, ".csv") >> /\ e.c[1].ok
     /\ SeqSet(of(0)) = { <<0, i - 1>> \o m.ce[i] : i \in DOMAIN m.ce } /\ Len(of(0)) = Len(m.ce)
     /\ SeqSet(of(1)) = { <<1, i - 1>> \o m.edges[i] : i \in DOMAIN m.edges } /\ Len(of(1)) = Len(m.edges)
     /\ Len(np) = Len(m.pts) /\ {np[i][2] : i \in DOMAIN np} = 0..Len(m.pts)-1
     /\ \A i \in DOMAIN np : Len(np[i]) = 4 /\ NearPt(<<np[i][3], np[i][4]>>, m.pts[np[i][2] + 1])
     /\ Len(r) = Len(m.ce) + Len(m.edges) + Len(m.pts)

--------------------------------------------------------------------------------
(* TikZ: every selected entity is drawn once.                                   *)
RECURSIVE SumC(_, _, _)
SumC(P, c, k) == IF k = 0 THEN 0 ELSE P[k][c] + SumC(P, c, k - 1)
Centre(P) == [c \in 1..2 |-> SumC(P, c, Len(P)) \div Len(P)]
\* Q is P, shrunk to the centre by a factor of lam percent
Shrunk(Q, P, lam) ==
  LET z == Centre(P)
  IN Len(Q) = Len(P) /\ \A i \in DOMAIN P : \A c \in 1..2 :
        Abs(Q[i][c] - (z[c] + ((P[i][c] - z[c]) * lam) \div 100)) <= Tol + 1
Pts(m, v) == [i \in 1..Len(v) |-> m.pts[v[i] + 1]]
S(k) == ToString(k)
NodeCmd(m, e, i, d) ==
  /\ d.kind = "pos" /\ Len(d.pts) = 1 /\ NearPt(d.pts[1], m.pts[i + 1])
  /\ d.labels = IF e.nnum THEN <<S(i)>> ELSE <<"*">>
EdgeCmd(m, e, i, d) ==
  /\ d.kind = "line" /\ d.arrow = e.arrows
  /\ \E lam \in (IF e.arrows THEN 50..100 ELSE {100}) : Shrunk(d.pts, Pts(m, m.edges[i + 1]), lam)
  /\ d.labels = IF e.enum THEN <<S(i)>> ELSE <<>>
CellCmd(m, e, i, d) ==
  LET v == m.cells[i + 1] IN
  /\ d.kind = "poly" /\ \E lam \in 30..100 : Shrunk(d.pts, Pts(m, v), lam)
  /\ d.labels = IF e.vnum THEN [k \in 1..Len(v) |-> S(k - 1)] ELSE <<>>
  /\ e.vnum => d.at = [k \in 1..Len(v) |-> k]
NumberCmd(m, e, i, d) ==
  /\ d.kind = "pos" /\ Len(d.pts) = 1 /\ NearPt(d.pts[1], Centre(Pts(m, m.cells[i + 1])))
  /\ d.labels = <<S(i)>>
Count(s, P(_)) == Cardinality({i \in DOMAIN s : P(s[i])})
WriteTikZOK(m, e) ==
  IF ~e.ret THEN e.files = <<>> /\ BaseName(e.name) # e.name \* not writable: only in missing directories
  ELSE
  LET D == e.c[1].cmds
      nn == Len(e.sel[3])
      ne == Len(e.sel[2])
      nc == IF e.cells THEN Len(e.sel[1]) ELSE 0
      nl == IF e.cells /\ e.cnum THEN nc ELSE 0
  IN /\ e.files = <<e.name>> /\ e.c[1].ok
     /\ e.preamble => e.c[1].pre
     /\ ~e.preamble => ~e.c[1].anypre
     /\ Len(D) = nn + ne + nc + nl
     /\ \A k \in DOMAIN e.sel[3] : \E j \in DOMAIN D : NodeCmd(m, e, e.sel[3][k], D[j])
     /\ \A k \in DOMAIN e.sel[2] : \E j \in DOMAIN D : EdgeCmd(m, e, e.sel[2][k], D[j])
     /\ e.cells => \A k \in DOMAIN e.sel[1] : \E j \in DOMAIN D : CellCmd(m, e, e.sel[1][k], D[j])
     /\ (e.cells /\ e.cnum) => \A k \in DOMAIN e.sel[1] : \E j \in DOMAIN D : NumberCmd(m, e, e.sel[1][k], D[j])
===============================================================================
