------------------------------- MODULE Pnode -------------------------------
(* Parse trees: a forest of nodes [n, par, k, x, m, a]: grammar node, parent *)
(* (0 for a root), children in order, whether it holds a match, the matched  *)
(* strings, the values of three attributes. Freed nodes are not in the       *)
(* domain. New nodes get the next identifiers, in depth-first order.         *)
EXTENDS Grammar

PBegin(r) == [t |-> <<>>, nx |-> 1, r |-> 0, ids |-> [i \in 1..Len(r.g) |-> r.g[i].id], g |-> r.g]
\* t is a function from identifiers to nodes; <<>> is the empty function

Par(t, i) == t[i].par
RECURSIVE RootOf(_, _), Desc(_, _), DescL(_, _, _)
RootOf(t, i) == IF t[i].par = 0 THEN i ELSE RootOf(t, t[i].par)
\* the nodes below i, itself included, depth first
Desc(t, i) == <<i>> \o DescL(t, t[i].k, 1)
DescL(t, k, j) == IF j > Len(k) THEN <<>> ELSE Desc(t, k[j]) \o DescL(t, k, j + 1)

Keep(t, S) == [i \in DOMAIN t \ S |-> t[i]]
Without(k, c) == LET keep(x) == x # c IN SelectSeq(k, keep)
Unlink(t, c) ==
  IF t[c].par = 0 THEN t
  ELSE [t EXCEPT ![t[c].par].k = Without(@, c), ![c].par = 0]
Free(t, c) == LET d == SetOf(Desc(t, c)) u == Unlink(t, c) IN Keep(u, d)
FreeKids(t, p) ==
  LET d == SetOf(Desc(t, p)) \ {p} IN [Keep(t, d) EXCEPT ![p].k = <<>>]

PosIn(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
NextSib(t, i) ==
  IF t[i].par = 0 THEN 0
  ELSE LET k == t[t[i].par].k p == PosIn(k, i) IN IF p < Len(k) THEN k[p + 1] ELSE 0

\* next node in the tree below root, depth first; without ic, the children of
\* the node are skipped
IterNext(t, root, i, ic) ==
  LET d == Desc(t, root)
      skip == IF ic THEN {i} ELSE SetOf(Desc(t, i))
      S == {j \in 1..Len(d) : j > PosIn(d, i) /\ d[j] \notin skip}
  IN IF S = {} THEN 0 ELSE d[CHOOSE j \in S : \A y \in S : j <= y]
RECURSIVE FindFrom(_, _, _, _)
FindFrom(st, root, i, id) ==
  IF i = 0 THEN 0
  ELSE IF st.t[i].n # 0 /\ st.ids[st.t[i].n] = id THEN i
  ELSE FindFrom(st, root, IterNext(st.t, root, i, TRUE), id)

\* the tree of a parse result with identifiers from nx on
RECURSIVE Import(_, _, _), ImportL(_, _, _, _)
\* result: [f (function), nx]
Import(tr, par, nx) ==
  LET r == ImportL(tr.k, 1, nx, nx + 1)
  IN [f |-> r.f @@ (nx :> [n |-> tr.n, par |-> par, k |-> r.c, x |-> tr.x, m |-> tr.m, a |-> <<0, 0, 0>>]),
      nx |-> r.nx]
ImportL(k, i, par, nx) ==
  IF i > Len(k) THEN [f |-> <<>>, c |-> <<>>, nx |-> nx]
  ELSE LET a == Import(k[i], par, nx)
           b == ImportL(k, i + 1, par, a.nx)
       IN [f |-> a.f @@ b.f, c |-> <<nx>> \o b.c, nx |-> b.nx]

PDup(st, i) ==
  LET d == Desc(st.t, RootOf(st.t, i))
      new(x) == st.nx + PosIn(d, x) - 1
      cp == [y \in {new(x) : x \in SetOf(d)} |->
               LET x == d[y - st.nx + 1] n == st.t[x]
               IN [n EXCEPT !.par = IF n.par = 0 THEN 0 ELSE new(n.par),
                            !.k = [j \in 1..Len(n.k) |-> new(n.k[j])]]]
  IN [st EXCEPT !.t = cp @@ @, !.nx = @ + Len(d), !.r = new(i)]

PNew(n) == [n |-> n, par |-> 0, k |-> <<>>, x |-> 0, m |-> <<>>, a |-> <<0, 0, 0>>]

PStep(st, op, obs) ==
  IF obs.f > 0 /\ obs.r = -1 THEN [st EXCEPT !.r = -1]
  ELSE CASE op.op = "new" -> [st EXCEPT !.t = (st.nx :> PNew(op.n)) @@ @, !.nx = @ + 1, !.r = 0]
    [] op.op = "parse" ->
         LET p == ParseRoot(st.g, op.n, Toks(op.v))
             f == Import(p.t, 0, st.nx)
         IN IF p.r = "err" THEN [st EXCEPT !.r = -1]
            ELSE [st EXCEPT !.t = f.f @@ @, !.nx = f.nx, !.r = 0]
    [] op.op = "link" -> [st EXCEPT !.t[op.p].k = Append(@, op.c), !.t[op.c].par = op.p, !.r = 0]
    [] op.op = "unlink" -> [st EXCEPT !.t = Unlink(@, op.p), !.r = 0]
    [] op.op = "free" -> [st EXCEPT !.t = Free(@, op.p), !.r = 0]
    [] op.op = "fc" -> [st EXCEPT !.t = FreeKids(@, op.p), !.r = 0]
    [] op.op = "dl" -> [st EXCEPT !.r = 0,
                          !.t = IF @[op.p].k = <<>> THEN @ ELSE Free(@, @[op.p].k[Len(@[op.p].k)])]
    [] op.op = "dup" -> PDup(st, op.p)
    [] op.op = "attr" -> [st EXCEPT !.t[op.p].a[op.key + 1] = op.a, !.r = 0]
    [] op.op = "find" -> [st EXCEPT !.r = FindFrom(st, op.p, op.p, op.id)]
    [] op.op = "next" -> [st EXCEPT !.r =
                            FindFrom(st, op.p,
                              IF op.q = 0 THEN op.p ELSE IterNext(st.t, op.p, op.q, op.ic = 1), op.id)]
    [] op.op = "iter" -> [st EXCEPT !.r = IterNext(st.t, op.p, op.q, op.ic = 1)]

PNode(st, i) ==
  LET n == st.t[i] IN
  [id |-> i, n |-> n.n, par |-> n.par, root |-> RootOf(st.t, i),
   first |-> IF n.k = <<>> THEN 0 ELSE n.k[1],
   last |-> IF n.k = <<>> THEN 0 ELSE n.k[Len(n.k)],
   next |-> NextSib(st.t, i), k |-> n.k, x |-> n.x, len |-> Len(n.m), m |-> n.m, a |-> n.a]
PLive(st) == UNION {SetOf(st.t[i].a) : i \in DOMAIN st.t} \ {0}
PView(st) == [r |-> st.r, t |-> {PNode(st, i) : i \in DOMAIN st.t}, live |-> PLive(st)]
PAccept(st, op, obs) == PView(st) = [r |-> obs.r, t |-> SetOf(obs.t), live |-> SetOf(obs.live)]
PExpected(st, op, obs) == PView(st)
=============================================================================
