---------------------------- MODULE GrammarView ----------------------------
(* What can be observed of a parse or a completion, and what is compared.    *)
EXTENDS Grammar, Json, IOUtils

\* nodes that are neither the user's nor dynamic ones are not compared: their
\* children take their place
RECURSIVE Norm(_), NormKids(_)
NormKids(k) ==
  IF k = <<>> THEN <<>>
  ELSE LET h == Head(k) IN
       (IF h.n = 0 /\ h.i # "dyn" THEN NormKids(h.k) ELSE <<Norm(h)>>) \o NormKids(Tail(k))
Norm(t) == [n |-> t.n, i |-> t.i, x |-> t.x, m |-> t.m, k |-> NormKids(t.k)]

\* mark the node at path p
RECURSIVE Mark(_, _)
Mark(t, p) ==
  [n |-> t.n, i |-> t.i, x |-> t.x, m |-> t.m, c |-> IF p = <<0>> THEN 1 ELSE 0,
   k |-> [j \in 1..Len(t.k) |->
            Mark(t.k[j], IF p # <<>> /\ p[1] = j THEN Tail(p) ELSE <<>>)]]
RECURSIVE NormM(_), NormMKids(_)
NormMKids(k) ==
  IF k = <<>> THEN <<>>
  ELSE LET h == Head(k) IN
       (IF h.n = 0 /\ h.i # "dyn" /\ h.c = 0 THEN NormMKids(h.k) ELSE <<NormM(h)>>) \o NormMKids(Tail(k))
NormM(t) == [n |-> t.n, i |-> t.i, x |-> t.x, m |-> t.m, c |-> t.c, k |-> NormMKids(t.k)]

Letter(t) == IF t = "full" THEN "f" ELSE IF t = "partial" THEN "p" ELSE "u"
Bit(t) == IF t = "unknown" THEN 1 ELSE IF t = "full" THEN 2 ELSE 4
InMask(t, m) == CASE Bit(t) = 1 -> m % 2 = 1
                  [] Bit(t) = 2 -> (m \div 2) % 2 = 1
                  [] OTHER -> (m \div 4) % 2 = 1

\* the first tree of node n, from the root; <<>> if there is none
RECURSIVE FindTree(_, _), FindKids(_, _)
FindTree(t, n) == IF t.nd = n THEN <<t>> ELSE FindKids(t.k, n)
FindKids(k, n) ==
  IF k = <<>> THEN <<>>
  ELSE LET f == FindTree(Head(k), n) IN IF f # <<>> THEN f ELSE FindKids(Tail(k), n)

\* evaluation of the expression x in the parse from the root n: it fails if a
\* callback is missing, if the parse does not match, or if the callback number
\* q.f fails. No value is lost, in all the cases.
ExpEval(g, q) ==
  LET p == ParseRoot(g, q.n, Toks(q.v))
      f == IF p.r = "err" THEN <<>> ELSE FindTree(p.t, q.x)
      none == [r |-> "noparse", v |-> "", lost |-> 0, calls |-> 0]
      fail(c) == [r |-> "err", v |-> "", lost |-> 0, calls |-> c]
  IN IF p.r = "err" THEN none
     ELSE IF f = <<>> /\ (q.mode \div 8) % 2 = 0 THEN none
     ELSE IF q.miss # 0 \/ p.r # "match" THEN fail(0)
     ELSE LET e == EvalTree(Expr(g, q.x).g, f[1].k[1], 1)
          IN IF q.f # 0 /\ q.f <= e.c THEN fail(q.f)
             ELSE [r |-> "ok", v |-> e.s, lost |-> 0, calls |-> e.c]

Items(gs) == FlatSeq([i \in 1..Len(gs) |-> gs[i].it])
Expect(g, q) ==
  IF q.op = "OK" THEN [r |-> IF NodeOk(g[q.n]) THEN "ok" ELSE "null"]
  ELSE IF ~NodeOk(g[q.n]) THEN [r |-> "null"]
  ELSE IF q.op = "V" THEN
    LET nd == g[q.n] s == q.v[1]
        ok == IF nd.t = "int" THEN IntMatch(s, nd.min, nd.max, nd.base) ELSE UintMatch(s, nd.min, nd.max, nd.base)
    IN [r |-> IF ok THEN 1 ELSE 0, v |-> IF ok THEN NumVal(s, nd.base) ELSE ZERO]
  ELSE IF q.op = "EV" THEN ExpEval(g, q)
  ELSE IF q.op = "P" THEN
    LET p == ParseRoot(g, q.n, Toks(q.v))
    IN [r |-> p.r, len |-> p.len, t |-> IF p.r = "err" THEN <<>> ELSE Norm(p.t)]
  ELSE
    LET c == CompRoot(g, q.n, Toks(q.v))
        its == Items(c.g)
        all == [i \in 1..Len(its) |-> its[i].t]
    IN IF c.e THEN [r |-> "err"]
       ELSE [r |-> "ok",
             g |-> [i \in 1..Len(c.g) |->
                      [n |-> c.g[i].n, i |-> c.g[i].i,
                       it |-> [m \in 1..Len(c.g[i].it) |-> [c.g[i].it[m] EXCEPT !.c = IF @ = NOCOMP THEN "" ELSE @]],
                       st |-> NormM(Mark(c.g[i].st, Append(c.g[i].p, 0)))]],
             ty |-> [m \in 1..7 |-> LET in(t) == InMask(t, m) s == SelectSeq(all, in)
                                    IN [i \in 1..Len(s) |-> Letter(s[i])]],
             tc |-> [m \in 1..8 |-> LET in(t) == InMask(t, m - 1) IN Len(SelectSeq(all, in))]]

Seen(q, o) ==
  IF o.o = "null" THEN [r |-> "null"]
  ELSE IF q.op = "OK" THEN [r |-> o.r]
  ELSE IF q.op = "V" THEN [r |-> o.r, v |-> Dec(o.v)]
  ELSE IF q.op = "EV" THEN [r |-> o.r, v |-> o.v, lost |-> o.lost, calls |-> o.calls]
  ELSE IF q.op = "P" THEN
    [r |-> IF o.e = 1 THEN "err without errno" ELSE o.r, len |-> o.len, t |-> IF o.r = "err" THEN <<>> ELSE Norm(o.t)]
  ELSE IF o.c.r = "err" THEN [r |-> IF o.e = 1 THEN "err without errno" ELSE "err"]
  ELSE [r |-> "ok",
        g |-> [i \in 1..Len(o.c.g) |->
                 [n |-> o.c.g[i].n, i |-> o.c.g[i].i, it |-> o.c.g[i].it, st |-> NormM(o.c.g[i].st)]],
        ty |-> o.c.ty, tc |-> o.c.tc]

\* what is compared
View == IOEnv.VIEW
Proj(q, x) ==
  IF q.op \in {"OK", "V", "EV"} \/ (q.op = "P" /\ x.r = "null") THEN x
  ELSE IF q.op = "P" THEN
    CASE View = "verdict" -> [r |-> x.r, len |-> x.len]
      [] OTHER -> x
  ELSE IF x.r # "ok" THEN x
  ELSE CASE View = "items" ->
              [r |-> x.r, g |-> [i \in 1..Len(x.g) |-> [n |-> x.g[i].n, i |-> x.g[i].i, it |-> x.g[i].it]]]
         [] OTHER -> x
Exp1(g, q) == Proj(q, Expect(g, q))
Seen1(q, o) == Proj(q, Seen(q, o))
=============================================================================
