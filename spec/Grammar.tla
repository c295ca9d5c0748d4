------------------------------ MODULE Grammar ------------------------------
(* Meaning of a grammar: what a parse returns, what a completion proposes.  *)
(*                                                                          *)
(* A grammar is a sequence g of node records; a node is designated by its   *)
(* index. Fields: t (type), id, c (children indexes), and, depending on the *)
(* type, s (string), attr, min, max, base, re, pats, cond, kind, ast.       *)
(* An input is a sequence of tokens [s, a]: string and attribute.           *)
(* The state of a parse is the partially built parse tree: a sequence of    *)
(* frames [n, k] from the root to the current node, k being the trees of    *)
(* the children that are already parsed.                                    *)
(* A parse tree is [n, i, x, m, k]: node index, node id, whether it holds   *)
(* a match, the matched strings, children.                                  *)
EXTENDS Chars, ShLex, Num, Regex, CmdLang, Cond, Files

NOMATCH == -1
ERR == -2

Tok(s) == [s |-> s, a |-> ""]
Toks(v) == [i \in 1..Len(v) |-> Tok(v[i])]
Strs(v) == [i \in 1..Len(v) |-> v[i].s]

Take(v, n) == SubSeq(v, 1, n)
Drop(v, n) == SubSeq(v, n + 1, Len(v))

\* nodes built by dynamic nodes and by cmd nodes are not nodes of the user
NodeIdx(g, n) == IF g[n].id = "dyn" \/ "anon" \in DOMAIN g[n] THEN 0 ELSE n

Frame(n) == [n |-> n, k |-> <<>>]
\* add a tree to the children of the last frame
Push(ctx, tr) == [ctx EXCEPT ![Len(ctx)].k = Append(@, tr)]
SetKids(ctx, k) == [ctx EXCEPT ![Len(ctx)].k = k]

Tree(g, n, x, m, k) == [n |-> NodeIdx(g, n), i |-> g[n].id, x |-> x, m |-> m, k |-> k, nd |-> n]

RECURSIVE CountTree(_, _), CountId(_, _)
CountTree(tr, n) ==
  (IF tr.nd = n THEN 1 ELSE 0) + SumSeq([i \in 1..Len(tr.k) |-> CountTree(tr.k[i], n)])
CountId(tr, id) ==
  (IF tr.i = id THEN 1 ELSE 0) + SumSeq([i \in 1..Len(tr.k) |-> CountId(tr.k[i], id)])

\* the number of times node n appears in the partially built tree
CountCtx(ctx, n) ==
  SumSeq([f \in 1..Len(ctx) |-> (IF ctx[f].n = n THEN 1 ELSE 0)
     + SumSeq([i \in 1..Len(ctx[f].k) |-> CountTree(ctx[f].k[i], n)])])
CountCtxId(g, ctx, id) ==
  SumSeq([f \in 1..Len(ctx) |-> (IF g[ctx[f].n].id = id THEN 1 ELSE 0)
     + SumSeq([i \in 1..Len(ctx[f].k) |-> CountId(ctx[f].k[i], id)])])

\* the partially built tree, from the root; mark designates the last frame
RECURSIVE CtxTree(_, _, _)
CtxTree(g, ctx, f) ==
  LET t0 == Tree(g, ctx[f].n, 0, <<>>, <<>>)
  IN IF f = Len(ctx) THEN [t0 EXCEPT !.k = ctx[f].k]
     ELSE [t0 EXCEPT !.k = Append(ctx[f].k, CtxTree(g, ctx, f + 1))]
CtxPath(ctx) == [f \in 1..(Len(ctx) - 1) |-> Len(ctx[f].k) + 1]

DynNode(t, s, c, min, max) ==
  [t |-> t, id |-> "dyn", s |-> s, c |-> c, min |-> min, max |-> max]
AnonNode(t, s, c, min) ==
  [t |-> t, id |-> "", s |-> s, c |-> c, min |-> min, max |-> 0, anon |-> TRUE]

\* the grammar extended with the node that a dynamic node builds
\* (0: the builder fails)
DynBuild(g, n, ctx) ==
  LET nd == g[n]
      cnt == CountCtxId(g, ctx, nd.s)
      L == Len(g)
  IN CASE nd.kind = 0 -> [g |-> Append(g, DynNode("str", nd.s \o ToString(cnt), <<>>, 0, 0)), n |-> L + 1]
       [] nd.kind = 1 -> IF cnt = 0 THEN [g |-> g, n |-> 0]
                         ELSE [g |-> Append(g, DynNode("str", nd.s, <<>>, 0, 0)), n |-> L + 1]
       [] OTHER -> [g |-> g \o <<DynNode("str", "a", <<>>, 0, 0),
                                 DynNode("many", "", <<L + 1>>, cnt, cnt + 1)>>, n |-> L + 2]

\* the grammar extended with the nodes that a cmd node builds from its
\* syntax tree; words are the ids of the children, or plain strings
RECURSIVE CmdBuild(_, _, _), CmdBuildL(_, _, _, _, _)
CmdBuild(g, a, kids) ==
  IF a.o = "id" THEN
    LET I == {i \in 1..Len(kids) : g[kids[i]].id = a.s}
    IN IF I # {} THEN [g |-> g, n |-> kids[CHOOSE i \in I : \A j \in I : i <= j]]
       ELSE [g |-> Append(g, AnonNode("str", a.s, <<>>, 0)), n |-> Len(g) + 1]
  ELSE LET r == CmdBuildL(g, a.k, kids, 1, <<>>)
       IN [g |-> Append(r.g, AnonNode(a.o, "", r.c, IF a.s = "1" THEN 1 ELSE 0)), n |-> Len(r.g) + 1]
CmdBuildL(g, k, kids, i, c) ==
  IF i > Len(k) THEN [g |-> g, c |-> c]
  ELSE LET r == CmdBuild(g, k[i], kids) IN CmdBuildL(r.g, k, kids, i + 1, Append(c, r.n))

\* the grammar extended with the nodes that an expr node builds from its value
\* node, its operators and its parentheses (n = 0 when it has no value or no
\* operator). The binary operator that is added first binds the tightest; a
\* prefix operator applies to the whole expression that follows.
\*   post = val | pre-op expr | open expr close
\*   term0 = post post-op*
\*   term(i) = term(i-1) (bin(i) term(i-1))*
\*   expr = term(last)
ExprNode(t, c, x) == AnonNode(t, "", c, 0) @@ [x |-> x]
Expr(g, n) ==
  LET nd == g[n]
      L == Len(g)
      P == L + 4 + Len(nd.par)
      Term(i) == P + 3 + 3 * i
      top == Term(Len(nd.bin))
      head == <<ExprNode("seq", <<top>>, "ref"),
                ExprNode("or", nd.pre, "pre-op"),
                ExprNode("or", nd.post, "post-op"),
                ExprNode("seq", <<L + 2, L + 1>>, "prefix")>>
      pars == [i \in 1..Len(nd.par) |->
                 ExprNode("seq", <<nd.par[i][1], L + 1, nd.par[i][2]>>, "paren")]
      mid == <<ExprNode("or", <<nd.val, L + 4>> \o [i \in 1..Len(nd.par) |-> L + 4 + i], "post"),
               ExprNode("many", <<L + 3>>, "suffixes"),
               ExprNode("seq", <<P + 1, P + 2>>, "term")>>
      tail == FlatSeq([i \in 1..Len(nd.bin) |->
                <<ExprNode("seq", <<nd.bin[i], Term(i - 1)>>, "operand"),
                  ExprNode("many", <<Term(i - 1) + 1>>, "operands"),
                  ExprNode("seq", <<Term(i - 1), Term(i - 1) + 2>>, "binary")>>])
  IN IF nd.val = 0 \/ (nd.bin = <<>> /\ nd.pre = <<>> /\ nd.post = <<>>) THEN [g |-> g, n |-> 0]
     ELSE [g |-> g \o head \o pars \o mid \o tail, n |-> top]

\* the value of a parsed expression: how the callbacks are applied
RECURSIVE JoinSp(_)
JoinSp(m) == IF m = <<>> THEN "" ELSE IF Len(m) = 1 THEN m[1] ELSE m[1] \o " " \o JoinSp(Tail(m))
RECURSIVE EvalTree(_, _, _), EvalPost(_, _, _), EvalBin(_, _, _, _)
EvalPost(v, k, i) ==
  IF i > Len(k) THEN v
  ELSE EvalPost([c |-> v.c + 1, s |-> "<" \o v.s \o " " \o JoinSp(k[i].m) \o ">"], k, i + 1)
EvalBin(g, v, k, i) ==
  IF i > Len(k) THEN v
  ELSE LET w == EvalTree(g, k[i].k[2], 1)
       IN EvalBin(g, [c |-> v.c + w.c + 1,
                   s |-> "[" \o v.s \o " " \o JoinSp(k[i].k[1].m) \o " " \o w.s \o "]"], k, i + 1)
\* [s, c]: the value and the number of callbacks
EvalTree(g, t, d) ==
  LET x == IF t.nd > Len(g) THEN "" ELSE IF "x" \in DOMAIN g[t.nd] THEN g[t.nd].x ELSE ""
  IN CASE x = "binary" -> EvalBin(g, EvalTree(g, t.k[1], 1), t.k[2].k, 1)
       [] x = "term"   -> EvalPost(EvalTree(g, t.k[1], 1), t.k[2].k, 1)
       [] x = "prefix" -> LET w == EvalTree(g, t.k[2], 1)
                          IN [c |-> w.c + 1, s |-> "{" \o JoinSp(t.k[1].m) \o " " \o w.s \o "}"]
       [] x = "paren"  -> LET w == EvalTree(g, t.k[2], 1)
                          IN [c |-> w.c + 1,
                              s |-> "`" \o JoinSp(t.k[1].m) \o " " \o w.s \o " " \o JoinSp(t.k[3].m) \o "'"]
       [] x \in {"post", "ref"} -> EvalTree(g, t.k[1], 1)
       [] OTHER -> [c |-> 1, s |-> ToString(t.n) \o "=" \o JoinSp(t.m)]

Cmd(g, n) == CmdBuild(g, CmdParse(g[n].s).a, g[n].c)

-----------------------------------------------------------------------------
(* Parsing. The result is [r, k]: the number of matched tokens, NOMATCH or  *)
(* ERR, and the trees of the children.                                      *)

NoMatch == [r |-> NOMATCH, k |-> <<>>]
Error == [r |-> ERR, k |-> <<>>]
Leaf(ok) == IF ok THEN [r |-> 1, k |-> <<>>] ELSE NoMatch

RECURSIVE Parse(_, _, _, _), ParseSeq(_, _, _, _, _), ParseOr(_, _, _, _)
RECURSIVE ParseMany(_, _, _, _, _, _), ParseSubset(_, _, _, _), SubsetTry(_, _, _, _, _, _)

\* parse a child below the last frame of ctx: result and tree
Child(g, n, v, ctx) ==
  LET p == Parse(g, n, v, Append(ctx, Frame(n)))
  IN [r |-> p.r,
      t |-> IF p.r >= 0 THEN Tree(g, n, 1, Strs(Take(v, p.r)), p.k) ELSE <<>>]

\* a node that gives the input to its only child
Delegate(g, n, v, ctx) ==
  LET c == Child(g, n, v, ctx)
  IN IF c.r >= 0 THEN [r |-> c.r, k |-> <<c.t>>] ELSE [r |-> c.r, k |-> <<>>]

\* a lexer gives tokens to its child, that must consume all of them
Lexed(g, n, toks, v, ctx) ==
  LET c == Child(g, n, toks, ctx)
  IN IF c.r = ERR THEN Error
     ELSE IF c.r = Len(toks) THEN [r |-> IF v = <<>> THEN 0 ELSE 1, k |-> <<c.t>>]
     ELSE NoMatch

ParseSeq(g, c, i, v, ctx) ==
  IF i > Len(c) THEN [r |-> 0, k |-> ctx[Len(ctx)].k]
  ELSE LET p == Child(g, c[i], v, ctx)
       IN IF p.r = ERR THEN Error
          ELSE IF p.r = NOMATCH THEN NoMatch
          ELSE LET q == ParseSeq(g, c, i + 1, Drop(v, p.r), Push(ctx, p.t))
               IN IF q.r < 0 THEN q ELSE [q EXCEPT !.r = @ + p.r]

ParseOr(g, c, v, ctx) ==
  IF c = <<>> THEN NoMatch
  ELSE LET p == Child(g, Head(c), v, ctx)
       IN IF p.r = ERR THEN Error
          ELSE IF p.r = NOMATCH THEN ParseOr(g, Tail(c), v, ctx)
          ELSE [r |-> p.r, k |-> <<p.t>>]

\* cnt matches so far, off tokens consumed
ParseMany(g, nd, cnt, off, v, ctx) ==
  LET stop == IF cnt < nd.min THEN NoMatch ELSE [r |-> off, k |-> ctx[Len(ctx)].k]
  IN IF nd.max # 0 /\ cnt >= nd.max THEN stop
     ELSE LET p == Child(g, nd.c[1], v, ctx)
          IN IF p.r = ERR THEN Error
             ELSE IF p.r = NOMATCH \/ p.r = 0 THEN stop
             ELSE ParseMany(g, nd, cnt + 1, off + p.r, Drop(v, p.r), Push(ctx, p.t))

\* the largest number of distinct children that match one after the other,
\* the first ones in the order of the children in case of equality:
\* [r (tokens or ERR), cnt, k (all the children of the frame)]
ParseSubset(g, c, v, ctx) ==
  SubsetTry(g, c, 1, v, ctx, [r |-> 0, cnt |-> 0, k |-> ctx[Len(ctx)].k])
SubsetTry(g, c, i, v, ctx, best) ==
  IF i > Len(c) \/ best.r = ERR THEN best
  ELSE LET p == Child(g, c[i], v, ctx)
       IN IF p.r = ERR THEN [best EXCEPT !.r = ERR]
          ELSE IF p.r = NOMATCH THEN SubsetTry(g, c, i + 1, v, ctx, best)
          ELSE LET q == ParseSubset(g, RemoveAt(c, i), Drop(v, p.r), Push(ctx, p.t))
                   b == IF q.r = ERR THEN [best EXCEPT !.r = ERR]
                        ELSE IF q.cnt + 1 > best.cnt
                        THEN [r |-> p.r + q.r, cnt |-> q.cnt + 1, k |-> q.k]
                        ELSE best
               IN SubsetTry(g, c, i + 1, v, ctx, b)

\* a node type defined by the application (kinds: 0 leaf, 1 skips words before
\* its child, 2 looks ahead with its child, 3 its child once or twice). The
\* rules tell how many words are consumed, from the first one.
UserRule(nd, v) ==
  LET I == {i \in 1..Len(nd.rules) : v # <<>> /\ nd.rules[i].w \in {v[1].s, "*"}}
      r == IF v = <<>> THEN nd.em
           ELSE IF I = {} THEN NOMATCH ELSE nd.rules[CHOOSE i \in I : \A j \in I : i <= j].n
  IN IF r = ERR THEN Error ELSE IF r < 0 \/ r > Len(v) THEN NoMatch ELSE [r |-> r, k |-> <<>>]
ParseUser(g, nd, v, ctx) ==
  CASE nd.kind = 0 -> UserRule(nd, v)
    [] nd.kind = 1 -> IF Len(v) < nd.skip THEN NoMatch
                      ELSE LET p == Delegate(g, nd.c[1], Drop(v, nd.skip), ctx)
                           IN IF p.r < 0 THEN p ELSE [p EXCEPT !.r = @ + nd.skip]
    [] nd.kind = 2 -> LET p == Child(g, nd.c[1], v, ctx)
                      IN IF p.r = ERR THEN Error ELSE IF p.r = NOMATCH THEN NoMatch ELSE UserRule(nd, v)
    [] OTHER -> LET p == Child(g, nd.c[1], v, ctx)
                IN IF p.r = ERR THEN Error ELSE IF p.r = NOMATCH THEN NoMatch
                   ELSE LET q == Child(g, nd.c[1], Drop(v, p.r), Push(ctx, p.t))
                        IN IF q.r = ERR THEN Error
                           ELSE IF q.r = NOMATCH THEN [r |-> p.r, k |-> <<p.t>>]
                           ELSE [r |-> p.r + q.r, k |-> <<p.t, q.t>>]

\* a node that lacks a configuration cannot be used
Unset(nd) == "unset" \in DOMAIN nd

\* parse with node n, that is the node of the last frame of ctx
Parse(g, n, v, ctx) ==
  LET nd == g[n]
      has == v # <<>>
  IN CASE Unset(nd) -> Error
       [] nd.t = "str"   -> Leaf(has /\ v[1].s = nd.s)
       [] nd.t = "any"   -> Leaf(has /\ (nd.attr = "" \/ v[1].a = nd.attr))
       [] nd.t = "empty" -> [r |-> 0, k |-> <<>>]
       [] nd.t = "none"  -> NoMatch
       [] nd.t = "file"  -> Leaf(has)
       [] nd.t \in {"user", "user0"} -> ParseUser(g, nd, v, ctx)
       [] nd.t = "space" -> Leaf(has /\ Len(v[1].s) > 0
                                 /\ \A i \in 1..Len(v[1].s) : Ch(v[1].s, i) \in Spaces)
       [] nd.t = "int"   -> Leaf(has /\ IntMatch(v[1].s, nd.min, nd.max, nd.base))
       [] nd.t = "uint"  -> Leaf(has /\ UintMatch(v[1].s, nd.min, nd.max, nd.base))
       [] nd.t = "re"    -> Leaf(has /\ FullMatch(nd.re, v[1].s))
       [] nd.t = "seq"   -> ParseSeq(g, nd.c, 1, v, ctx)
       [] nd.t = "or"    -> ParseOr(g, nd.c, v, ctx)
       [] nd.t = "many"  -> ParseMany(g, nd, 0, 0, v, ctx)
       [] nd.t = "option" ->
            LET p == Delegate(g, nd.c[1], v, ctx)
            IN IF p.r = NOMATCH THEN [r |-> 0, k |-> <<>>] ELSE p
       [] nd.t = "subset" ->
            IF ~has THEN NoMatch
            ELSE LET p == ParseSubset(g, nd.c, v, ctx)
                 IN IF p.r = ERR THEN Error ELSE [r |-> p.r, k |-> p.k]
       [] nd.t = "once" ->
            IF CountCtx(ctx, nd.c[1]) > 0 THEN NoMatch
            ELSE Delegate(g, nd.c[1], v, ctx)
       [] nd.t = "bypass" -> Delegate(g, nd.c[1], v, ctx)
       [] nd.t = "cmd" -> LET b == Cmd(g, n) IN Delegate(b.g, b.n, v, ctx)
       [] nd.t = "expr" ->
            LET b == Expr(g, n)
            IN IF b.n = 0 THEN Error ELSE Delegate(b.g, b.n, v, ctx)
       [] nd.t = "dynamic" ->
            LET b == DynBuild(g, n, ctx)
            IN IF b.n = 0 THEN Error ELSE Delegate(b.g, b.n, v, ctx)
       [] nd.t = "sh_lex" ->
            LET l == IF has THEN Lex(v[1].s, TRUE, FALSE) ELSE [e |-> "", toks |-> <<>>]
            IN IF l.e # "" THEN NoMatch ELSE Lexed(g, nd.c[1], Toks(l.toks), v, ctx)
       [] nd.t = "re_lex" ->
            LET l == IF has THEN ReLex(nd.pats, v[1].s, <<>>) ELSE [e |-> FALSE, toks |-> <<>>]
            IN IF l.e THEN NoMatch ELSE Lexed(g, nd.c[1], l.toks, v, ctx)
       [] nd.t = "cond" ->
            LET p == Delegate(g, nd.c[1], v, ctx)
                tr == CtxTree(g, SetKids(ctx, p.k), 1)
                b == CondHolds(CondParse(nd.s).a, tr, CtxPath(ctx))
            IN IF p.r < 0 THEN p
               ELSE IF b = "err" THEN Error ELSE IF b = "true" THEN p ELSE NoMatch

\* whether a node can be created with this configuration
NodeOk(nd) ==
  CASE Unset(nd) -> TRUE
    [] nd.t = "cmd" -> CmdParse(nd.s).ok
    [] nd.t = "cond" -> CondParse(nd.s).ok
    [] nd.t \in {"int", "uint"} -> BoundsOk(nd.min, nd.max)
    [] nd.t \in {"re", "re_lex"} -> "invalid" \notin DOMAIN nd
    [] OTHER -> TRUE

\* the observable result of a parse from a root node
ParseRoot(g, n, v) ==
  LET p == Parse(g, n, v, <<Frame(n)>>)
  IN IF p.r = ERR THEN [r |-> "err", len |-> 0, t |-> <<>>]
     ELSE IF p.r = NOMATCH
     THEN [r |-> "nomatch", len |-> 0, t |-> Tree(g, n, 0, <<>>, <<>>)]
     ELSE [r |-> "match", len |-> p.r, t |-> Tree(g, n, 1, Strs(Take(v, p.r)), p.k)]

-----------------------------------------------------------------------------
(* Completion. The result is [e, g]: whether it fails, and a sequence of    *)
(* groups [n, ctx, it]: the node that proposes, the state at this point,    *)
(* and the items [t, s, c, d]: type, string, added characters, display.     *)

None == [e |-> FALSE, g |-> <<>>]
CError == [e |-> TRUE, g |-> <<>>]
Plus(a, b) == IF a.e \/ b.e THEN CError ELSE [e |-> FALSE, g |-> a.g \o b.g]
NOCOMP == "(none)"        \* c of an item that does not extend the token
Item(t, s, c, d) == [t |-> t, s |-> s, c |-> c, d |-> d]
Group(g, n, ctx, it) ==
  [e |-> FALSE, g |-> <<[n |-> NodeIdx(g, n), i |-> g[n].id,
                         st |-> CtxTree(g, ctx, 1), p |-> CtxPath(ctx), it |-> it]>>]

RECURSIVE Comp(_, _, _, _), CompAll(_, _, _, _), CompSeq(_, _, _, _), CompSeqAt(_, _, _, _, _)
RECURSIVE CompMany(_, _, _, _, _), CompManyAt(_, _, _, _, _, _)
RECURSIVE CompSubset(_, _, _, _), CompSubsetAt(_, _, _, _, _)

CChild(g, n, v, ctx) == Comp(g, n, v, Append(ctx, Frame(n)))

CompAll(g, c, v, ctx) ==
  IF c = <<>> THEN None
  ELSE Plus(CChild(g, Head(c), v, ctx), CompAll(g, Tail(c), v, ctx))

\* what the first child proposes, then what the next ones propose after each
\* proper prefix of the input that it matches entirely
CompSeq(g, c, v, ctx) ==
  IF c = <<>> THEN None
  ELSE Plus(CChild(g, Head(c), v, ctx), CompSeqAt(g, c, 0, v, ctx))
CompSeqAt(g, c, i, v, ctx) ==
  IF i >= Len(v) THEN None
  ELSE LET p == Child(g, Head(c), Take(v, i), ctx)
       IN IF p.r = ERR THEN CError
          ELSE IF p.r # i THEN CompSeqAt(g, c, i + 1, v, ctx)
          ELSE Plus(CompSeq(g, Tail(c), Drop(v, i), Push(ctx, p.t)),
                    CompSeqAt(g, c, i + 1, v, ctx))

CompMany(g, c, max, v, ctx) ==
  LET a == CChild(g, c, v, ctx)
  IN IF max = 1 THEN a
     ELSE Plus(a, CompManyAt(g, c, IF max = 0 THEN 0 ELSE max - 1, 1, v, ctx))
CompManyAt(g, c, max, i, v, ctx) ==
  IF i >= Len(v) THEN None
  ELSE LET p == Child(g, c, Take(v, i), ctx)
       IN IF p.r = ERR THEN CError
          ELSE IF p.r # i THEN CompManyAt(g, c, max, i + 1, v, ctx)
          ELSE Plus(CompMany(g, c, max, Drop(v, i), Push(ctx, p.t)),
                    CompManyAt(g, c, max, i + 1, v, ctx))

CompSubset(g, c, v, ctx) ==
  Plus(CompAll(g, c, v, ctx), CompSubsetAt(g, c, 1, v, ctx))
CompSubsetAt(g, c, i, v, ctx) ==
  IF i > Len(c) THEN None
  ELSE LET p == Child(g, c[i], v, ctx)
       IN IF p.r = ERR THEN CError
          ELSE IF p.r = NOMATCH THEN CompSubsetAt(g, c, i + 1, v, ctx)
          ELSE Plus(CompSubset(g, RemoveAt(c, i), Drop(v, p.r), Push(ctx, p.t)),
                    CompSubsetAt(g, c, i + 1, v, ctx))

\* close the quote opened by the user in the complete items
Quote(q, it) ==
  IF q = "" \/ it.t # "full" THEN it
  ELSE [it EXCEPT !.s = q \o @ \o q, !.c = IF @ = NOCOMP THEN @ ELSE @ \o q]
QuoteAll(q, r) ==
  [r EXCEPT !.g = [i \in 1..Len(@) |->
     [@[i] EXCEPT !.it = [j \in 1..Len(@) |-> Quote(q, @[j])]]]]

Unknown(g, n, v, ctx) ==
  IF Len(v) = 1 THEN Group(g, n, ctx, <<Item("unknown", "", "", "")>>) ELSE None

\* items that a node of the application adds before and after its child: they
\* belong to one group
UserItems(nd, v, when) ==
  IF Len(v) # 1 THEN <<>>
  ELSE FlatSeq([i \in 1..Len(nd.items) |->
         LET x == nd.items[i] IN
         IF x.w # when THEN <<>>
         ELSE CASE x.t = "u" -> <<Item("unknown", "", "", "")>>
                [] x.t = "r" -> <<Item("full", x.s, NOCOMP, x.s)>>
                [] OTHER -> IF ~StartsWith(x.s, v[1].s) THEN <<>>
                            ELSE <<Item(IF x.t = "f" THEN "full" ELSE "partial", x.s, From(x.s, Len(v[1].s) + 1), x.s)>>])
CompUser(g, n, v, ctx) ==
  LET nd == g[n]
      k == IF nd.kind = 1 THEN nd.skip ELSE 0
      one == IF nd.kind = 0 \/ Len(v) <= k THEN None ELSE CChild(g, nd.c[1], Drop(v, k), ctx)
      kids == IF nd.kind = 3 THEN Plus(one, one) ELSE one
      b == UserItems(nd, v, "b")
      a == UserItems(nd, v, "a")
      own == IF a \o b = <<>> THEN None ELSE Group(g, n, ctx, b \o a)
  IN IF nd.cerr = 1 THEN CError ELSE IF b = <<>> THEN Plus(kids, own) ELSE Plus(own, kids)

Comp(g, n, v, ctx) ==
  LET nd == g[n]
  IN CASE Unset(nd) -> CError
       [] nd.t = "str" ->
            IF Len(v) = 1 /\ StartsWith(nd.s, v[1].s)
            THEN Group(g, n, ctx, <<Item("full", nd.s, From(nd.s, Len(v[1].s) + 1), nd.s)>>)
            ELSE None
       [] nd.t \in {"any", "int", "uint", "re", "re_lex", "empty", "space"} ->
            Unknown(g, n, v, ctx)
       [] nd.t = "none" -> None
       [] nd.t = "user0" -> Unknown(g, n, v, ctx)
       [] nd.t = "user" -> CompUser(g, n, v, ctx)
       [] nd.t = "file" ->
            IF Len(v) # 1 THEN None
            ELSE LET it == FileItems(nd.fs, v[1].s) IN IF it = {} THEN None ELSE Group(g, n, ctx, AnySeq(it))
       [] nd.t = "or" -> CompAll(g, nd.c, v, ctx)
       [] nd.t = "seq" -> CompSeq(g, nd.c, v, ctx)
       [] nd.t = "many" -> CompMany(g, nd.c[1], nd.max, v, ctx)
       [] nd.t = "subset" -> CompSubset(g, nd.c, v, ctx)
       [] nd.t \in {"option", "bypass", "cond"} -> CChild(g, nd.c[1], v, ctx)
       [] nd.t = "once" ->
            IF CountCtx(ctx, nd.c[1]) > 0 THEN None ELSE CChild(g, nd.c[1], v, ctx)
       [] nd.t = "cmd" -> LET b == Cmd(g, n) IN CChild(b.g, b.n, v, ctx)
       [] nd.t = "expr" ->
            LET b == Expr(g, n)
            IN IF b.n = 0 THEN CError ELSE CChild(b.g, b.n, v, ctx)
       [] nd.t = "dynamic" ->
            LET b == DynBuild(g, n, ctx)
            IN IF b.n = 0 THEN CError ELSE CChild(b.g, b.n, v, ctx)
       [] nd.t = "sh_lex" ->
            IF Len(v) # 1 THEN None
            ELSE LET l == Lex(v[1].s, FALSE, TRUE)
                     r == CChild(g, nd.c[1], Toks(l.toks), ctx)
                 IN IF r.e THEN r ELSE QuoteAll(l.q, r)

CompRoot(g, n, v) == Comp(g, n, v, <<Frame(n)>>)
=============================================================================
