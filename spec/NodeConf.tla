------------------------------ MODULE NodeConf ------------------------------
(* The configuration of nodes: a node behaves according to the last          *)
(* configuration that was accepted; one that is rejected changes nothing.    *)
(* The state holds the grammar g, the configuration cf of each node, and re, *)
(* the syntax trees of the regular expressions that the history uses.        *)
EXTENDS Grammar, Config

El(key, t) == [key |-> key, t |-> t, has |-> FALSE, sub |-> <<>>]
ElList(key, e) == [key |-> key, t |-> "l", has |-> TRUE, sub |-> <<e>>]
Nodes == El(NOKEY, "n")
\* what a configuration can hold, by type of node; <<>>: none is possible
Schema(t) ==
  CASE t \in {"bypass", "option", "once"} -> <<El("child", "n")>>
    [] t = "many" -> <<El("child", "n"), El("min", "u"), El("max", "u")>>
    [] t \in {"seq", "or"} -> <<ElList("children", Nodes)>>
    [] t = "str" -> <<El("string", "s")>>
    [] t = "any" -> <<El("attr", "s")>>
    [] t = "re" -> <<El("pattern", "s")>>
    [] t = "int" -> <<El("min", "i"), El("max", "i"), El("base", "u")>>
    [] t = "uint" -> <<El("min", "u"), El("max", "u"), El("base", "u")>>
    [] t = "cmd" -> <<El("expr", "s"), ElList("children", Nodes)>>
    [] t = "cond" -> <<El("expr", "s"), El("child", "n")>>
    [] t = "re_lex" ->
         <<El("child", "n"),
           ElList("patterns", [key |-> NOKEY, t |-> "d", has |-> TRUE,
                               sub |-> <<El("pattern", "s"), El("keep", "b"), El("attr", "s")>>])>>
    [] OTHER -> <<>>

Has(cf, key) == KeyAt(cf, key) # 0
Str(cf, key, dflt) == IF Has(cf, key) THEN DGet(cf, key).s ELSE dflt
\* a number that TLC can represent: larger ones are as good as BIG
BIG == 1000000
RECURSIVE IntOf(_, _, _)
IntOf(s, i, n) == IF i > Len(s) THEN n
                  ELSE IF n >= BIG THEN BIG ELSE IntOf(s, i + 1, 10 * n + DigitVal(Ch(s, i)))
Idx(v) == IntOf(v.s, 1, 0)
UINTMAX == Dec("4294967295")
SmallOk(cf, key) == Has(cf, key) => Cmp(Dec(Str(cf, key, "0")), UINTMAX) < 0
Kids(l) == [i \in 1..Len(l.k) |-> Idx(l.k[i].v)]
ReAt(re, s) == re[CHOOSE i \in 1..Len(re) : re[i].s = s]

\* the configuration has what the type of node requires
Accepted(nd, cf, re) ==
  /\ Schema(nd.t) # <<>>
  /\ cf.t = "d" /\ FitsDict(cf, Schema(nd.t))
  /\ CASE nd.t \in {"bypass", "option", "once"} -> Has(cf, "child")
       [] nd.t = "many" -> Has(cf, "child") /\ SmallOk(cf, "min") /\ SmallOk(cf, "max")
       [] nd.t \in {"seq", "or"} -> Has(cf, "children")
       [] nd.t = "str" -> Has(cf, "string")
       [] nd.t = "any" -> TRUE
       [] nd.t = "re" -> Has(cf, "pattern") /\ ReAt(re, Str(cf, "pattern", "")).ok
       [] nd.t \in {"int", "uint"} -> BoundsOk(Str(cf, "min", "-"), Str(cf, "max", "-"))
       [] nd.t = "cmd" -> Has(cf, "expr") /\ Has(cf, "children") /\ CmdParse(Str(cf, "expr", "")).ok
       [] nd.t = "cond" -> Has(cf, "expr") /\ Has(cf, "child") /\ CondParse(Str(cf, "expr", "")).ok
       [] nd.t = "re_lex" ->
            /\ Has(cf, "child")
            /\ LET ps == DGet(cf, "patterns").k
               IN \A i \in 1..Len(ps) : /\ Has(ps[i].v, "pattern") /\ Has(ps[i].v, "keep")
                                        /\ ReAt(re, Str(ps[i].v, "pattern", "")).ok

\* the node, with this configuration
Blank(nd) == [t |-> nd.t, id |-> nd.id, c |-> <<>>]
Configured(nd, cf, re) ==
  LET b == Blank(nd)
      one == [b EXCEPT !.c = <<Idx(DGet(cf, "child"))>>]
      list == [b EXCEPT !.c = Kids(DGet(cf, "children"))]
  IN CASE nd.t \in {"bypass", "option", "once"} -> one
       [] nd.t = "many" -> one @@ [min |-> IntOf(Str(cf, "min", "0"), 1, 0), max |-> IntOf(Str(cf, "max", "0"), 1, 0)]
       [] nd.t \in {"seq", "or"} -> list
       [] nd.t = "str" -> b @@ [s |-> Str(cf, "string", "")]
       [] nd.t = "any" -> b @@ [attr |-> Str(cf, "attr", "")]
       [] nd.t = "re" -> b @@ [re |-> ReAt(re, Str(cf, "pattern", "")).re]
       [] nd.t \in {"int", "uint"} ->
            b @@ [min |-> Str(cf, "min", "-"), max |-> Str(cf, "max", "-"),
                  base |-> IntOf(Str(cf, "base", "0"), 1, 0)]
       [] nd.t = "cmd" -> list @@ [s |-> Str(cf, "expr", "")]
       [] nd.t = "cond" -> one @@ [s |-> Str(cf, "expr", "")]
       [] nd.t = "re_lex" ->
            LET ps == DGet(cf, "patterns").k
            IN one @@ [pats |-> [i \in 1..Len(ps) |->
                 [re |-> ReAt(re, Str(ps[i].v, "pattern", "")).re,
                  keep |-> IF Str(ps[i].v, "keep", "0") = "1" THEN 1 ELSE 0,
                  attr |-> Str(ps[i].v, "attr", "")]]]

\* a node that was just created
Fresh(nd) ==
  CASE nd.t = "any" -> Blank(nd) @@ [attr |-> ""]
    [] nd.t \in {"int", "uint"} -> Blank(nd) @@ [min |-> "-", max |-> "-", base |-> 0]
    [] nd.t \in {"seq", "or", "subset", "empty", "none", "space"} -> Blank(nd)
    [] OTHER -> Blank(nd) @@ [unset |-> TRUE]
NCBegin(r) ==
  [g |-> [i \in 1..Len(r.g) |-> Fresh(r.g[i])], cf |-> [i \in 1..Len(r.g) |-> NIL],
   re |-> r.re, r |-> 0]

Dict1(key, v) == Val("d", "", <<[k |-> key, v |-> v]>>)
NodeVal(n) == Val("n", ToString(n), <<>>)
Cur(st, n) == IF IsNil(st.cf[n]) THEN Val("d", "", <<>>) ELSE st.cf[n]
AddTo(cf, key, v) ==
  LET l == IF Has(cf, key) THEN DGet(cf, key) ELSE Val("l", "", <<>>)
  IN DSet(cf, key, [l EXCEPT !.k = Append(@, [k |-> "", v |-> v])])

\* the configuration that an operation asks for
Wanted(st, op) ==
  CASE op.op = "conf" -> op.v
    [] op.op = "str" -> Dict1("string", Val("s", op.s, <<>>))
    [] op.op = "re" -> Dict1("pattern", Val("s", op.s, <<>>))
    [] op.op = "many" ->
         DSet(DSet(DSet(Cur(st, op.n), "child", NodeVal(op.c)), "min", Val("u", ToString(op.min), <<>>)),
              "max", Val("u", ToString(op.max), <<>>))
    [] op.op = "child" -> DSet(Cur(st, op.n), "child", NodeVal(op.c))
    [] op.op = "add" -> AddTo(Cur(st, op.n), "children", NodeVal(op.c))
    [] op.op = "pat" ->
         LET p == Val("d", "", <<[k |-> "pattern", v |-> Val("s", op.s, <<>>)],
                                 [k |-> "keep", v |-> Val("b", ToString(op.keep), <<>>)]>>)
         IN AddTo(Cur(st, op.n), "patterns",
                  IF op.attr = "" THEN p ELSE DSet(p, "attr", Val("s", op.attr, <<>>)))

\* "w": a setter that cannot succeed: that of another type of node, or with
\* no child to set; it changes nothing, and releases the child
NCStep(st, op, obs) ==
  IF op.op \in {"P", "L"} THEN st
  ELSE IF op.op = "w" THEN [st EXCEPT !.r = -1]
  ELSE IF obs.f > 0 /\ obs.r = -1 THEN [st EXCEPT !.r = -1]
  ELSE LET nd == st.g[op.n]
           w == Wanted(st, op)
       IN IF nd.t = "subset" /\ op.op = "add"   \* has no configuration
          THEN [st EXCEPT !.r = 0, !.g[op.n].c = Append(@, op.c)]
          ELSE IF Accepted(nd, w, st.re)
          THEN [st EXCEPT !.r = 0, !.g[op.n] = Configured(nd, w, st.re), !.cf[op.n] = w]
          ELSE [st EXCEPT !.r = -1]
=============================================================================
