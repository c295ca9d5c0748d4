------------------------------- MODULE JDump -------------------------------
(* A grammar that is examined: the children of its nodes are those that were *)
(* given, and the dumps and searches agree with it.                          *)
EXTENDS Dump, GrammarView, Trace

\* do the nodes have other children than the ones that were given?
Opaque(t) == t \in {"cmd", "expr"}
\* (a str node that has no string yet can be described in any way)
DescOk(nd, d) == Unset(nd) \/ d = (IF nd.t = "str" THEN nd.s ELSE "<" \o nd.t \o ">")
\* the nodes that were given to an expression
GivenTo(nd) == SetOf(nd.bin) \cup SetOf(nd.pre) \cup SetOf(nd.post) \cup UNION {SetOf(nd.par[i]) : i \in 1..Len(nd.par)}
               \cup ({nd.val} \ {0})
\* the grammar seen through the accessors
GraphOk(g, o) ==
  \A i \in 1..Len(o) :
    /\ o[i].t = o[i].t2 /\ o[i].x = 0
    /\ LET n == o[i].n IN
       n # 0 => /\ o[i].i = g[n].id
                /\ o[i].t = g[n].t
                /\ DescOk(g[n], o[i].d)
                /\ LET ks == [j \in 1..Len(o[i].k) |-> o[o[i].k[j]].n]
                   IN IF g[n].t = "cmd" THEN SetOf(ks) \ {0} = SetOf(g[n].c)
                      ELSE IF g[n].t = "expr" THEN SetOf(ks) \ {0} = GivenTo(g[n])
                      ELSE IF g[n].t = "dynamic" THEN ks = <<>>
                      ELSE ks = g[n].c
\* the nodes that can be reached
Below(nd) == CASE nd.t = "expr" -> GivenTo(nd) [] nd.t = "dynamic" -> {} [] OTHER -> SetOf(nd.c)
RECURSIVE Under(_, _)
Under(g, R) == LET R2 == R \cup UNION {Below(g[n]) : n \in R} IN IF R2 = R THEN R ELSE Under(g, R2)
AsGraph(g) == [i \in 1..Len(g) |-> [i |-> g[i].id, k |-> IF g[i].t = "dynamic" THEN <<>> ELSE g[i].c]]

DuBegin(r) == [g |-> r.g, want |-> <<>>]
DuStep(st, op, obs) ==
  [st EXCEPT !.want =
     CASE op.op = "IG" -> GraphDump(obs.g)
       [] op.op = "IF" /\ \E i \in 1..Len(st.g) : Opaque(st.g[i].t) -> <<-1>>
       [] op.op = "IF" -> <<FindNode(AsGraph(st.g), op.n, op.id, {})[1]>>
       [] op.op = "IP" -> TreeDump(obs.t)
       [] op.op = "IL" -> CompDump(obs.cnt, obs.g) \o (IF obs.st = <<>> THEN <<>> ELSE TreeDump(obs.st))
       [] op.op = "IV" -> <<VecText(op.v)>>
       [] op.op = "IC" -> ConfDump(obs.v)
       [] op.op = "IS" -> SchemaLines(op.sc, 0)
       [] op.op = "ID" -> DictDump(obs.it)
       [] op.op \in {"IT", "IX", "I0"} -> <<>>]
DuAccept(st, op, obs) ==
  CASE op.op = "IG" -> GraphOk(st.g, obs.g) /\ obs.l = st.want
    \* when there are nodes built by the library, one of those that have this identifier
    [] op.op = "IF" /\ st.want = <<-1>> ->
         LET s == {n \in Under(st.g, {op.n}) : st.g[n].id = op.id}
         IN IF s = {} THEN obs.n = 0 ELSE obs.n \in s
    [] op.op = "IF" -> obs.n = st.want[1]
    [] op.op = "IL" -> obs.l \o obs.sl = st.want
    [] op.op = "IC" -> Same(op.v, obs.v) /\ obs.l = st.want
    [] op.op = "ID" -> VisitOk(op.v, obs.it) /\ obs.l = st.want /\ obs.h = TableDump(obs.it)
    \* there is always something to tell
    [] op.op = "I0" -> Len(obs.l) = 8
    [] op.op = "IX" -> obs.leak = 0
    [] op.op = "IT" -> /\ \A i \in 1..Len(obs.l) : \A j \in 1..Len(obs.l) : obs.l[i] = obs.l[j] => i = j
                       /\ \A i \in 1..Len(op.types) : \E j \in 1..Len(obs.l) : obs.l[j] = op.types[i]
    [] OTHER -> obs.l = st.want
DuExpected(st, op, obs) == [want |-> st.want]
=============================================================================
