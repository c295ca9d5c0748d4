-------------------------------- MODULE Dump --------------------------------
(* What the library tells about its objects. The search of a node, and the   *)
(* dumps: one line for each element, under the one it belongs to, whatever   *)
(* the shape of the object; a grammar can have loops.                        *)
EXTENDS Config

RECURSIVE Blanks(_)
Blanks(n) == IF n = 0 THEN "" ELSE " " \o Blanks(n - 1)
Indent(d) == Blanks(4 * d)

RECURSIVE JoinText(_, _)
JoinText(v, sep) == IF v = <<>> THEN "" ELSE IF Len(v) = 1 THEN v[1] ELSE v[1] \o sep \o JoinText(Tail(v), sep)

-----------------------------------------------------------------------------
(* A grammar: a sequence of nodes [n, t, i, d, k], k the children.           *)
NodeLine(g, n, d) ==
  Indent(d) \o g[n].d \o " type=" \o g[n].t \o " id=" \o g[n].i \o " @" \o ToString(n)
\* <<lines, nodes already shown>>
RECURSIVE NodeLines(_, _, _, _), ListLines(_, _, _, _)
NodeLines(g, n, d, done) ==
  IF n \in done THEN <<<<NodeLine(g, n, d) \o "... (loop)">>, done>>
  ELSE LET r == ListLines(g, g[n].k, d + 1, done \cup {n})
       IN <<<<NodeLine(g, n, d)>> \o r[1], r[2]>>
ListLines(g, l, d, done) ==
  IF l = <<>> THEN <<<<>>, done>>
  ELSE LET a == NodeLines(g, l[1], d, done)
           b == ListLines(g, Tail(l), d, a[2])
       IN <<a[1] \o b[1], b[2]>>
GraphDump(g) == NodeLines(g, 1, 0, {})[1]

\* the first node with this identifier, depth first; <<found, nodes visited>>
RECURSIVE FindNode(_, _, _, _), FindNodeIn(_, _, _, _)
FindNode(g, n, id, done) ==
  IF g[n].i = id THEN <<n, done>>
  ELSE IF n \in done THEN <<0, done>>
  ELSE FindNodeIn(g, g[n].k, id, done \cup {n})
FindNodeIn(g, l, id, done) ==
  IF l = <<>> THEN <<0, done>>
  ELSE LET a == FindNode(g, l[1], id, done)
       IN IF a[1] # 0 THEN a ELSE FindNodeIn(g, Tail(l), id, a[2])

-----------------------------------------------------------------------------
(* A parse tree: [t, i, d, x, m, k], m being the strings when x = 1.         *)
VecText(m) == "strvec (len=" \o ToString(Len(m)) \o ") [" \o JoinText(m, ", ") \o "]"
RECURSIVE TreeLines(_, _), TreesLines(_, _)
TreeLines(t, d) ==
  <<Indent(d) \o t.d \o " type=" \o t.t \o " id=" \o t.i \o " vec=" \o (IF t.x = 1 THEN VecText(t.m) ELSE "none")>>
    \o TreesLines(t.k, d + 1)
TreesLines(l, d) == IF l = <<>> THEN <<>> ELSE TreeLines(l[1], d) \o TreesLines(Tail(l), d)
TreeDump(ts) == IF ts = <<>> THEN <<"pnode is NULL">>
                ELSE IF ts[1].x = 0 /\ ts[1].k = <<>> THEN <<"no match">>
                ELSE TreeLines(ts[1], 0)

-----------------------------------------------------------------------------
(* A list of completions: [cnt, g], g the groups [n, t, it].                 *)
ItemLine(it) == "  type=" \o it.t \o " str=<" \o it.s \o "> comp=<" \o it.c \o "> disp=<" \o it.d \o ">"
RECURSIVE GroupsLines(_)
GroupsLines(g) ==
  IF g = <<>> THEN <<>>
  ELSE <<"node=@" \o ToString(g[1].n) \o ", node_type=" \o g[1].t>>
         \o [i \in 1..Len(g[1].it) |-> ItemLine(g[1].it[i])] \o GroupsLines(Tail(g))
CompDump(cnt, g) ==
  IF cnt[1] = 0 THEN <<"no completion">>
  ELSE <<"completion: count=" \o ToString(cnt[1]) \o " full=" \o ToString(cnt[2]) \o " partial=" \o ToString(cnt[3])
           \o " unknown=" \o ToString(cnt[4])>> \o GroupsLines(g)

-----------------------------------------------------------------------------
(* A dictionary, from the elements that were set, in order: the last value   *)
(* of each key. [it] is the order in which it is visited.                    *)
RECURSIVE LastSet(_, _)
LastSet(v, m) == IF v = <<>> THEN m ELSE LastSet(Tail(v), (v[1].k :> v[1].v) @@ m)
DictOf(v) == LastSet(v, <<>>)
VisitOk(v, it) ==
  LET m == DictOf(v)
  IN Len(it) = Cardinality(DOMAIN m) /\ {<<it[i].k, it[i].v>> : i \in 1..Len(it)} = {<<k, m[k]>> : k \in DOMAIN m}
DictDump(it) == <<"dict:">> \o [i \in 1..Len(it) |->
                  "  " \o it[i].k \o ": " \o (IF it[i].v = 0 THEN "(nil)" ELSE "@" \o ToString(it[i].v))]
TableDump(it) == <<"htable: " \o ToString(Len(it)) \o " elements">>

-----------------------------------------------------------------------------
(* Configurations and schemas.                                               *)
TypeText(t) == CASE t = "b" -> "bool" [] t = "i" -> "int64" [] t = "u" -> "uint64" [] t = "s" -> "string"
                 [] t = "n" -> "node" [] t = "l" -> "list" [] t = "d" -> "dict"
KeyText(has, key) == IF has THEN "key=" \o key \o " " ELSE ""
ValText(v) == CASE v.t = "b" -> IF v.s = "1" THEN "true" ELSE "false"
                [] v.t = "n" -> "@" \o v.s
                [] OTHER -> v.s
RECURSIVE ConfLines(_, _, _, _), ElemsLines(_, _, _)
ConfLines(v, has, key, d) ==
  LET head == Indent(d) \o KeyText(has, key) \o "type=" \o TypeText(v.t)
  IN IF v.t \in {"l", "d"} THEN <<head>> \o ElemsLines(v.k, v.t = "d", d + 1)
     ELSE <<head \o " val=" \o ValText(v)>>
ElemsLines(k, has, d) ==
  IF k = <<>> THEN <<>> ELSE ConfLines(k[1].v, has, k[1].k, d) \o ElemsLines(Tail(k), has, d)
ConfDump(v) == ConfLines(v, FALSE, "", 0)

RECURSIVE SchemaLines(_, _)
SchemaLines(sc, d) ==
  IF sc = <<>> THEN <<>>
  ELSE LET e == sc[1]
       IN <<Indent(d) \o KeyText(e.key # NOKEY, e.key) \o "type=" \o TypeText(e.t) \o " desc='d'">>
            \o (IF e.has THEN SchemaLines(e.sub, d + 1) ELSE <<>>) \o SchemaLines(Tail(sc), d)
=============================================================================
