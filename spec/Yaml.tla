-------------------------------- MODULE Yaml --------------------------------
(* Import of a grammar from a YAML document. A document is the sequence of   *)
(* its nodes [k, s, l, p]: k is "s" (scalar s), "l" (sequence: l lists the   *)
(* indexes of its items) or "m" (mapping: p lists its pairs [k, v] of        *)
(* indexes); an alias is one more reference to the same index. The root is   *)
(* the first; there is none in an empty document.                            *)
EXTENDS NodeConf

\* a number, in decimal
Pad(n) == SubSeq(ToString(10000 + n), 2, 5)
RECURSIVE Limbs(_)
Limbs(m) == IF m = <<>> THEN "" ELSE Limbs(Tail(m)) \o Pad(Head(m))
RECURSIVE NoZeros(_)
NoZeros(s) == IF Len(s) > 1 /\ Ch(s, 1) = "0" THEN NoZeros(From(s, 2)) ELSE s
Decimal(v) == IF v.mag = <<>> THEN "0" ELSE (IF v.neg THEN "-" ELSE "") \o NoZeros(Limbs(v.mag))

RECURSIVE Lower(_)
Lower(s) == IF s = "" THEN ""
            ELSE LET d == DigitVal(Ch(s, 1))
                 IN (IF d < 36 THEN SubSeq(DigitChars, d + 1, d + 1) ELSE Ch(s, 1)) \o Lower(From(s, 2))

YFail == [ok |-> FALSE, v |-> NIL]
Good(v) == [ok |-> TRUE, v |-> v]
Scalar(y, i) == y[i].k = "s"
\* the value of a node of the document, for an element e of a schema
RECURSIVE YVal(_, _, _), YList(_, _, _, _), YDict(_, _, _, _)
YVal(y, i, e) ==
  LET s == y[i].s n == ReadNum(s, 0) IN
  CASE e.t = "n" -> Good(Val("n", ToString(i), <<>>))
    [] e.t = "l" -> IF y[i].k = "l" THEN YList(y, y[i].l, e.sub[1], <<>>) ELSE YFail
    [] e.t = "d" -> IF y[i].k = "m" THEN YDict(y, y[i].p, e.sub, Val("d", "", <<>>)) ELSE YFail
    [] ~Scalar(y, i) -> YFail
    [] e.t = "b" -> IF Lower(s) = "true" THEN Good(Val("b", "1", <<>>))
                    ELSE IF Lower(s) = "false" THEN Good(Val("b", "0", <<>>)) ELSE YFail
    [] e.t = "i" -> IF n.ok /\ Cmp(n.v, I64MIN) >= 0 /\ Cmp(n.v, I64MAX) <= 0
                    THEN Good(Val("i", Decimal(n.v), <<>>)) ELSE YFail
    [] e.t = "u" -> IF n.ok /\ ~n.minus /\ Cmp(n.v, U64MAX) <= 0 THEN Good(Val("u", Decimal(n.v), <<>>)) ELSE YFail
    [] e.t = "s" -> Good(Val("s", s, <<>>))
YList(y, l, e, acc) ==
  IF l = <<>> THEN Good(Val("l", "", acc))
  ELSE LET r == YVal(y, Head(l), e)
       IN IF r.ok THEN YList(y, Tail(l), e, Append(acc, [k |-> "", v |-> r.v])) ELSE YFail
\* the pairs of a mapping, as a dictionary; the reserved keys are skipped,
\* the last value of a key is the one that counts
YDict(y, p, sc, acc) ==
  IF p = <<>> THEN Good(acc)
  ELSE LET h == Head(p) key == y[h.k].s IN
       IF ~Scalar(y, h.k) THEN YFail
       ELSE IF key \in Reserved THEN YDict(y, Tail(p), sc, acc)
       ELSE LET J == {j \in 1..Len(sc) : sc[j].key = key}
            IN IF J = {} THEN YFail
               ELSE LET r == YVal(y, h.v, sc[CHOOSE j \in J : TRUE])
                    IN IF r.ok THEN YDict(y, Tail(p), sc, DSet(acc, key, r.v)) ELSE YFail

\* the pairs of the mapping i with this key
Pairs(y, i, key) == {j \in 1..Len(y[i].p) : y[y[i].p[j].k].k = "s" /\ y[y[i].p[j].k].s = key}
PairOf(y, i, key) == y[i].p[CHOOSE j \in Pairs(y, i, key) : TRUE].v
YType(y, i) == y[PairOf(y, i, "type")].s
YId(y, i) == IF Pairs(y, i, "id") = {} THEN "" ELSE y[PairOf(y, i, "id")].s

\* attributes: the help, then those of "attrs"
RECURSIVE YAttrs(_, _, _)
YAttrs(y, p, acc) ==
  IF p = <<>> THEN acc ELSE YAttrs(y, Tail(p), DSet(acc, y[Head(p).k].s, Val("s", y[Head(p).v].s, <<>>)))
AttrsOf(y, i) ==
  LET d0 == Val("d", "", <<>>)
      d1 == IF Pairs(y, i, "help") = {} THEN d0
            ELSE DSet(d0, "help", Val("s", y[PairOf(y, i, "help")].s, <<>>))
  IN IF Pairs(y, i, "attrs") = {} THEN d1 ELSE YAttrs(y, y[PairOf(y, i, "attrs")].p, d1)

YConf(y, i) == YDict(y, y[i].p, Schema(YType(y, i)), Val("d", "", <<>>))
\* the nodes of the document that are used as nodes of the grammar by an
\* element of a schema (even if the value is replaced afterwards)
RECURSIVE Uses(_, _, _), UsesDict(_, _, _)
Uses(y, i, e) ==
  CASE e.t = "n" -> {i}
    [] e.t = "l" -> IF y[i].k = "l" THEN UNION {Uses(y, y[i].l[j], e.sub[1]) : j \in 1..Len(y[i].l)} ELSE {}
    [] e.t = "d" -> IF y[i].k = "m" THEN UsesDict(y, i, e.sub) ELSE {}
    [] OTHER -> {}
UsesDict(y, i, sc) ==
  UNION {UNION {Uses(y, y[i].p[j].v, sc[k]) : k \in {k \in 1..Len(sc) :
           Scalar(y, y[i].p[j].k) /\ sc[k].key = y[y[i].p[j].k].s}} : j \in 1..Len(y[i].p)}

\* the node i of the document, by itself, describes a node of a grammar
HasType(y, i) ==
  /\ y[i].k = "m"
  /\ \A j \in 1..Len(y[i].p) : Scalar(y, y[i].p[j].k)
  /\ Cardinality(Pairs(y, i, "type")) = 1 /\ Scalar(y, PairOf(y, i, "type"))
  /\ Schema(YType(y, i)) # <<>>
YOk(y, i, re) ==
  /\ HasType(y, i)
  /\ \A key \in {"id", "help"} : /\ Cardinality(Pairs(y, i, key)) <= 1
                                 /\ Pairs(y, i, key) # {} => Scalar(y, PairOf(y, i, key))
  /\ Cardinality(Pairs(y, i, "attrs")) <= 1
  /\ Pairs(y, i, "attrs") # {} =>
       LET a == PairOf(y, i, "attrs")
       IN y[a].k = "m" /\ \A j \in 1..Len(y[a].p) : Scalar(y, y[a].p[j].k) /\ Scalar(y, y[a].p[j].v)
  /\ LET c == YConf(y, i)
     IN c.ok /\ Accepted([t |-> YType(y, i), id |-> YId(y, i), c |-> <<>>], c.v, re)

RECURSIVE YReach(_, _, _)
YReach(y, todo, seen) ==
  IF todo = {} THEN seen
  ELSE LET s2 == seen \cup todo
           more == UNION {IF HasType(y, i) THEN UsesDict(y, i, Schema(YType(y, i))) ELSE {} : i \in todo}
       IN YReach(y, more \ s2, s2)

\* the order of the nodes: each before those of its configuration
RECURSIVE RefsOf(_)
RefsOf(v) == IF v.t = "n" THEN <<Idx(v)>> ELSE FlatSeq([j \in 1..Len(v.k) |-> RefsOf(v.k[j].v)])
RECURSIVE Order(_, _, _)
Order(y, todo, acc) ==
  IF todo = <<>> THEN acc
  ELSE LET i == Head(todo)
       IN IF i \in SetOf(acc) THEN Order(y, Tail(todo), acc)
          ELSE Order(y, RefsOf(YConf(y, i).v) \o Tail(todo), Append(acc, i))
PosIn(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
RECURSIVE Renum(_, _)
Renum(v, ord) ==
  IF v.t = "n" THEN Val("n", ToString(PosIn(ord, Idx(v))), <<>>)
  ELSE [v EXCEPT !.k = [j \in 1..Len(v.k) |-> [k |-> v.k[j].k, v |-> Renum(v.k[j].v, ord)]]]

\* the grammar of a document: [ok, g, cf, at]
Import(y, re) ==
  IF y = <<>> \/ \E i \in YReach(y, {1}, {}) : ~YOk(y, i, re) THEN [ok |-> FALSE, g |-> <<>>, cf |-> <<>>, at |-> <<>>]
  ELSE LET ord == Order(y, <<1>>, <<>>)
           cf == [i \in 1..Len(ord) |-> Renum(YConf(y, ord[i]).v, ord)]
       IN [ok |-> TRUE,
           g |-> [i \in 1..Len(ord) |->
                    Configured([t |-> YType(y, ord[i]), id |-> YId(y, ord[i]), c |-> <<>>], cf[i], re)],
           cf |-> cf, at |-> [i \in 1..Len(ord) |-> AttrsOf(y, ord[i])]]

YBegin(r) == [ok |-> FALSE, g |-> <<>>, cf |-> <<>>, at |-> <<>>]
\* an import that fails for lack of memory is the only one that may differ
YStep(st, op, obs) ==
  IF op.op # "YI" THEN st
  ELSE IF obs.f > 0 /\ obs.r = -1 THEN YBegin(<<>>)
  ELSE Import(op.y, op.re)
=============================================================================
