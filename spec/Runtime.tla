------------------------------ MODULE Runtime ------------------------------
(* The services of the library that belong to the process: initialization    *)
(* and termination, allocator, logs, registry of the node types.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Chars

\* ents: registered init entries [k, prio, init (0: no function, 1: works, 2: fails), exit]
\* order: the functions called by the last initialization, h: allocator (0: libc)
\* up: 0 before the initialization, 1 after, 2 if it failed
\* names: type of log -> its name, as far as it is known; made: number of new log types
\* cb, tag: function for the logs (0: the default one); level: of the logs
\* reg: registered node types <<name, tag>>, last one first; node: slot -> tag
RtBegin(r) == [ents |-> <<>>, order |-> <<>>, h |-> 0, up |-> 0, names |-> <<>>, made |-> 0, cb |-> 0, tag |-> -1, level |-> 4,
               reg |-> <<>>, node |-> <<>>, want |-> <<>>]

Ent(st, k) == st.ents[CHOOSE i \in 1..Len(st.ents) : st.ents[i].k = k]
Prio(st, k) == Ent(st, k).prio
Index(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
In(s, x) == \E i \in 1..Len(s) : s[i] = x
Distinct(s) == \A i, j \in 1..Len(s) : s[i] = s[j] => i = j
KsOf(st, P(_)) == {st.ents[i].k : i \in {j \in 1..Len(st.ents) : P(st.ents[j])}}

\* the functions are called by increasing priority, each one once, until one fails
InitAllowed(st, calls, ok, nomem) ==
  LET has(e) == e.init # 0  bad(e) == e.init = 2
      all == KsOf(st, has)  failing == KsOf(st, bad)
      ran == {calls[i] : i \in 1..Len(calls)}
  IN /\ Distinct(calls) /\ ran \subseteq all
     /\ \A i, j \in 1..Len(calls) : i < j => Prio(st, calls[i]) <= Prio(st, calls[j])
     /\ \A i \in 1..Len(calls) : \A k \in all : Prio(st, k) < Prio(st, calls[i]) => k \in ran
     /\ \A i \in 1..Len(calls) : calls[i] \in failing => i = Len(calls)
     /\ ok <=> (ran = all /\ failing \cap ran = {} /\ ~nomem)
     /\ ~ok => nomem \/ failing \cap ran # {}
\* all the exit functions, in the reverse order
ExitAllowed(st, calls) ==
  LET has(e) == e.exit = 1  all == KsOf(st, has)
  IN /\ Distinct(calls) /\ {calls[i] : i \in 1..Len(calls)} = all
     /\ \A i, j \in 1..Len(calls) : i < j =>
          /\ Prio(st, calls[i]) >= Prio(st, calls[j])
          /\ In(st.order, calls[i]) /\ In(st.order, calls[j]) => Index(st.order, calls[i]) > Index(st.order, calls[j])

RECURSIVE Spc(_)
Spc(n) == IF n <= 0 THEN "" ELSE " " \o Spc(n - 1)
Known(st, id) == id \in DOMAIN st.names
Learn(st, id, s) == [st EXCEPT !.names = (id :> s) @@ @]
IdOf(st, s) == {i \in DOMAIN st.names : st.names[i] = s}
NameOf(st, id) == IF Known(st, id) THEN st.names[id] ELSE "unknown"

Builtin == {"any", "bypass", "cmd", "cond", "dynamic", "empty", "expr", "file", "int", "uint", "many", "none", "once", "option",
            "or", "re", "re_lex", "seq", "sh_lex", "space", "str", "subset"}
TagOf(st, name) ==
  LET I == {i \in 1..Len(st.reg) : st.reg[i][1] = name}
  IN IF I # {} THEN st.reg[CHOOSE i \in I : \A j \in I : i <= j][2] ELSE IF name \in Builtin THEN 100 ELSE -1
Times(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})

\* want: a boolean, whether the observation is the right one
RtStep(st, op, obs) ==
  LET w(s2, b) == [s2 EXCEPT !.want = b] IN
  CASE op.op = "IR" -> w([st EXCEPT !.ents = Append(@, [k |-> op.k, prio |-> op.prio, init |-> op.init, exit |-> op.exit])], TRUE)
    [] op.op = "II" ->
         w([st EXCEPT !.order = obs.calls, !.up = IF obs.r = 0 THEN 1 ELSE 2, !.level = 4],
           InitAllowed(st, obs.calls, obs.r = 0, obs.f > 0) /\ obs.e = 0 /\ obs.r \in {0, -1})
    [] op.op = "IX" -> w([st EXCEPT !.up = 0, !.order = <<>>, !.level = 4], ExitAllowed(st, obs.calls))
    [] op.op = "MR" ->
         IF op.h \notin {1, 2} THEN w(st, obs.r = -1 /\ obs.e = "EINVAL")
         ELSE IF st.up = 1 THEN w(st, obs.r = -1 /\ obs.e = "EBUSY")
         ELSE w([st EXCEPT !.h = op.h], obs.r = 0)
    [] op.op = "MA" ->
         IF op.ov = 1 THEN w(st, obs.r = -1 /\ obs.e = 0 /\ obs.n = 0)
         ELSE LET fails == obs.f > 0
              IN w(st, /\ obs.r = (IF fails THEN -1 ELSE 0) /\ obs.e = 0 /\ obs.ok = 1
                       /\ obs.h = st.h /\ obs.n = (IF st.h = 0 THEN 0 ELSE 1)
                       /\ st.h # 0 => obs.ask = op.size)
    [] op.op = "MF" -> w(st, obs.h = st.h /\ obs.n = (IF st.h = 0 THEN 0 ELSE 1))
    [] op.op = "LT" ->
         LET I == IdOf(st, op.s) IN
         IF I # {} THEN w(st, obs.r \in I /\ obs.s = op.s)
         ELSE IF obs.r = -1 THEN w(st, obs.f > 0 /\ obs.s = "unknown")
         ELSE w([Learn(st, obs.r, op.s) EXCEPT !.made = @ + 1], obs.r >= 0 /\ ~Known(st, obs.r) /\ obs.s = op.s)
    [] op.op = "LN" ->
         IF Known(st, op.id) THEN w(st, obs.s = st.names[op.id])
         ELSE IF op.id < 0 \/ op.id >= 1000 THEN w(st, obs.s = "unknown")
         ELSE IF obs.s = "unknown" THEN w(st, TRUE)
         ELSE w(Learn(st, op.id, obs.s), IdOf(st, obs.s) = {})
    [] op.op = "LF" -> w([st EXCEPT !.cb = op.cb, !.tag = IF op.tag = 0 THEN -1 ELSE op.tag], obs.r = 0)
    [] op.op = "LL" -> IF op.l \in 0..7 THEN w([st EXCEPT !.level = op.l], obs.r = 0 /\ obs.l = op.l)
                       ELSE w(st, obs.r = -1 /\ obs.l = st.level)
    [] op.op = "LG" ->
         LET text == op.s \o "/" \o ToString(op.num) \o "\n" name == NameOf(st, op.id)
         IN IF st.cb # 0
            THEN w(st, /\ obs.cb = st.cb /\ obs.t = op.id /\ obs.l = op.l /\ obs.tag = st.tag /\ obs.s = text /\ obs.err = ""
                       /\ obs.r = (IF st.cb = 1 THEN 0 ELSE 7))
            ELSE w(st, /\ obs.cb = 0 /\ obs.r = 0
                       /\ obs.err = IF op.l > st.level THEN ""
                                    ELSE "[" \o ToString(op.l) \o "] " \o name \o Spc(12 - Len(name)) \o " " \o text)
    [] op.op = "NT" ->
         IF op.over = 0 /\ TagOf(st, op.s) # -1 THEN w(st, obs.r = -1 /\ obs.e = "EEXIST")
         ELSE w([st EXCEPT !.reg = <<<<op.s, op.tag>>>> \o @], obs.r = 0)
    [] op.op = "NL" -> w(st, obs.r = TagOf(st, op.s) /\ (obs.r = -1 => obs.e = "ENOENT"))
    [] op.op = "NN" -> w([st EXCEPT !.node = (op.i :> [tag |-> TagOf(st, op.s), s |-> op.s]) @@ @], obs.r = TagOf(st, op.s))
    [] op.op = "NQ" ->
         IF op.i \notin DOMAIN st.node \/ st.node[op.i].tag = -1 THEN w(st, obs.r = -1)
         ELSE w(st, obs.r = st.node[op.i].tag /\ obs.s = st.node[op.i].s)
    [] op.op = "ND" ->
         LET names == Builtin \cup {st.reg[i][1] : i \in 1..Len(st.reg)}
         IN w(st, \A x \in names : Times(obs.v, x) = Times([i \in 1..Len(st.reg) |-> st.reg[i][1]], x)
                                                     + (IF x \in Builtin THEN 1 ELSE 0))
    [] op.op = "Z" -> w([st EXCEPT !.node = <<>>], st.up # 0 \/ obs.live <= st.made + 1)
RtAccept(st, op, obs) == st.want
RtExpected(st, op, obs) == [x \in (DOMAIN st) \ {"want", "names"} |-> st[x]]
=============================================================================
