-------------------------------- MODULE Edit --------------------------------
(* Line edition: the state holds the line and the position of the cursor,    *)
(* the history and the content of its file. The keys ask for completions and *)
(* contextual help, that the Grammar module defines.                         *)
EXTENDS Grammar

\* ---------------------------------------------------------------- completion
Proposals(c) == LET all == FlatSeq([i \in 1..Len(c.g) |-> c.g[i].it]) ok(x) == x.t # "unknown"
                IN SelectSeq(all, ok)
RECURSIVE Common(_, _)
Common(a, b) == IF a = "" \/ b = "" \/ Ch(a, 1) # Ch(b, 1) THEN "" ELSE Ch(a, 1) \o Common(From(a, 2), From(b, 2))
Ext(it) == IF it.c = NOCOMP THEN "" ELSE it.c
RECURSIVE CommonAll(_, _)
CommonAll(its, acc) == IF its = <<>> THEN acc ELSE CommonAll(Tail(its), Common(acc, Ext(Head(its))))
\* the characters to add: the longest that all the proposals begin with
Added(its) == IF its = <<>> THEN "" ELSE CommonAll(Tail(its), Ext(its[1]))

RECURSIVE Spc(_)
Spc(n) == IF n <= 0 THEN "" ELSE " " \o Spc(n - 1)
LeftPad(s, n) == s \o Spc(n - Len(s))
\* without regard to the case
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Lower == "abcdefghijklmnopqrstuvwxyz"
LowTable == [c \in {Ch(Upper, i) : i \in 1..26} |-> Ch(Lower, CHOOSE i \in 1..26 : Ch(Upper, i) = c)]
Low1(c) == IF c \in DOMAIN LowTable THEN LowTable[c] ELSE c
RECURSIVE LowS(_)
LowS(s) == IF s = "" THEN "" ELSE Low1(Ch(s, 1)) \o LowS(From(s, 2))
RECURSIVE Insert(_, _), Sorted(_)
Insert(s, x) == IF s = <<>> THEN <<x>>
                ELSE IF StrLe(LowS(x), LowS(Head(s))) THEN <<x>> \o s ELSE <<Head(s)>> \o Insert(Tail(s), x)
Sorted(s) == IF s = <<>> THEN <<>> ELSE Insert(Sorted(Tail(s)), Head(s))
RECURSIVE MaxLen(_), Rows(_, _, _, _)
MaxLen(s) == IF s = <<>> THEN 0 ELSE Max2(Len(Head(s)), MaxLen(Tail(s)))
Rows(s, i, ncols, w) ==
  IF i > Len(s) THEN ""
  ELSE (IF (i - 1) % ncols = 0 THEN "" ELSE "    ") \o LeftPad(s[i], w)
       \o (IF i % ncols = 0 \/ i = Len(s) THEN "\n" ELSE "") \o Rows(s, i + 1, ncols, w)
\* the list of the proposals, in columns
ColumnsOf(words, width) ==
  LET s == Sorted(words) w == MaxLen(s)
  IN "\n" \o Rows(s, 1, Max2(1, width \div (w + 4)), w)
Columns(its, width) == ColumnsOf([i \in 1..Len(its) |-> its[i].d], width)

\* ---------------------------------------------------------------------- help
Desc(nd) == IF nd.t = "str" THEN nd.s ELSE "<" \o nd.t \o ">"
\* the nodes from the root to the current position, in the state of a group
RECURSIVE Branch(_, _)
Branch(tr, p) == IF p = <<>> THEN <<tr.n>> ELSE <<tr.n>> \o Branch(tr.k[Head(p)], Tail(p))
HelpOf(g, br) ==
  LET I == {i \in 1..Len(br) : br[i] # 0 /\ "help" \in DOMAIN g[br[i]]}
  IN IF I = {} THEN "" ELSE g[br[CHOOSE i \in I : \A j \in I : j <= i]].help
Helps(g, n, line, full) ==
  LET p == ParseRoot(g, n, Toks(<<full>>)) c == CompRoot(g, n, Toks(<<line>>))
      ret == IF p.r = "match" THEN <<[d |-> "<return>", h |-> "Validate command."]>> ELSE <<>>
  IN IF c.e THEN [r |-> -1, h |-> <<>>]
     ELSE LET h == ret \o [i \in 1..Len(c.g) |-> [d |-> Desc(g[c.g[i].n]), h |-> HelpOf(g, Branch(c.g[i].st, c.g[i].p))]]
          IN [r |-> Len(h), h |-> h]
RECURSIVE HelpText(_)
HelpText(h) == IF h = <<>> THEN ""
               ELSE LeftPad(Head(h).d, 20) \o " " \o Head(h).h \o "\n" \o HelpText(Tail(h))

\* what could come next: at the end of the longest prefix of complete words
\* that is valid so far
RECURSIVE Suggest(_, _, _, _)
Suggest(g, n, line, i) ==
  IF i > 0 /\ Ch(line, i) \notin Spaces THEN Suggest(g, n, line, i - 1)
  ELSE LET pre == SubSeq(line, 1, i)
           p == ParseRoot(g, n, Toks(<<pre>>)) c == CompRoot(g, n, Toks(<<pre>>))
       IN IF p.r = "err" \/ c.e THEN [r |-> -1, h |-> <<>>, pos |-> -7]
          ELSE IF p.r = "match" \/ c.g # <<>>
          THEN LET h == Helps(g, n, pre, pre) IN [r |-> h.r, h |-> h.h, pos |-> i]
          ELSE IF i = 0 THEN [r |-> 0, h |-> <<>>, pos |-> -7]
          ELSE Suggest(g, n, line, i - 1)

\* -------------------------------------------------------------------- edition
Put(l, pos, s) == SubSeq(l, 1, pos) \o s \o From(l, pos + 1)
CC_REFRESH == 4
CC_ERROR == 6
CC_REDISPLAY == 8
\* a key that completes: [line, pos, out, r]
Key(g, n, line, pos, key, width) ==
  LET pre == SubSeq(line, 1, pos)
      c == CompRoot(g, n, Toks(<<pre>>))
      its == Proposals(c)
      ad == Added(its) \o (IF Len(its) = 1 /\ its[1].t = "full" THEN " " ELSE "")
  IN IF c.e THEN [line |-> line, pos |-> pos, out |-> "", r |-> CC_ERROR]
     ELSE IF key = "?"
     THEN [line |-> line, pos |-> pos, r |-> CC_REDISPLAY, out |-> "\n" \o HelpText(Helps(g, n, pre, line).h)]
     ELSE IF Added(its) = "" THEN [line |-> line, pos |-> pos, out |-> Columns(its, width), r |-> CC_REDISPLAY]
     ELSE [line |-> Put(line, pos, ad), pos |-> pos + Len(ad), out |-> "", r |-> CC_REFRESH]

\* keys typed on a terminal, until the end of the line. x: the line, the
\* cursor, the texts that were shown, the place in the history (0: the line
\* that is being written, which is saved when it is left). comp: are the
\* completions enabled
WordChars == {Ch(Ascii, i) : i \in {j \in 1..95 : DigitVal(Ch(Ascii, j)) < 99}} \cup {"*", "?", "_", "-", ".", "[", "]", "~", "="}
RECURSIVE BackW(_, _), BackN(_, _)
BackW(l, i) == IF i > 0 /\ Ch(l, i) \in WordChars THEN BackW(l, i - 1) ELSE i
BackN(l, i) == IF i > 0 /\ Ch(l, i) \notin WordChars THEN BackN(l, i - 1) ELSE i
Cut(x, a, b) == [x EXCEPT !.line = SubSeq(x.line, 1, a) \o From(x.line, b + 1), !.pos = a]
Recall(x, h, e) ==
  LET k == Max2(0, Min2(Len(h), e))
      l == IF k = 0 THEN (IF x.ev = 0 THEN x.line ELSE x.saved) ELSE h[Len(h) + 1 - k]
      l1 == IF k > 0 /\ l # "" /\ Ch(l, Len(l)) = " " THEN SubSeq(l, 1, Len(l) - 1) ELSE l
  IN [x EXCEPT !.line = l1, !.pos = Len(l1), !.ev = k, !.saved = IF x.ev = 0 THEN x.line ELSE @]
RECURSIVE Typed(_, _, _, _, _, _)
Typed(g, n, keys, comp, h, x) ==
  IF keys = <<>> THEN x
  ELSE LET k == Head(keys) line == x.line pos == x.pos
           y == CASE k = "TAB" \/ (k = "?" /\ comp) ->
                      LET z == Key(g, n, line, pos, IF k = "TAB" THEN "\t" ELSE "?", 80)
                      IN [x EXCEPT !.line = z.line, !.pos = z.pos, !.shown = IF z.out = "" THEN @ ELSE Append(@, z.out)]
                  [] k = "HOME" -> [x EXCEPT !.pos = 0]
                  [] k = "END" -> [x EXCEPT !.pos = Len(line)]
                  [] k = "LEFT" -> [x EXCEPT !.pos = Max2(0, pos - 1)]
                  [] k = "RIGHT" -> [x EXCEPT !.pos = Min2(Len(line), pos + 1)]
                  [] k = "BACK" -> Cut(x, Max2(0, pos - 1), pos)
                  [] k = "KILL" -> Cut(x, pos, Len(line))
                  [] k = "KILLALL" -> Cut(x, 0, Len(line))
                  [] k = "DELWORD" -> Cut(x, BackW(line, BackN(line, pos)), pos)
                  [] k = "PREV" -> Recall(x, h, x.ev + 1)
                  [] k = "NEXT" -> Recall(x, h, x.ev - 1)
                  [] OTHER -> [x EXCEPT !.line = Put(line, pos, k), !.pos = pos + 1]
       IN Typed(g, n, Tail(keys), comp, h, y)
Untyped == [line |-> "", pos |-> 0, shown |-> <<>>, ev |-> 0, saved |-> ""]
\* the marks around what has no width are not shown
RECURSIVE Visible(_)
Visible(p) == IF p = "" THEN "" ELSE (IF Ch(p, 1) = "\t" THEN "" ELSE Ch(p, 1)) \o Visible(From(p, 2))
RECURSIVE FlatStr(_)
FlatStr(s) == IF s = <<>> THEN "" ELSE Head(s) \o FlatStr(Tail(s))
RECURSIVE After(_, _)
\* what follows the first occurrence of t in s; "none" if there is none
After(s, t) == IF StartsWith(s, t) THEN [ok |-> TRUE, s |-> From(s, Len(t) + 1)]
               ELSE IF s = "" THEN [ok |-> FALSE, s |-> ""] ELSE After(From(s, 2), t)
RECURSIVE ShownIn(_, _)
ShownIn(out, texts) == texts = <<>> \/ (LET a == After(out, Head(texts)) IN a.ok /\ ShownIn(a.s, Tail(texts)))

\* -------------------------------------------------------------------- history
Blank1(s) == \A i \in 1..Len(s) : Ch(s, i) \in Spaces
Last(s) == s[Len(s)]
LastN(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))
RECURSIVE Enter(_, _, _)
Enter(h, lines, size) ==
  IF lines = <<>> THEN h
  ELSE LET x == Head(lines)
       IN Enter(IF h # <<>> /\ Last(h) = x THEN h ELSE LastN(Append(h, x), size), Tail(lines), size)

\* ----------------------------------------------------------------------- steps
\* size: of the history (0: none), file: is it saved, disk: what is saved,
\* read: a line was read, what the buffer holds is not specified
EdBegin(r) == [g |-> r.g, n |-> 0, up |-> FALSE, line |-> "", pos |-> 0, hist |-> <<>>, size |-> 0, file |-> FALSE,
               disk |-> <<>>, r |-> 0, ret |-> "", out |-> "", helps |-> <<>>, p |-> -7, read |-> FALSE,
               prompt |-> "> ", comp |-> TRUE, ms |-> <<>>, shown |-> <<>>]
Quiet(st) == [st EXCEPT !.r = 0, !.ret = "", !.out = "", !.helps = <<>>, !.p = -7, !.ms = <<>>, !.shown = <<>>]
NoMem(obs) == obs.f > 0
\* without memory to parse the line, it is not said that it can be validated
Lessened(h, obs) ==
  IF NoMem(obs) /\ h.r > 0 /\ h.h[1].d = "<return>" /\ obs.r = h.r - 1
  THEN [h EXCEPT !.r = @ - 1, !.h = Tail(@)] ELSE h
Entered(st, s) ==
  IF st.size = 0 \/ Blank1(s) THEN st
  ELSE LET h == Enter(st.hist, <<s>>, st.size) IN [st EXCEPT !.hist = h, !.disk = IF st.file THEN h ELSE @]
EdStep(st0, op, obs) ==
  LET st == Quiet(st0) IN
  CASE op.op = "EN" ->
         IF NoMem(obs) /\ obs.r = -1 THEN [st EXCEPT !.up = FALSE, !.r = -1]
         ELSE [st EXCEPT !.up = TRUE, !.n = op.n, !.line = "", !.pos = 0, !.read = FALSE, !.hist = <<>>, !.prompt = "> ", !.comp = op.nocomp = 0,
               !.size = IF op.nohist = 1 THEN 0 ELSE 128, !.file = FALSE]
    [] ~st.up -> [st EXCEPT !.r = -9]
    [] op.op = "EI" -> [st EXCEPT !.line = Put(@, st.pos, op.s), !.pos = @ + Len(op.s)]
    [] op.op = "EM" -> LET p == Max2(0, Min2(Len(st.line), st.pos + op.d)) IN [st EXCEPT !.pos = p, !.r = p]
    [] op.op = "EL" -> IF NoMem(obs) THEN [st EXCEPT !.r = -1]
                       ELSE [st EXCEPT !.ret = IF op.trim = 1 THEN SubSeq(st.line, 1, st.pos) ELSE st.line]
    [] op.op = "ET" ->
         LET x == Key(st.g, st.n, st.line, st.pos, op.s, obs.w)
         IN IF NoMem(obs)  \* the line may have been left as it was
            THEN IF obs.line = st.line THEN [st EXCEPT !.r = obs.r, !.out = obs.out]
                 ELSE [st EXCEPT !.line = x.line, !.pos = x.pos, !.r = obs.r, !.out = obs.out]
            ELSE [st EXCEPT !.line = x.line, !.pos = x.pos, !.r = x.r, !.out = x.out]
    [] op.op = "EH" ->
         IF NoMem(obs) /\ obs.r = -1 THEN [st EXCEPT !.r = -1]
         ELSE LET h == Lessened(Helps(st.g, st.n, op.s, op.full), obs) IN [st EXCEPT !.r = h.r, !.helps = h.h]
    [] op.op = "ES" ->
         IF NoMem(obs) /\ obs.r = -1 THEN [st EXCEPT !.r = -1, !.ret = obs.ret, !.p = obs.p]
         ELSE LET h == Lessened(Suggest(st.g, st.n, st.line, Len(st.line)), obs)
              IN [st EXCEPT !.r = h.r, !.helps = h.h, !.p = h.pos, !.ret = IF NoMem(obs) THEN obs.ret ELSE st.line]
    [] op.op = "EP" -> IF NoMem(obs) THEN [st EXCEPT !.r = -1] ELSE [st EXCEPT !.prompt = Visible(op.s)]
    [] op.op = "EC" -> [st EXCEPT !.out = ColumnsOf(op.v, obs.w)]
    [] op.op = "EX" -> [st EXCEPT !.out = HelpText([i \in 1..(Len(op.v) \div 2) |-> [d |-> op.v[2 * i - 1], h |-> op.v[2 * i]]])]
    [] op.op = "EK" ->
         LET c == CompRoot(st.g, st.n, Toks(<<op.s>>)) its == Proposals(c)
         IN IF c.e THEN [st EXCEPT !.r = -1]
            ELSE [st EXCEPT !.r = Len(its), !.ms = [i \in 1..Len(its) |-> its[i].d], !.ret = IF NoMem(obs) THEN "" ELSE Added(its)]
    [] op.op = "EF" ->
         IF NoMem(obs) THEN [st EXCEPT !.r = -1, !.hist = <<>>, !.size = 0, !.file = FALSE]
         ELSE [st EXCEPT !.size = op.size, !.file = op.size > 0 /\ op.file = 1,
               !.hist = IF op.size > 0 /\ op.file = 1 THEN Enter(<<>>, st.disk, op.size) ELSE <<>>]
    [] op.op = "EG" ->
         IF op.eof = 1 \/ NoMem(obs) THEN [st EXCEPT !.r = -1, !.read = TRUE]
         ELSE IF op.tty = 0 THEN Entered([st EXCEPT !.ret = op.s, !.read = TRUE], op.s)
         ELSE LET x == Typed(st.g, st.n, op.k, st.comp, st.hist, Untyped)
              IN Entered([st EXCEPT !.ret = x.line, !.read = TRUE, !.shown = x.shown], x.line)
    [] op.op = "EQ" ->
         LET x == IF op.tty = 1 THEN Typed(st.g, op.n, op.k, st.comp, st.hist, Untyped) ELSE [Untyped EXCEPT !.line = op.s]
             s == x.line
             p == ParseRoot(st.g, op.n, Toks(<<s>>))
             st2 == Entered([st EXCEPT !.n = op.n, !.read = TRUE, !.shown = x.shown], s)
         IN [st2 EXCEPT !.r = CASE p.r = "err" -> -1 [] p.r = "match" -> 1 [] OTHER -> 0]
=============================================================================
