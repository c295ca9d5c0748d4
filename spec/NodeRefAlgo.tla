---------------------------- MODULE NodeRefAlgo ----------------------------
(* The reference counting algorithm of the implementation, loops included:  *)
(* counting of the references that are reachable from the node being freed, *)
(* marking of what can be freed, then recursive release. The design         *)
(* property: it implements the abstract view of NodeRef for every graph and *)
(* every order of the operations.                                           *)
(*                                                                          *)
(* w[n]: the number of references that node n holds on each of its          *)
(* children: 2 when they are both in its configuration and in its private   *)
(* data (a configuration is released before the private data), else 1.      *)
EXTENDS NodeRef, TLC

CONSTANTS N, MaxEdges, MaxHold

VARIABLES abs,     \* abstract state
          rc,      \* reference counters
          w,       \* references per child
          dead,    \* freed nodes
          bad      \* an error happened: "", or what
vars == <<abs, rc, w, dead, bad>>
Nodes == 1..N

\* state of a release in progress: rc, st (marks), fr (reachable references),
\* cf (nodes that released their configuration), dead, bad, kids
FUEL == 400
Mk(k) == [rc |-> rc, st |-> [i \in Nodes |-> "none"], fr |-> [i \in Nodes |-> 0],
          dead |-> dead, bad |-> bad, fuel |-> FUEL, k |-> k]

Bad(x, m) == IF x.bad = "" THEN [x EXCEPT !.bad = m] ELSE x
Touch(x, n) == IF n \in x.dead THEN Bad(x, "use after free")
               ELSE IF x.fuel = 0 THEN Bad(x, "diverges") ELSE [x EXCEPT !.fuel = @ - 1]

RECURSIVE Count(_, _, _), CountL(_, _, _)
Count(x0, n, refs) ==
  LET x == Touch(x0, n) IN
  IF x.bad # "" THEN x
  ELSE IF x.st[n] = "traversed" THEN [x EXCEPT !.fr[n] = @ + refs]
  ELSE CountL([x EXCEPT !.fr[n] = refs, !.st[n] = "traversed"], n, 1)
CountL(x, n, i) ==
  IF x.bad # "" \/ i > Len(x.k[n]) THEN x ELSE CountL(Count(x, x.k[n][i], w[n]), n, i + 1)

RECURSIVE MarkN(_, _, _), MarkL(_, _, _, _)
MarkN(x0, n, m) ==
  LET x == Touch(x0, n) IN
  IF x.bad # "" \/ x.st[n] = m \/ x.st[n] = "keep" THEN x
  ELSE IF x.rc[n] < x.fr[n] THEN Bad(x, "more references reachable than counted")
  ELSE LET m2 == IF x.rc[n] > x.fr[n] THEN "keep" ELSE m
       IN MarkL([x EXCEPT !.st[n] = m2], n, m2, 1)
MarkL(x, n, m, i) ==
  IF x.bad # "" \/ i > Len(x.k[n]) THEN x ELSE MarkL(MarkN(x, x.k[n][i], m), n, m, i + 1)

RECURSIVE Reset(_, _), ResetL(_, _, _)
Reset(x0, n) ==
  LET x == Touch(x0, n) IN
  IF x.bad # "" \/ x.st[n] = "none" THEN x
  ELSE ResetL([x EXCEPT !.st[n] = "none", !.fr[n] = 0], n, 1)
ResetL(x, n, i) ==
  IF x.bad # "" \/ i > Len(x.k[n]) THEN x ELSE ResetL(Reset(x, x.k[n][i]), n, i + 1)

RECURSIVE Free(_, _), FreeL(_, _, _)
Free(x0, n) ==
  LET x1 == Touch(x0, n) IN
  IF x1.bad # "" THEN x1
  ELSE IF x1.rc[n] <= 0 THEN Bad(x1, "freed too many times")
  ELSE
  LET x2 == IF x1.st[n] = "none" /\ x1.rc[n] # 1
            THEN MarkN(Count(x1, n, 1), n, "freeable") ELSE x1
  IN IF x2.bad # "" THEN x2
     ELSE IF x2.st[n] = "keep" THEN Reset([x2 EXCEPT !.rc[n] = @ - 1], n)
     ELSE LET x3 == IF x2.st[n] # "freeing"
                    THEN LET a == [x2 EXCEPT !.st[n] = "freeing"]
                             c == x2.k[n]
                             b == IF w[n] = 2 THEN FreeL(a, c, 1) ELSE a
                         IN [FreeL(b, c, 1) EXCEPT !.k[n] = <<>>]
                    ELSE x2
          IN IF x3.bad # "" THEN x3
             ELSE LET x4 == [x3 EXCEPT !.rc[n] = @ - 1]
                  IN IF x4.rc[n] # 0 THEN x4
                     ELSE [x4 EXCEPT !.st[n] = "none", !.fr[n] = 0, !.dead = @ \cup {n}]
FreeL(x, c, i) ==
  IF x.bad # "" \/ i > Len(c) THEN x ELSE FreeL(Free(x, c[i]), c, i + 1)

-----------------------------------------------------------------------------
Init == /\ abs = [h |-> [i \in Nodes |-> 1], k |-> [i \in Nodes |-> <<>>]]
        /\ rc = [i \in Nodes |-> 1]
        /\ w \in [Nodes -> {1, 2}]
        /\ dead = {}
        /\ bad = ""

Edges == LET S[i \in 0..N] == IF i = 0 THEN 0 ELSE S[i - 1] + Len(abs.k[i]) IN S[N]
Dropped == \E i \in Nodes : abs.h[i] = 0

Link(p, c) ==
  /\ ~Dropped /\ Edges < MaxEdges     \* the graph is built first
  /\ abs.h[p] > 0 /\ abs.h[c] > 0
  /\ abs' = AddChild(abs, p, c)
  /\ rc' = [rc EXCEPT ![c] = @ + w[p]]
  /\ UNCHANGED <<w, dead, bad>>

HoldOne(n) ==
  /\ abs.h[n] > 0 /\ abs.h[n] < MaxHold /\ ~Dropped
  /\ abs' = Hold(abs, n)
  /\ rc' = [rc EXCEPT ![n] = @ + 1]
  /\ UNCHANGED <<w, dead, bad>>

\* all the marks must be clean at the end of a release
Final(x) == IF x.bad # "" THEN x.bad
            ELSE IF \E i \in Nodes \ x.dead : x.st[i] # "none" THEN "marks left" ELSE ""

\* the children are replaced: the new ones are installed (in the private data,
\* and in a new configuration), then the old ones are released from the
\* private data, and the old configuration is released
RECURSIVE Refs(_, _, _)
Refs(r, c, i) == IF i > Len(c) THEN r ELSE Refs([r EXCEPT ![c[i]] = @ + 2], c, i + 1)
Replace(p, c) ==
  /\ w[p] = 2 /\ abs.h[p] > 0 /\ Len(abs.k[p]) > 0
  /\ \A j \in 1..Len(c) : abs.h[c[j]] > 0
  /\ LET old == abs.k[p]
         x0 == [Mk([abs.k EXCEPT ![p] = c]) EXCEPT !.rc = Refs(rc, c, 1)]
         x1 == FreeL(x0, old, 1)
         x == FreeL(x1, old, 1)
     IN rc' = x.rc /\ dead' = x.dead /\ bad' = Final(x)
  /\ abs' = SetChildren(abs, p, c)
  /\ UNCHANGED w

Drop(n) ==
  /\ abs.h[n] > 0
  /\ LET x == Free(Mk(abs.k), n)
     IN rc' = x.rc /\ dead' = x.dead /\ bad' = Final(x)
  /\ abs' = Release(abs, n)
  /\ UNCHANGED w

Next == \/ \E p, c \in Nodes : Link(p, c)
        \/ \E n \in Nodes : HoldOne(n) \/ Drop(n)
        \/ \E p, c \in Nodes : Replace(p, <<c>>)
        \/ \E p \in Nodes : Replace(p, <<>>)
Spec == Init /\ [][Next]_vars

NoError == bad = ""
Implements == dead = Nodes \ Alive(abs)
Exact == bad = "" => \A n \in Alive(abs) :
   rc[n] = abs.h[n] + LET S[p \in 0..N] == IF p = 0 THEN 0
              ELSE S[p - 1] + w[p] * Cardinality({j \in 1..Len(abs.k[p]) : abs.k[p][j] = n})
           IN S[N]
=============================================================================
