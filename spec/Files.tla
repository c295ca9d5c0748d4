------------------------------- MODULE Files -------------------------------
(* A tree of files, as the completion of file names sees it. A file is       *)
(* [p, k, to]: path from the top (a sequence of names), kind ("d": directory,*)
(* "l": symbolic link, "f": other), and the text of the link.                *)
EXTENDS Chars

FsFront(p) == SubSeq(p, 1, Len(p) - 1)
\* position of the last "/", 0 if there is none
LastSlash(s) == LET I == {i \in 1..Len(s) : Ch(s, i) = "/"} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : j <= i
FirstSlash(s) == LET I == {i \in 1..Len(s) : Ch(s, i) = "/"} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j
\* "a//b/" is <<"a", "", "b", "">>
RECURSIVE Parts(_)
Parts(s) == LET i == FirstSlash(s) IN IF i = 0 THEN <<s>> ELSE <<SubSeq(s, 1, i - 1)>> \o Parts(From(s, i + 1))

IsDir(fs, p) == p = <<>> \/ \E e \in fs : e.p = p /\ e.k = "d"
NoWay == <<"", "nowhere">>
RECURSIVE PathWalk(_, _, _, _)
PathWalk(fs, cur, rest, fuel) ==
  IF rest = <<>> THEN cur
  ELSE IF fuel = 0 \/ ~IsDir(fs, cur) THEN NoWay
  ELSE LET h == Head(rest) E == {e \in fs : e.p = Append(cur, h)} IN
       IF h \in {"", "."} THEN PathWalk(fs, cur, Tail(rest), fuel)
       ELSE IF h = ".." THEN IF cur = <<>> THEN NoWay ELSE PathWalk(fs, FsFront(cur), Tail(rest), fuel)
       ELSE IF E = {} THEN NoWay
       ELSE LET e == CHOOSE x \in E : TRUE
            IN IF e.k = "l" THEN PathWalk(fs, cur, Parts(e.to) \o Tail(rest), fuel - 1)
               ELSE PathWalk(fs, e.p, Tail(rest), fuel)

\* what is in directory d: names with their kinds. It is not specified if a
\* link to a directory is presented as a directory.
Listing(fs, d) ==
  {[n |-> ".", k |-> "d"], [n |-> "..", k |-> "d"]}
  \cup {[n |-> e.p[Len(e.p)],
         k |-> IF e.k # "l" THEN e.k ELSE IF IsDir(fs, PathWalk(fs, d, Parts(e.to), 20)) THEN "either" ELSE "f"]
        : e \in {x \in fs : x.p # <<>> /\ FsFront(x.p) = d}}

\* the items proposed for the text s: the names of its directory that go on
\* with what follows the last "/", the hidden ones only if it begins with "."
FileItems(fs, s) ==
  LET i == LastSlash(s)  dir == SubSeq(s, 1, i)  base == From(s, i + 1)
      d == IF i = 0 THEN <<>> ELSE IF Ch(s, 1) = "/" THEN NoWay ELSE PathWalk(fs, <<>>, Parts(dir), 20)
      L == IF IsDir(fs, d)
           THEN {e \in Listing(fs, d) : StartsWith(e.n, base) /\ (Ch(e.n, 1) = "." => base # "" /\ Ch(base, 1) = ".")}
           ELSE {}
      more(e) == From(e.n, Len(base) + 1)
      item(e) == IF e.k = "d" THEN [t |-> "partial", s |-> s \o more(e) \o "/", c |-> more(e) \o "/", d |-> e.n \o "/"]
                 ELSE [t |-> IF e.k = "either" THEN "either" ELSE "full", s |-> s \o more(e), c |-> more(e), d |-> e.n]
  IN {item(e) : e \in L}
FileAllowed(e) ==
  IF e.t # "either" THEN {e}
  ELSE {[e EXCEPT !.t = "full"], [t |-> "partial", s |-> e.s \o "/", c |-> e.c \o "/", d |-> e.d \o "/"]}

RECURSIVE AnySeq(_)
AnySeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o AnySeq(S \ {x})

\* changes that the system accepted
FsStep(fs, op) ==
  IF op.op = "FM" THEN fs \cup {[p |-> Parts(op.p), k |-> IF op.k \in {"d", "l"} THEN op.k ELSE "f", to |-> op.to]}
  ELSE {e \in fs : e.p # Parts(op.p)}
=============================================================================
