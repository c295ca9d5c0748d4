------------------------------ MODULE GenFile ------------------------------
(* All the small trees of files, with what must be true of the completion of *)
(* file names on each of them. The trees are printed to be replayed.         *)
EXTENDS Files, Json

CONSTANTS Size
Names == {"a", "ab", ".a"}
Targets == {"a", "ab/a", "zz"}
Dirs(fs) == {<<>>} \cup {e.p : e \in {x \in fs : x.k = "d"}}

VARIABLE fs_
Init == fs_ = {}
\* files are added in a fixed order of their paths: each tree is made once or so
Next ==
  /\ Cardinality(fs_) < Size
  /\ \E d \in Dirs(fs_), n \in Names, k \in {"d", "f", "l"}, t \in Targets :
       /\ Len(d) < 2
       /\ ~\E e \in fs_ : e.p = Append(d, n)
       /\ k # "l" => t = "zz"
       /\ fs_' = fs_ \cup {[p |-> Append(d, n), k |-> k, to |-> IF k = "l" THEN t ELSE ""]}
Spec == Init /\ [][Next]_fs_

Texts == {"", "a", "ab", "b", ".", "..", ".a", "a/", "a/a", "a/.", "ab/", "./", "a//a", "a/../a", "zz/", "a/a/", "ab/a/"}
\* each proposal continues the text, and is the text when it is added to it
Extends == \A s \in Texts : \A it \in FileItems(fs_, s) : StartsWith(it.s, s) /\ it.s = s \o it.c
\* what is proposed for a shorter text includes what is proposed for this one,
\* except the hidden files
Monotonic == \A s \in Texts : LET i == LastSlash(s) b == From(s, i + 1) IN
   b # "" => LET dir == SubSeq(s, 1, i)
                 shown == {it.s : it \in FileItems(fs_, IF Ch(b, 1) = "." THEN dir \o "." ELSE dir)}
             IN {it.s : it \in FileItems(fs_, s)} = {x \in shown : StartsWith(x, s)}
\* every file is reached by going from directory to directory
RECURSIVE Reach(_, _)
Reach(s, depth) ==
  LET I == FileItems(fs_, s) \cup FileItems(fs_, s \o ".")
  IN {it.s : it \in I} \cup IF depth = 0 THEN {} ELSE UNION {Reach(it.s, depth - 1) : it \in {x \in I : x.t = "partial" /\ x.d \notin {"./", "../"}}}
RECURSIVE Text(_)
Text(p) == IF Len(p) = 1 THEN p[1] ELSE p[1] \o "/" \o Text(Tail(p))
AllReached == LET R == Reach("", 2) IN \A e \in fs_ : (IF e.k = "d" THEN Text(e.p) \o "/" ELSE Text(e.p)) \in R
Emit == PrintT("TREE " \o ToJson(AnySeq(fs_)))
=============================================================================
