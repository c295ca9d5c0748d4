----------------------------- MODULE GenGrammar -----------------------------
(* The universe of small grammars, as terms: every node has children that    *)
(* are terms of smaller height. One state per term; every term is printed,   *)
(* to be given to the implementation with every small input.                 *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Leaves,      \* strings
          Tops         \* types at the top: the universe is split in this way

T(t, s, c, mn, mx) == [t |-> t, s |-> s, c |-> c, min |-> mn, max |-> mx]
L0 == {T("str", w, <<>>, 0, 0) : w \in Leaves} \cup {T("empty", "", <<>>, 0, 0)}
Bin == {"seq", "or", "subset"}
Bounds == {<<0, 0>>, <<1, 0>>, <<0, 2>>, <<2, 2>>, <<1, 1>>}
Over(U, tops) ==
  {T(t, "", <<x, y>>, 0, 0) : t \in Bin \cap tops, x \in U, y \in U}
  \cup {T(t, "", <<x>>, 0, 0) : t \in {"option", "bypass", "once"} \cap tops, x \in U}
  \cup {T(t, "", <<x>>, b[1], b[2]) : t \in {"many"} \cap tops, x \in U, b \in Bounds}
U1 == L0 \cup Over(L0, Bin \cup {"option", "many"})
U2 == Over(U1, Tops)

VARIABLE t
Init == t \in U2
Next == UNCHANGED t
Spec == Init /\ [][Next]_t
Emit == PrintT("TERM " \o ToJson(t))
=============================================================================
