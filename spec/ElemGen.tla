------------------------------ MODULE ElemGen ------------------------------
(* All sequences of elements up to a length over small values, for the     *)
(* driver; and that the specification of the operations determines what    *)
(* matters: there is exactly one sorted order, up to equal elements.       *)
EXTENDS Elems, TLC, Json
CONSTANTS Scores, Ties, Times, IDs, MaxLen
VARIABLE s
GInit == s = <<>>
GNext == /\ Len(s) < MaxLen
         /\ \E a \in Scores, b \in Ties, c \in Times, d \in IDs :
               s' = Append(s, <<a, b, c, d, Len(s) + 1>>)
         /\ PrintT(ToJson(s'))
GSpec == GInit /\ [][GNext]_s
Key(e) == <<e[1], e[2], e[3], e[4]>>
Perms == {[i \in DOMAIN s |-> s[p[i]]] : p \in {f \in [DOMAIN s -> DOMAIN s] : \A i, j \in DOMAIN s : i # j => f[i] # f[j]}}
OneOrder == LET S == {q \in Perms : Sorted(q)} IN S # {} /\ \A a, b \in S : \A i \in DOMAIN s : Key(a[i]) = Key(b[i])
(* what remains when duplicates are removed is determined up to elements of the same id, time and score *)
Keep(id) == {e \in Range(s) : Id(e) = id /\ \A x \in Range(s) : Id(x) = id => ~Better(x, e)}
OneBest == \A id \in Ids(s) : Keep(id) # {} /\ \A a, b \in Keep(id) : Up(a) = Up(b) /\ Sc(a) = Sc(b)
=============================================================================
