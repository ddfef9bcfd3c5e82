------------------------------ MODULE BlocksMC ------------------------------
(***************************************************************************)
(* The block representation of large lists says the same as the list of    *)
(* its elements (ListOps): same ranking, ranks, ranges and counts after    *)
(* any sequence of changes to ranges of ids.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Blocks
CONSTANTS N, Slots, Upds
Z(x) == <<x>>
LO == INSTANCE ListOps WITH Base <- 16, SLimbs <- Z, TLimbs <- Z, ILimbs <- Z, NS <- 1, NT <- 1

VARIABLES asc, B, els \* els: the elements, one by one
vars == <<asc, B, els>>
\* as elements of ListOps: <<id, score, tie, upd, pay>>
El(id, slot, upd) == <<id, IF asc THEN slot * 100 ELSE slot * 100 + id, 0, upd, 0>>
Init == asc \in BOOLEAN /\ B = <<>> /\ els = <<>>
Ivs == {<<a, b>> \in (1..N) \X (1..N) : a <= b}
Ids(v) == v[1]..v[2]
Put == \E v \in Ivs, s \in Slots, u \in Upds :
          /\ B' = BPut(asc, B, <<<<v[1], v[2], s, u>>>>)
          /\ els' = LO!Ranking(LO!Without(els, Ids(v)) \o [i \in 1..(v[2] - v[1] + 1) |-> El(v[1] + i - 1, s, u)])
Put2 == \E v, w \in Ivs, s, t \in Slots, u \in Upds :
          /\ v[2] < w[1]
          /\ B' = BPut(asc, B, <<<<v[1], v[2], s, u>>, <<w[1], w[2], t, u>>>>)
          /\ els' = LO!Ranking(LO!Without(els, Ids(v) \cup Ids(w)) \o [i \in 1..(v[2] - v[1] + 1) |-> El(v[1] + i - 1, s, u)]
                                                                  \o [i \in 1..(w[2] - w[1] + 1) |-> El(w[1] + i - 1, t, u)])
Del == \E v \in Ivs : B' = BDel(asc, B, <<v>>) /\ els' = LO!Without(els, Ids(v))
Next == (Put \/ Put2 \/ Del) /\ UNCHANGED asc
Spec == Init /\ [][Next]_vars

Ex1(b) == [i \in 1..Len1(b) |-> El(IF asc THEN b[1] + i - 1 ELSE b[2] - i + 1, b[3], b[4])]
Expand(b) == FoldLeft(LAMBDA acc, x : acc \o Ex1(x), <<>>, b)
Same == /\ Expand(B) = els
        /\ BNorm(asc, B) = B
        /\ BSize(B) = Len(els)
        /\ \A id \in 1..N : BHas(B, id) = (id \in LO!IdsOf(els))
        /\ \A i \in 1..Len(els) : BRank(asc, B, els[i][1]) = i - 1 /\ El(BAt(asc, B, i - 1)[1], BAt(asc, B, i - 1)[2], BAt(asc, B, i - 1)[3]) = els[i]
        /\ \A from \in 0..N, n \in 0..N : Expand(BSlice(asc, B, from, n)) = LO!SliceOf(els, from + 1, n)
        /\ \A v \in Ivs : /\ BCount(B, <<v>>) = Cardinality(LO!IdsOf(els) \cap Ids(v))
                          /\ BTouches(B, v[1], v[2]) = (LO!IdsOf(els) \cap Ids(v) # {})
                          /\ LO!IdsOf(Expand(FoldLeft(LAMBDA acc, b : acc \o Common(b, v[1], v[2]), <<>>, B))) = LO!IdsOf(els) \cap Ids(v)
        /\ \A s \in Slots, id \in 0..N :
              BHigher(B, s, id) = Cardinality({i \in 1..Len(els) : LET e == els[i] IN
                                       IF asc THEN e[2] > s * 100 \/ (e[2] = s * 100 /\ e[1] > id) ELSE e[2] > s * 100 + id})
=============================================================================
