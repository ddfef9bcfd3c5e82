------------------------------- MODULE Blocks -------------------------------
(***************************************************************************)
(* Large ranked lists, as a sequence of blocks in ranking order.  A block  *)
(* <<lo, hi, slot, upd>> stands for the elements with the ids lo..hi, all  *)
(* of them in the same slot and updated at upd.  The score of an element   *)
(* is a function of its slot and id, higher slots have higher scores.      *)
(* asc: whether elements of a slot are ranked by (upd, id) ascending (same *)
(* score, same tie breaker), otherwise by id descending (the score or the  *)
(* tie breaker grows with the id).                                         *)
(* BlocksMC.tla checks these operations against lists of single elements.  *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt

BAbove(asc, a, b) == \/ a[3] > b[3]
                     \/ a[3] = b[3] /\ IF asc THEN a[4] < b[4] \/ (a[4] = b[4] /\ a[1] < b[1]) ELSE a[1] > b[1]
Len1(b) == b[2] - b[1] + 1
BSize(B) == FoldLeft(LAMBDA n, b : n + Len1(b), 0, B)

(* What remains of the block b without the ids lo..hi *)
Piece(lo, hi, b) == IF lo > hi THEN <<>> ELSE <<<<lo, hi, b[3], b[4]>>>>
BMin(a, b) == IF a < b THEN a ELSE b
BMax(a, b) == IF a > b THEN a ELSE b
Rest(asc, b, lo, hi) == LET low == Piece(b[1], BMin(b[2], lo - 1), b)
                            high == Piece(BMax(b[1], hi + 1), b[2], b)
                        IN IF asc THEN low \o high ELSE high \o low
BCut(asc, B, lo, hi) == FoldLeft(LAMBDA acc, b : acc \o Rest(asc, b, lo, hi), <<>>, B)
(* The part of the block b with the ids lo..hi *)
Common(b, lo, hi) == Piece(BMax(b[1], lo), BMin(b[2], hi), b)

(* Neighbouring blocks that could be one block are one block. *)
Joins(asc, a, b) == a[3] = b[3] /\ a[4] = b[4] /\ IF asc THEN a[2] + 1 = b[1] ELSE a[1] = b[2] + 1
Add1(asc, acc, b) == IF acc # <<>> /\ Joins(asc, acc[Len(acc)], b)
                     THEN [acc EXCEPT ![Len(acc)] = <<BMin(@[1], b[1]), BMax(@[2], b[2]), @[3], @[4]>>]
                     ELSE Append(acc, b)
BNorm(asc, B) == FoldLeft(LAMBDA acc, b : Add1(asc, acc, b), <<>>, B)
BSorted(asc, B) == SortSeq(B, LAMBDA a, b : BAbove(asc, a, b))
BDel(asc, B, ivs) == BNorm(asc, FoldLeft(LAMBDA acc, v : BCut(asc, acc, v[1], v[2]), B, ivs))
(* The blocks new are disjoint. *)
BPut(asc, B, new) == BNorm(asc, BSorted(asc, BDel(asc, B, new) \o new))

BIdx(B, id) == CHOOSE i \in 1..Len(B) : B[i][1] <= id /\ id <= B[i][2]
BHas(B, id) == \E i \in 1..Len(B) : B[i][1] <= id /\ id <= B[i][2]
BTouches(B, lo, hi) == \E i \in 1..Len(B) : B[i][1] <= hi /\ lo <= B[i][2]
BOffset(B, i) == BSize(SubSeq(B, 1, i - 1))
(* Rank from top, of an element that is there *)
BRank(asc, B, id) == LET i == BIdx(B, id) IN BOffset(B, i) + IF asc THEN id - B[i][1] ELSE B[i][2] - id
(* The element with this rank *)
BAt(asc, B, p) == LET i == CHOOSE i \in 1..Len(B) : BOffset(B, i) <= p /\ p < BOffset(B, i) + Len1(B[i])
                      d == p - BOffset(B, i)
                  IN <<IF asc THEN B[i][1] + d ELSE B[i][2] - d, B[i][3], B[i][4]>>
(* n elements from rank from on *)
ClipTo(asc, b, off, from, n) == \* b starts at rank off
    LET skip == BMax(0, from - off)
        take == BMin(Len1(b), from + n - off)
    IN IF skip >= take THEN <<>>
       ELSE IF asc THEN <<<<b[1] + skip, b[1] + take - 1, b[3], b[4]>>>>
                   ELSE <<<<b[2] - take + 1, b[2] - skip, b[3], b[4]>>>>
BSlice(asc, B, from, n) ==
    FoldLeft(LAMBDA acc, b : [off |-> acc.off + Len1(b), out |-> acc.out \o ClipTo(asc, b, acc.off, from, n)],
             [off |-> 0, out |-> <<>>], B).out
(* Number of elements in a higher slot, or with a greater id in this slot  *)
BHigher(B, slot, id) == FoldLeft(LAMBDA n, b : n + IF b[3] > slot THEN Len1(b)
                                                   ELSE IF b[3] = slot THEN BMax(0, b[2] - BMax(b[1] - 1, id)) ELSE 0, 0, B)
(* Number of elements with one of the ids *)
BCount(B, ivs) == FoldLeft(LAMBDA n, v : FoldLeft(LAMBDA m, b : m + BMax(0, BMin(b[2], v[2]) - BMax(b[1], v[1]) + 1), n, B), 0, ivs)
=============================================================================
