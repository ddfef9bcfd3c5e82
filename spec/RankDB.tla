------------------------------- MODULE RankDB -------------------------------
(***************************************************************************)
(* Design of one list: score segments and index segments over the ranking, *)
(* changed only by the operators of ListOps, which the trace specification *)
(* RankTrace demands of the code.  Checked exhaustively within small       *)
(* constants: whatever updates, deletions, splits, merges and rebuilds     *)
(* happen, in whatever order and at whatever borders,                      *)
(*  - the structural invariant holds (C03), so that every element is found *)
(*    through the index, and in the segment its position belongs to;       *)
(*  - the list is the map that the same updates and deletions make (C01),  *)
(*    in the one order of C02; maintenance changes nothing of that (C05);  *)
(*  - answers put together segment by segment, the way the code finds them,*)
(*    are the answers the ranking as a whole gives (C02, C04).             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS IDs, Scores, Ties, Times,  \* of elements; below B
          B,                         \* base of positions
          MaxSegs, MaxIdx, Batch
One(x) == <<x>>
INSTANCE ListOps WITH Base <- B, SLimbs <- One, TLimbs <- One, ILimbs <- One, NS <- 1, NT <- 1
VARIABLES L,     \* the list as stored
          m      \* the map it stands for: id -> element, or <<>>
vars == <<L, m>>

El(i) == {<<i, s, t, u, 0>> : s \in Scores, t \in Ties, u \in Times}
Batches == {b \in UNION {[1..n -> UNION {El(i) : i \in IDs}] : n \in 1..Batch} :
              \A x, y \in DOMAIN b : x # y => b[x][1] # b[y][1]}
Positions == {<<x, y>> : x, y \in 0..(B-1)}
NewId(segs) == CHOOSE k \in 1..(Len(segs)+1) : k \notin {segs[i].id : i \in 1..Len(segs)}
                                           /\ \A j \in 1..(k-1) : j \in {segs[i].id : i \in 1..Len(segs)}
EmptySeg(id) == [id |-> id, mx |-> PMax, mn |-> PMin, els |-> <<>>]

Init == L = [segs |-> <<EmptySeg(1)>>, idx |-> <<EmptySeg(1)>>] /\ m = [i \in IDs |-> <<>>]

Update == \E b \in Batches :
             /\ L' = PutAll(L, b)
             /\ m' = [i \in IDs |-> IF \E x \in DOMAIN b : b[x][1] = i THEN b[CHOOSE x \in DOMAIN b : b[x][1] = i] ELSE m[i]]
Delete == \E S \in SUBSET IDs :
             /\ S # {}
             /\ L' = DelAll(L, SetToSeq(S))
             /\ m' = [i \in IDs |-> IF i \in S THEN <<>> ELSE m[i]]
Inside(p, s) == LexLess(s.mn, p) /\ LexLeq(p, s.mx)
Split == /\ Len(L.segs) < MaxSegs
         /\ \E i \in 1..Len(L.segs), p \in Positions : Inside(p, L.segs[i]) /\ L' = SplitSeg(L, i, p, NewId(L.segs))
         /\ UNCHANGED m
Merge == \E i \in 1..(Len(L.segs)-1) : L' = MergeSeg(L, i) /\ UNCHANGED m
SplitX == /\ Len(L.idx) < MaxIdx
          /\ \E i \in 1..Len(L.idx), p \in Positions : p[2] = 0 /\ Inside(p, L.idx[i]) /\ L' = SplitIdx(L, i, p, NewId(L.idx))
          /\ UNCHANGED m
MergeX == \E i \in 1..(Len(L.idx)-1) : L' = MergeIdx(L, i) /\ UNCHANGED m
Borders(segs) == [i \in 1..Len(segs) |-> [id |-> segs[i].id, mx |-> segs[i].mx, mn |-> segs[i].mn]]
(* The index anew, and everything anew: at the borders there are (others   *)
(* are reached by splitting), or in one segment.                           *)
Reindex == \E ib \in {Borders(L.idx), <<Whole(1)>>} : L' = NewIndex(L, ib) /\ UNCHANGED m
Repair == \E sb \in {Borders(L.segs), <<Whole(1)>>}, ib \in {Borders(L.idx), <<Whole(1)>>} :
             L' = Rebuild(L, AllEls(L), sb, ib) /\ UNCHANGED m
Next == Update \/ Delete \/ Split \/ Merge \/ SplitX \/ MergeX \/ Reindex \/ Repair
Spec == Init /\ [][Next]_vars

(* ---------------------------- properties ------------------------------ *)
Structure == ListOK(L)
Present == {i \in IDs : m[i] # <<>>}
Rk == Ranking(SetToSeq({m[i] : i \in Present}))
IsMap == AllEls(L) = Rk
(* Through the index: the segment holds the element, and absent ids have no entry. *)
Found == \A i \in IDs : LET s == Lookup(L, i) IN
            IF i \in Present THEN \E k \in 1..Len(L.segs) : L.segs[k].id = s /\ m[i] \in Range(L.segs[k].els)
            ELSE s = 0
(* The first segment of Above/Below, offsets counted by segments. *)
Count(k) == FoldLeft(LAMBDA a, s : a + Len(s.els), 0, SubSeq(L.segs, 1, k))
RankBySegments == \A i \in Present :
    LET k == SegAt(L.segs, Pos(m[i]))
    IN Count(k - 1) + RankOf(L.segs[k].els, i) = RankOf(Rk, i)
ScoreBySegments == \A s \in Scores :
    LET k == SegAt(L.segs, <<s, B - 1>>)
        n == Count(k - 1) + Cardinality({j \in 1..Len(L.segs[k].els) : L.segs[k].els[j][2] > s})
    IN n = Cardinality({j \in 1..Len(Rk) : Rk[j][2] > s})
(* Positions of a range: as in GetRankTop, skipping whole segments. *)
RECURSIVE Walk(_, _, _)
Walk(k, off, n) == IF k > Len(L.segs) \/ n = 0 THEN <<>>
                   ELSE LET e == L.segs[k].els IN
                        IF off >= Len(e) THEN Walk(k + 1, off - Len(e), n)
                        ELSE LET p == SliceOf(e, off + 1, n) IN p \o Walk(k + 1, 0, n - Len(p))
RangeBySegments == \A off \in 0..Cardinality(IDs), n \in 0..Cardinality(IDs) : Walk(1, off, n) = TopRange(Rk, off, n)
(* Maintenance is invisible, and only updates and deletions change the map *)
Queries == Found /\ RankBySegments /\ ScoreBySegments /\ RangeBySegments
=============================================================================
