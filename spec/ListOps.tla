------------------------------ MODULE ListOps ------------------------------
(***************************************************************************)
(* The data model of RankDB and the effect of every list operation, as     *)
(* pure operators.  Used by the design specification (RankDB.tla, checked  *)
(* exhaustively with small constants) and by the trace specification       *)
(* (RankTrace.tla), which replays recorded executions of the Go code.      *)
(*                                                                         *)
(* An element is a tuple <<id, score, tie, updated, payload>> of small     *)
(* integers, order preserving indices of the real 64/32 bit values.        *)
(* Positions (score, tie) of elements and borders of segments are          *)
(* sequences of 16 bit limbs (most significant first), so that borders may *)
(* be arbitrary 64+32 bit values, and "just below" can be computed.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANTS Base,          \* limb base (65536 for real values)
          SLimbs(_),     \* limbs of a score index
          TLimbs(_),     \* limbs of a tie breaker index
          ILimbs(_),     \* limbs of an element id index
          NS, NT         \* number of limbs of a score/id, of a tie breaker

eId(e) == e[1]
eScore(e) == e[2]
eTie(e) == e[3]
eUpd(e) == e[4]
ePay(e) == e[5]

(* The one total order of C02: score desc, tie desc, updated asc, id asc.  *)
Above(a, b) == \/ a[2] > b[2]
               \/ a[2] = b[2] /\ \/ a[3] > b[3]
                                 \/ a[3] = b[3] /\ \/ a[4] < b[4]
                                                   \/ a[4] = b[4] /\ a[1] < b[1]

Sorted(seq) == \A i \in 1..(Len(seq)-1) : Above(seq[i], seq[i+1])
Ranking(seq) == SortSeq(seq, Above)
IdsOf(seq) == {seq[i][1] : i \in 1..Len(seq)}
UniqueIds(seq) == Cardinality(IdsOf(seq)) = Len(seq)
RankOf(rk, id) == CHOOSE i \in 1..Len(rk) : rk[i][1] = id
Without(seq, ids) == SelectSeq(seq, LAMBDA e : e[1] \notin ids)
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
SliceOf(s, from, n) == SubSeq(s, from, Min2(Len(s), from + n - 1))

(* ---------------------------- positions ------------------------------- *)
LexLess(a, b) == \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i-1) : a[j] = b[j]
LexLeq(a, b) == a = b \/ LexLess(a, b)
Const(n, v) == [i \in 1..n |-> v]
PMin == Const(NS + NT, 0)
PMax == Const(NS + NT, Base - 1)
Pred(a) == LET k == CHOOSE k \in 1..Len(a) : a[k] > 0 /\ \A j \in (k+1)..Len(a) : a[j] = 0
           IN [i \in 1..Len(a) |-> IF i < k THEN a[i] ELSE IF i = k THEN a[i] - 1 ELSE Base - 1]
Pos(e) == SLimbs(e[2]) \o TLimbs(e[3])
IdTop(id) == ILimbs(id) \o Const(NT, Base - 1)
Within(p, seg) == LexLeq(seg.mn, p) /\ LexLeq(p, seg.mx)

(* ------------------------------ segments ------------------------------ *)
(* A score segment: [id, mx, mn, els]; an index segment has entries        *)
(* <<element id, score segment id>> instead, ordered by id, descending.    *)
(* A list: [segs, idx] plus identity, see Empty/Rebuild.                   *)
Tiling(b) == /\ Len(b) > 0
             /\ b[1].mx = PMax
             /\ b[Len(b)].mn = PMin
             /\ \A i \in 1..Len(b) : LexLeq(b[i].mn, b[i].mx)
             /\ \A i \in 1..(Len(b)-1) : b[i].mn # PMin /\ b[i+1].mx = Pred(b[i].mn)
             /\ Cardinality({b[i].id : i \in 1..Len(b)}) = Len(b)
IdxTiling(b) == /\ Tiling(b)
                /\ \A i \in 1..Len(b) : SubSeq(b[i].mn, NS+1, NS+NT) = Const(NT, 0)

Whole(id) == [id |-> id, mx |-> PMax, mn |-> PMin]

AllEls(L) == FoldLeft(LAMBDA acc, s : acc \o s.els, <<>>, L.segs)
AllIdx(L) == FoldLeft(LAMBDA acc, s : acc \o s.els, <<>>, L.idx)
IdSet(L) == IdsOf(AllEls(L))

SegAt(segs, p) == CHOOSE i \in 1..Len(segs) : Within(p, segs[i])
IdxAt(idx, id) == SegAt(idx, IdTop(id))

(* Entry of the index, or 0. *)
Lookup(L, id) == LET s == L.idx[IdxAt(L.idx, id)].els
                     k == {i \in 1..Len(s) : s[i][1] = id}
                 IN IF k = {} THEN 0 ELSE s[CHOOSE i \in k : TRUE][2]

InsertEl(els, e) == LET n == Cardinality({i \in 1..Len(els) : Above(els[i], e)})
                    IN SubSeq(els, 1, n) \o <<e>> \o SubSeq(els, n + 1, Len(els))
DropId(els, id) == SelectSeq(els, LAMBDA x : x[1] # id)
InsertIdx(els, id, sid) == LET n == Cardinality({i \in 1..Len(els) : els[i][1] > id})
                           IN SubSeq(els, 1, n) \o << <<id, sid>> >> \o SubSeq(els, n + 1, Len(els))

(* List.UpdateElements, one element: out of the segment the index names,   *)
(* into the segment of its position, and the index entry follows.          *)
PutOne(L, e) ==
    LET old == Lookup(L, e[1])
        d   == SegAt(L.segs, Pos(e))
        x   == IdxAt(L.idx, e[1])
        rem == [i \in 1..Len(L.segs) |->
                  IF L.segs[i].id = old THEN [L.segs[i] EXCEPT !.els = DropId(@, e[1])] ELSE L.segs[i]]
    IN [L EXCEPT !.segs = [rem EXCEPT ![d].els = InsertEl(@, e)],
                 !.idx  = [L.idx EXCEPT ![x].els = InsertIdx(DropId(@, e[1]), e[1], L.segs[d].id)]]
PutAll(L, batch) == FoldLeft(PutOne, L, batch)

DelOne(L, id) ==
    LET old == Lookup(L, id)
        x   == IdxAt(L.idx, id)
    IN [L EXCEPT !.segs = [i \in 1..Len(L.segs) |->
                             IF L.segs[i].id = old THEN [L.segs[i] EXCEPT !.els = DropId(@, id)] ELSE L.segs[i]],
                 !.idx  = [L.idx EXCEPT ![x].els = DropId(@, id)]]
DelAll(L, ids) == FoldLeft(DelOne, L, ids)

(* Content distributed over given borders (sequences of [id, mx, mn]).     *)
SegContent(b, rk) == [i \in 1..Len(b) |-> [id |-> b[i].id, mx |-> b[i].mx, mn |-> b[i].mn,
                                           els |-> SelectSeq(rk, LAMBDA e : Within(Pos(e), b[i]))]]
IdxContent(b, segs) ==
    LET pairs == FoldLeft(LAMBDA acc, s : acc \o [i \in 1..Len(s.els) |-> <<s.els[i][1], s.id>>], <<>>, segs)
        srt   == SortSeq(pairs, LAMBDA x, y : x[1] > y[1])
    IN [i \in 1..Len(b) |-> [id |-> b[i].id, mx |-> b[i].mx, mn |-> b[i].mn,
                             els |-> SelectSeq(srt, LAMBDA p : Within(IdTop(p[1]), b[i]))]]
(* Populate, repair, clone, restore: everything anew over some borders.    *)
Rebuild(L, els, sb, ib) == LET sg == SegContent(sb, Ranking(els))
                           IN [L EXCEPT !.segs = sg, !.idx = IdxContent(ib, sg)]
(* Reindex: the index anew over some borders, scores untouched.            *)
NewIndex(L, ib) == [L EXCEPT !.idx = IdxContent(ib, L.segs)]

(* Splitting at a border that does not separate equal positions, merging.  *)
SplitSeg(L, i, p, nid) == \* [mx..p] stays, below p goes to the new segment nid
    LET s == L.segs[i]
        a == [s EXCEPT !.mn = p, !.els = SelectSeq(@, LAMBDA e : LexLeq(p, Pos(e)))]
        b == [s EXCEPT !.id = nid, !.mx = Pred(p), !.els = SelectSeq(@, LAMBDA e : LexLess(Pos(e), p))]
        moved == IdsOf(b.els)
    IN [L EXCEPT !.segs = SubSeq(@, 1, i-1) \o <<a, b>> \o SubSeq(@, i+1, Len(@)),
                 !.idx = [j \in 1..Len(@) |-> [@[j] EXCEPT !.els =
                             [k \in 1..Len(@) |-> IF @[k][1] \in moved THEN <<@[k][1], nid>> ELSE @[k]]]]]
MergeSeg(L, i) == \* segment i+1 into segment i
    LET s == L.segs[i]
        n == L.segs[i+1]
        moved == IdsOf(n.els)
    IN [L EXCEPT !.segs = SubSeq(@, 1, i-1) \o <<[s EXCEPT !.mn = n.mn, !.els = @ \o n.els]>> \o SubSeq(@, i+2, Len(@)),
                 !.idx = [j \in 1..Len(@) |-> [@[j] EXCEPT !.els =
                             [k \in 1..Len(@) |-> IF @[k][1] \in moved THEN <<@[k][1], s.id>> ELSE @[k]]]]]
SplitIdx(L, i, p, nid) ==
    LET s == L.idx[i]
        a == [s EXCEPT !.mn = p, !.els = SelectSeq(@, LAMBDA e : LexLeq(p, IdTop(e[1])))]
        b == [s EXCEPT !.id = nid, !.mx = Pred(p), !.els = SelectSeq(@, LAMBDA e : LexLess(IdTop(e[1]), p))]
    IN [L EXCEPT !.idx = SubSeq(@, 1, i-1) \o <<a, b>> \o SubSeq(@, i+1, Len(@))]
MergeIdx(L, i) ==
    LET s == L.idx[i]
        n == L.idx[i+1]
    IN [L EXCEPT !.idx = SubSeq(@, 1, i-1) \o <<[s EXCEPT !.mn = n.mn, !.els = @ \o n.els]>> \o SubSeq(@, i+2, Len(@))]

(* The structural invariant of C03. *)
ScoresOK(L) == /\ Tiling(L.segs)
               /\ \A i \in 1..Len(L.segs) : /\ Sorted(L.segs[i].els)
                                            /\ \A k \in 1..Len(L.segs[i].els) : Within(Pos(L.segs[i].els[k]), L.segs[i])
               /\ UniqueIds(AllEls(L))
IndexOK(L) == /\ IdxTiling(L.idx)
              /\ \A i \in 1..Len(L.idx) : \A k \in 1..Len(L.idx[i].els) : Within(IdTop(L.idx[i].els[k][1]), L.idx[i])
              /\ LET x == AllIdx(L)
                 IN /\ \A k \in 1..(Len(x)-1) : x[k][1] > x[k+1][1]
                    /\ Len(x) = Len(AllEls(L))
                    /\ \A i \in 1..Len(L.segs) : \A k \in 1..Len(L.segs[i].els) :
                          \E j \in 1..Len(x) : x[j] = <<L.segs[i].els[k][1], L.segs[i].id>>
ListOK(L) == ScoresOK(L) /\ IndexOK(L)

(* ------------------------------ queries ------------------------------- *)
(* rk is the ranking; offsets are from 0 as in the code.                   *)
TopRange(rk, off, n) == SliceOf(rk, off + 1, n)
(* From the bottom: starts at the element `off` from the bottom, and goes  *)
(* down the ranking.                                                       *)
BottomRange(rk, off, n) == SliceOf(rk, Len(rk) - off, n)
OutOfBounds(rk, off) == off < 0 \/ off >= Len(rk)
FromScore(rk, s, n) == LET a == Cardinality({i \in 1..Len(rk) : rk[i][2] > s})
                       IN [i \in 1..Max2(0, Min2(n, Len(rk) - a)) |-> a + i]   \* positions
AboveOf(rk, i, r) == [k \in 1..Min2(r, i - 1) |-> rk[i - k]]                   \* nearest first
BelowOf(rk, i, r) == [k \in 1..Min2(r, Len(rk) - i) |-> rk[i + k]]
PercentileAt(n, k16) == Min2((n * k16) \div 16, n - 1) + 1                     \* position, n > 0
=============================================================================
