------------------------------- MODULE Elems -------------------------------
(***************************************************************************)
(* Collections of elements (elements.go): what each operation must give.   *)
(* An element is <<score, tie breaker, updated, id, tag>>; the tag is its  *)
(* number in the input of the operation and travels as the payload.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Sc(e) == e[1]
Ti(e) == e[2]
Up(e) == e[3]
Id(e) == e[4]
Tag(e) == e[5]
(* ranking order: score and tie breaker descending, then oldest, then lowest id *)
Above(a, b) == \/ Sc(a) > Sc(b)
               \/ Sc(a) = Sc(b) /\ Ti(a) > Ti(b)
               \/ Sc(a) = Sc(b) /\ Ti(a) = Ti(b) /\ Up(a) < Up(b)
               \/ Sc(a) = Sc(b) /\ Ti(a) = Ti(b) /\ Up(a) = Up(b) /\ Id(a) < Id(b)
Sorted(s) == \A i \in 1..(Len(s) - 1) : ~Above(s[i + 1], s[i])
Range(s) == {s[i] : i \in DOMAIN s}
Ids(s) == {Id(s[i]) : i \in DOMAIN s}
Unique(s) == Cardinality(Ids(s)) = Len(s)
Tagged(s) == \A i \in DOMAIN s : Tag(s[i]) = i
(* out consists of elements of in, each at most once *)
From(out, in) == /\ \A i \in DOMAIN out : Tag(out[i]) \in DOMAIN in /\ out[i] = in[Tag(out[i])]
                 /\ Cardinality({Tag(out[i]) : i \in DOMAIN out}) = Len(out)
Permuted(out, in) == Len(out) = Len(in) /\ From(out, in)

SortOK(in, out, changed) == Permuted(out, in) /\ Sorted(out) /\ changed = ~Sorted(in)

(* best element of an id: latest update, then highest score *)
Better(x, y) == Up(x) > Up(y) \/ (Up(x) = Up(y) /\ Sc(x) > Sc(y))
(* at[i]: where the id of in[i] is in out *)
DedupOK(in, out, changed, at) ==
    /\ From(out, in) /\ Sorted(out) /\ Unique(out)
    /\ DOMAIN at = DOMAIN in
    /\ \A i \in DOMAIN in : /\ at[i] \in DOMAIN out
                            /\ Id(out[at[i]]) = Id(in[i])
                            /\ ~Better(in[i], out[at[i]])
    /\ changed = (Len(out) < Len(in))
MergeOK(a, b, out) == Permuted(out, a \o b) /\ Sorted(out)
MergeDedupOK(a, b, out) ==
    LET ib == Ids(b)
        tags == {Tag(out[i]) : i \in DOMAIN out}
    IN /\ From(out, a \o b) /\ Sorted(out)
       /\ tags = {Tag(b[i]) : i \in DOMAIN b} \cup {Tag(a[i]) : i \in {j \in DOMAIN a : Id(a[j]) \notin ib}}
Same(a, b) == Sc(a) = Sc(b) /\ Ti(a) = Ti(b)
RECURSIVE Flat(_, _)
Flat(ps, i) == IF i > Len(ps) THEN <<>> ELSE ps[i] \o Flat(ps, i + 1)
SplitOK(in, n, parts) ==
    /\ Len(parts) >= 1
    /\ Flat(parts, 1) = in
    /\ Len(in) > 0 => \A i \in DOMAIN parts : Len(parts[i]) > 0
    /\ \A i \in 1..(Len(parts) - 1) : ~Same(parts[i][Len(parts[i])], parts[i + 1][1])
    /\ Len(in) <= n => Len(parts) = 1
    /\ (\A i \in 1..(Len(in) - 1) : ~Same(in[i], in[i + 1])) => \A i \in DOMAIN parts : Len(parts[i]) <= (IF n < 1 THEN 1 ELSE n)
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
(* first position of an id, or 0 *)
Pos(s, id) == IF \E i \in DOMAIN s : Id(s[i]) = id THEN CHOOSE i \in DOMAIN s : Id(s[i]) = id /\ \A j \in 1..(i - 1) : Id(s[j]) # id ELSE 0
InsertOK(in, e, out, idx) == /\ idx \in 0..Len(in) /\ Len(out) = Len(in) + 1
                             /\ out[idx + 1] = e /\ Without(out, idx + 1) = in /\ Sorted(out)
RankOK(out, e, top, bottom) == /\ top \in 0..(Len(out) - 1) /\ out[top + 1] = e /\ bottom = Len(out) - top - 1
DeleteOK(in, id, out, found) == LET p == Pos(in, id) IN found = (p # 0) /\ out = (IF p = 0 THEN in ELSE Without(in, p))
UpdateOK(in, e, out, found, top, bottom) ==
    LET p == Pos(in, Id(e)) IN
    /\ found = (p # 0)
    /\ IF p = 0 THEN out = in ELSE InsertOK(Without(in, p), e, out, top) /\ RankOK(out, e, top, bottom)
AddOK(in, e, out, top, bottom) ==
    IF Pos(in, Id(e)) # 0 THEN UpdateOK(in, e, out, TRUE, top, bottom)
    ELSE InsertOK(in, e, out, top) /\ RankOK(out, e, top, bottom)
FirstScore(s, x) == IF \E i \in DOMAIN s : Sc(s[i]) = x THEN CHOOSE i \in DOMAIN s : Sc(s[i]) = x /\ \A j \in 1..(i - 1) : Sc(s[j]) # x ELSE 0
FirstsOK(in, scores, out) == /\ From(out, in)
                             /\ \A x \in Range(scores) : FirstScore(in, x) # 0 => in[FirstScore(in, x)] \in Range(out)
=============================================================================
