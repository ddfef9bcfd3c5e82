----------------------------- MODULE ElemTrace -----------------------------
(* Recorded calls of the operations on elements agree with Elems.tla.      *)
EXTENDS Elems, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
Init == l = 2
Is(x) == l <= Len(Trace) /\ Ev.ev = x /\ l' = l + 1
Min(a, b) == IF a < b THEN a ELSE b
(* numbers of six 16 bit limbs: score and tie breaker *)
RECURSIVE Inc(_, _)
Inc(x, i) == IF i = 0 THEN x ELSE IF x[i] < 65535 THEN [x EXCEPT ![i] = @ + 1] ELSE Inc([x EXCEPT ![i] = 0], i - 1)
RECURSIVE Dec(_, _)
Dec(x, i) == IF i = 0 THEN x ELSE IF x[i] > 0 THEN [x EXCEPT ![i] = @ - 1] ELSE Dec([x EXCEPT ![i] = 65535], i - 1)
All(x, v) == \A i \in DOMAIN x : x[i] = v
SeqSet(s) == {s[i] : i \in DOMAIN s}
OK == CASE Ev.ev = "begin" -> TRUE
        [] Ev.ev = "sort" -> SortOK(Ev.in, Ev.out, Ev.changed)
        [] Ev.ev = "dedup" -> DedupOK(Ev.in, Ev.out, Ev.changed, Ev.at)
        [] Ev.ev = "merge" -> Ev.apart /\ MergeOK(Ev.a, Ev.b, Ev.out)
        [] Ev.ev = "mergededup" -> MergeDedupOK(Ev.a, Ev.b, Ev.out)
        [] Ev.ev = "split" -> SplitOK(Ev.in, Ev.n, Ev.parts)
        [] Ev.ev = "insert" -> InsertOK(Ev.in, Ev.e, Ev.out, Ev.idx)
        [] Ev.ev = "add" -> Ev.stamped /\ AddOK(Ev.in, Ev.e, Ev.out, Ev.top, Ev.bottom)
        [] Ev.ev = "update" -> Ev.stamped /\ UpdateOK(Ev.in, Ev.e, Ev.out, Ev.found, Ev.top, Ev.bottom)
        [] Ev.ev = "delete" -> DeleteOK(Ev.in, Ev.id, Ev.out, Ev.found)
        [] Ev.ev = "find" -> LET p == Pos(Ev.in, Ev.id)
                                 q == FirstScore(Ev.in, Ev.score)
                             IN Ev.idx = p - 1 /\ Ev.sidx = q - 1 /\ Ev.e = (IF p = 0 THEN <<>> ELSE Ev.in[p])
        [] Ev.ev = "firsts" -> FirstsOK(Ev.in, Ev.scores, Ev.out)
        [] Ev.ev = "clone" -> Ev.out = Ev.in /\ Ev.apart
        [] Ev.ev = "codec" -> Ev.out = Ev.in /\ Ev.ok
        [] Ev.ev = "ranked" -> /\ Ev.out = [i \in DOMAIN Ev.in |-> <<Ev.in[i], Ev.off + i - 1, Ev.total - (Ev.off + i - 1) - 1>>]
                               /\ Ev.moved = [i \in DOMAIN Ev.in |-> <<Ev.in[i], Ev.off + i - 1 + 7, Ev.total - (Ev.off + i - 1) - 1 - 7>>]
        [] Ev.ev = "times" -> Ev.out = [i \in DOMAIN Ev.in |-> [Ev.in[i] EXCEPT ![3] = Ev.t]]
        [] Ev.ev = "dups" -> Ev.res = (Cardinality(Ids(Ev.in)) < Len(Ev.in))
        [] Ev.ev = "minmax" -> IF Len(Ev.in) = 0 THEN Ev.out = <<Ev.low, Ev.high, Ev.tlow, Ev.thigh>>
                               ELSE LET f == Ev.in[1]
                                        g == Ev.in[Len(Ev.in)]
                                    IN Ev.out = <<Sc(g), Sc(f), Ti(g), Ti(f)>>
        [] Ev.ev = "index" -> /\ Len(Ev.out) = Len(Ev.in)
                              /\ \A i \in DOMAIN Ev.out : Ev.out[i][1] = Ev.out[i][4] /\ Ev.out[i][2] = Ev.seg
                              /\ \A i \in 1..(Len(Ev.out) - 1) : Ev.out[i][1] >= Ev.out[i + 1][1]
                              /\ {<<Ev.out[i][3], Ev.out[i][4]>> : i \in DOMAIN Ev.out} = {<<Up(Ev.in[i]), Id(Ev.in[i])>> : i \in DOMAIN Ev.in}
        [] Ev.ev = "ids" -> /\ Ev.all = [i \in DOMAIN Ev.in |-> Id(Ev.in[i])]
                            /\ \A i \in 1..(Len(Ev.dedup) - 1) : Ev.dedup[i] > Ev.dedup[i + 1]
                            /\ SeqSet(Ev.dedup) = Ids(Ev.in)
                            /\ Cardinality(SeqSet(Ev.notin)) = Len(Ev.notin) /\ SeqSet(Ev.notin) = Ids(Ev.in) \ SeqSet(Ev.other)
                            /\ Cardinality(SeqSet(Ev.overlap)) = Len(Ev.overlap) /\ SeqSet(Ev.overlap) = Ids(Ev.in) \cap SeqSet(Ev.other)
        [] Ev.ev = "above" -> Ev.res = <<Above(Ev.a, Ev.b), Above(Ev.b, Ev.a)>>
        [] Ev.ev = "next" -> /\ Ev.above = (IF All(Ev.x, 65535) THEN Ev.x ELSE Inc(Ev.x, 6))
                             /\ Ev.below = (IF All(Ev.x, 0) THEN Ev.x ELSE Dec(Ev.x, 6))
        [] OTHER -> FALSE
Next == l <= Len(Trace) /\ OK /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == LET d == TLCGet("stats").diameter
            IN IF d = Len(Trace) THEN PrintT(<<"ACCEPTED", Len(Trace)>>)
               ELSE PrintT(<<"REJECTED", d + 1>>) /\ FALSE
=============================================================================
