----------------------------- MODULE BulkTrace -----------------------------
(***************************************************************************)
(* Recorded executions on large lists: accepted iff every answer, and what *)
(* is stored afterwards, is what the list of blocks (Blocks.tla) says.     *)
(* Answers and stored elements are given as maximal runs of elements.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils, Blocks
Trace == ndJsonDeserialize(IOEnv.TRACE)
Z(x) == <<x>>
LO == INSTANCE ListOps WITH Base <- 65536, SLimbs <- Z, TLimbs <- Z, ILimbs <- Z, NS <- 4, NT <- 2

VARIABLES l, B, asc
vars == <<l, B, asc>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.ev = e /\ l' = l + 1
OK == Ev.res = "ok"
Init == l = 2 /\ B = <<>> /\ asc = FALSE
Begin == Is("begin") /\ B' = <<>> /\ asc' = Ev.asc

(* ------------------------------ stored form --------------------------- *)
Filled(segs) == SelectSeq(segs, LAMBDA s : s.cnt > 0)
Sum(segs) == FoldLeft(LAMBDA n, s : n + s.cnt, 0, segs)
Inside(segs) == \A i \in 1..Len(segs) :
                   /\ segs[i].n = segs[i].cnt
                   /\ segs[i].cnt > 0 => LO!LexLeq(segs[i].mn, segs[i].last) /\ LO!LexLeq(segs[i].first, segs[i].mx)
IdRuns(bl) == BNorm(FALSE, BSorted(FALSE, [i \in 1..Len(bl) |-> <<bl[i][1], bl[i][2], 0, 0>>]))
Stored(bl, p) ==
    /\ p.bad = <<>>
    /\ p.runs = bl
    /\ LO!Tiling(p.segs) /\ Inside(p.segs) /\ Sum(p.segs) = BSize(bl)
    /\ LO!IdxTiling(p.idx) /\ Inside(p.idx) /\ Sum(p.idx) = BSize(bl)
    /\ p.idruns = IdRuns(bl)
    /\ LET f == Filled(p.segs) IN p.ptr = [i \in 1..Len(f) |-> <<f[i].id, f[i].cnt>>]
    /\ Range(p.want) = Range(p.keys)
Becomes(bl) == B' = bl /\ Stored(bl, Ev.post) /\ UNCHANGED asc

(* ------------------------------- answers ------------------------------ *)
\* a run: ids f..t in ranking order, rank of the first, what they had before (bk = 1)
RunLen(r) == (IF r.f < r.t THEN r.t - r.f ELSE r.f - r.t) + 1
Lo(r) == BMin(r.f, r.t)
Hi(r) == BMax(r.f, r.t)
Asked(ivs, lo, hi) == FoldLeft(LAMBDA n, v : n + BMax(0, BMin(hi, v[2]) - BMax(lo, v[1]) + 1), 0, ivs)
Placed(bl, r, ft, fb, slot, upd) == \* all of the run is in one block, with these ranks
    /\ BHas(bl, r.f) /\ BHas(bl, r.t)
    /\ LET i == BIdx(bl, r.f) IN i = BIdx(bl, r.t) /\ bl[i][3] = slot /\ bl[i][4] = upd
    /\ BRank(asc, bl, r.f) = ft /\ BRank(asc, bl, r.t) = ft + RunLen(r) - 1
    /\ fb = BSize(bl) - 1 - ft
Run(bl, r) == Placed(bl, r, r.ft, r.fb, r.slot, r.upd)
Runs(bl, out, ivs) ==
    /\ \A i \in 1..Len(out) : Run(bl, out[i]) /\ Asked(ivs, Lo(out[i]), Hi(out[i])) = RunLen(out[i])
    /\ \A i \in 1..(Len(out) - 1) : out[i].ft + RunLen(out[i]) <= out[i + 1].ft
    /\ FoldLeft(LAMBDA n, r : n + RunLen(r), 0, out) = BCount(bl, ivs)
Earlier(old, r) == IF r.bk = 1 THEN Placed(old, r, r.bft, r.bfb, r.bslot, r.bupd) ELSE ~BTouches(old, Lo(r), Hi(r))
Neighbours(bl, nb) == \A i \in 1..Len(nb) :
    LET x == nb[i]
        p == BRank(asc, bl, x.id)
        n == BSize(bl)
    IN /\ x.ab = [k \in 1..BMin(x.radius, p) |-> BAt(asc, bl, p - k)]
       /\ x.be = [k \in 1..BMin(x.radius, n - 1 - p) |-> BAt(asc, bl, p + k)]
NoneBefore(out) == \A i \in 1..Len(out) : out[i].bk = 0

(* ------------------------------- changes ------------------------------ *)
Populate == Is("pop") /\ OK /\ Becomes(BPut(asc, <<>>, Ev.blocks))
Update == /\ Is("upd") /\ OK
          /\ LET nw == BPut(asc, B, Ev.blocks)
             IN /\ Becomes(nw)
                /\ IF Ev.results
                   THEN /\ Runs(nw, Ev.out, Ev.blocks) /\ \A i \in 1..Len(Ev.out) : Earlier(B, Ev.out[i])
                        /\ Neighbours(nw, Ev.nb)
                   ELSE Ev.out = <<>>
Insert == Is("ins") /\ OK /\ Becomes(BPut(asc, B, Ev.blocks))
Delete == Is("del") /\ OK /\ Becomes(BDel(asc, B, Ev.ivs))
(* Nothing the user sees changes; copies replace the list. *)
Same == /\ Is("split") \/ Is("reindex") \/ Is("repair") \/ Is("release") \/ Is("verify") \/ Is("verifyE") \/ Is("clone") \/ Is("restore")
        /\ OK /\ Becomes(B)

(* ------------------------------- queries ------------------------------ *)
Query(e) == Is(e) /\ UNCHANGED <<B, asc>>
Outside == Ev.off < 0 \/ Ev.off >= BSize(B)
Top == /\ Query("top")
       /\ IF Outside THEN Ev.res = "oob" /\ Ev.out = <<>> ELSE OK /\ Ev.out = BNorm(asc, BSlice(asc, B, Ev.off, Ev.n))
Bottom == /\ Query("bottom")
          /\ IF Outside THEN Ev.res = "oob" /\ Ev.out = <<>>
             ELSE OK /\ Ev.out = BNorm(asc, BSlice(asc, B, BSize(B) - 1 - Ev.off, Ev.n))
Score == /\ Query("score") /\ OK
         /\ LET a == BHigher(B, Ev.slot, Ev.id)
            IN /\ \A i \in 1..Len(Ev.out) : Run(B, Ev.out[i])
               /\ NoneBefore(Ev.out)
               /\ BNorm(asc, [i \in 1..Len(Ev.out) |-> <<Lo(Ev.out[i]), Hi(Ev.out[i]), Ev.out[i].slot, Ev.out[i].upd>>]) = BNorm(asc, BSlice(asc, B, a, Ev.n))
Get == Query("get") /\ OK /\ Runs(B, Ev.out, Ev.ivs) /\ NoneBefore(Ev.out) /\ Neighbours(B, Ev.nb)
LenQ == Query("len") /\ OK /\ Ev.out = BSize(B)
Percentile == /\ Query("pct") /\ OK
              /\ IF B = <<>> THEN Ev.out = <<>>
                 ELSE /\ Len(Ev.out) = 1 /\ Run(B, Ev.out[1]) /\ RunLen(Ev.out[1]) = 1 /\ NoneBefore(Ev.out)
                      /\ Ev.out[1].ft = LO!PercentileAt(BSize(B), Ev.k16) - 1
                      /\ Neighbours(B, Ev.nb)
Stats == /\ Query("stats") /\ OK /\ Ev.n = BSize(B)
         /\ IF B = <<>> THEN Ev.out = <<>>
            ELSE /\ Len(Ev.out) = 2 /\ Run(B, Ev.out[1]) /\ Run(B, Ev.out[2])
                 /\ Ev.out[1].ft = 0 /\ Ev.out[2].fb = 0

Next == Begin \/ Populate \/ Update \/ Insert \/ Delete \/ Same \/ Top \/ Bottom \/ Score \/ Get \/ LenQ \/ Percentile \/ Stats
Spec == Init /\ [][Next]_vars
Accepted == LET d == TLCGet("stats").diameter
            IN IF d = Len(Trace) THEN PrintT(<<"ACCEPTED", Len(Trace)>>)
               ELSE PrintT(<<"REJECTED", d + 1>>) /\ FALSE
=============================================================================
