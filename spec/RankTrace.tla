----------------------------- MODULE RankTrace -----------------------------
(***************************************************************************)
(* Trace specification: accepts a recorded execution of the Go code iff it *)
(* is a behaviour of RankDB.  One event per public call.  State changing   *)
(* events carry the stored structure of every list afterwards ("post") and *)
(* the keys in the blob store ("keys").                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Tab == Trace[1]
TS(s) == IF s \in 0..(Len(Tab.sc)-1) THEN Tab.sc[s+1] ELSE <<0,0,0,0>>
TT(s) == IF s \in 0..(Len(Tab.ti)-1) THEN Tab.ti[s+1] ELSE <<0,0>>
TI(s) == IF s \in 0..(Len(Tab.id)-1) THEN Tab.id[s+1] ELSE <<0,0,0,0>>

INSTANCE ListOps WITH Base <- 65536, SLimbs <- TS, TLimbs <- TT, ILimbs <- TI, NS <- 4, NT <- 2

VARIABLES l,       \* next event
          lists,   \* list key -> list (segments, index, identity, options)
          saved,   \* registry as saved: list key -> identity and options
          savedB,  \* same, backup registry
          slots    \* backups: list key -> content
vars == <<l, lists, saved, savedB, slots>>

Ev == Trace[l]
None == [k \in {} |-> 0]
NoSave == [k \in {0} |-> 0]
OK == Ev.res = "ok"

Init == l = 2 /\ lists = None /\ saved = NoSave /\ savedB = NoSave /\ slots = None

(* ------------------------- observed structure ------------------------- *)
ObsKeys(ev) == {ev.post[i].k : i \in 1..Len(ev.post)}
Obs(ev, k) == ev.post[CHOOSE i \in 1..Len(ev.post) : ev.post[i].k = k]
Seg(s) == [id |-> s.id, mx |-> s.mx, mn |-> s.mn, els |-> s.els]
Borders(segs) == [i \in 1..Len(segs) |-> [id |-> segs[i].id, mx |-> segs[i].mx, mn |-> segs[i].mn]]

SameStructure(L, o) ==
    /\ o.bad = <<>>
    /\ Len(L.segs) = Len(o.segs)
    /\ \A i \in 1..Len(o.segs) : L.segs[i] = Seg(o.segs[i]) /\ o.segs[i].n = Len(o.segs[i].els)
    /\ Len(L.idx) = Len(o.idx)
    /\ \A i \in 1..Len(o.idx) : L.idx[i] = Seg(o.idx[i]) /\ o.idx[i].n = Len(o.idx[i].els)
(* Only the index is damaged: scores must be as before. *)
SameScores(L, o) ==
    /\ Len(L.segs) = Len(o.segs)
    /\ \A i \in 1..Len(o.segs) : L.segs[i] = Seg(o.segs[i]) /\ o.segs[i].n = Len(o.segs[i].els)
SameIdentity(L, o) == /\ L.id = o.id /\ L.set = o.set /\ L.mz = o.mz /\ L.sz = o.sz /\ L.li = o.li /\ L.meta = o.meta
                      /\ L.sid = o.sid /\ L.xid = o.xid

(* All lists are as the specification says, and the store holds exactly    *)
(* the blobs these lists need.                                             *)
Conform(ls, ev) ==
    /\ ObsKeys(ev) = DOMAIN ls
    /\ \A k \in DOMAIN ls :
          /\ SameIdentity(ls[k], Obs(ev, k))
          /\ IF ls[k].brk THEN SameScores(ls[k], Obs(ev, k)) ELSE SameStructure(ls[k], Obs(ev, k))
    /\ (Tab.keys /\ \A k \in DOMAIN ls : ~ls[k].brk) =>
          Range(ev.keys) = UNION {Range(Obs(ev, k).want) : k \in DOMAIN ls}
(* Structural invariant, for the lists that changed. *)
Valid(ls, ks) == \A k \in ks : ScoresOK(ls[k]) /\ (ls[k].brk \/ IndexOK(ls[k]))

(* New borders are free (splitting and sizing are policy), but they tile.  *)
GoodBorders(o) == o.bad = <<>> /\ Tiling(o.segs) /\ IdxTiling(o.idx)
GoodIdx(o) == o.bad = <<>> /\ IdxTiling(o.idx)

With(k, L) == [x \in DOMAIN lists \cup {k} |-> IF x = k THEN L ELSE lists[x]]
Drop(k) == [x \in DOMAIN lists \ {k} |-> lists[x]]

Step(e) == l <= Len(Trace) /\ Ev.ev = e /\ l' = l + 1
Keep == UNCHANGED <<lists, saved, savedB, slots>>
Change(ls, ks) == /\ lists' = ls
                  /\ Conform(ls, Ev)
                  /\ Valid(ls, ks)

Rk(k) == AllEls(lists[k])

(* ------------------------------ lists --------------------------------- *)
Begin == /\ Step("begin") /\ lists' = None /\ saved' = NoSave /\ savedB' = NoSave /\ slots' = None

Fresh(o, e, id) == [id |-> id, set |-> e.set, mz |-> e.mz, sz |-> e.sz, li |-> e.li, meta |-> e.meta,
                    sid |-> o.sid, xid |-> o.xid, brk |-> FALSE, segs |-> <<>>, idx |-> <<>>]
(* Elements given at creation get the time of creation. *)
Stamped(els) == \A i \in 1..Len(els) : els[i][4] = els[1][4] /\ Ev.lo <= els[i][4] /\ els[i][4] <= Ev.hi

Create == /\ Step("create") /\ OK
          /\ Ev.k \notin DOMAIN lists
          /\ LET o == Obs(Ev, Ev.k)
                 els == IF Ev.clone # 0 THEN Rk(Ev.clone) ELSE Ev.els
             IN /\ Ev.clone = 0 => Stamped(Ev.els)
                /\ GoodBorders(o)
                /\ Change(With(Ev.k, Rebuild(Fresh(o, Ev, Ev.id), els, Borders(o.segs), Borders(o.idx))), {Ev.k})
          /\ UNCHANGED <<saved, savedB, slots>>

(* A list that shares no blob with the old one: new collections.           *)
NewIdentity(L, o) == [L EXCEPT !.sid = o.sid, !.xid = o.xid, !.brk = FALSE]

Populate == /\ Step("pop") /\ OK
            /\ LET o == Obs(Ev, Ev.k)
               IN /\ GoodBorders(o)
                  /\ Change(With(Ev.k, NewIdentity(Rebuild(lists[Ev.k], Ev.els, Borders(o.segs), Borders(o.idx)), o)), {Ev.k})
            /\ UNCHANGED <<saved, savedB, slots>>
Repair == /\ Step("repair") /\ OK
          /\ LET o == Obs(Ev, Ev.k)
             IN /\ GoodBorders(o)
                /\ Change(With(Ev.k, NewIdentity(Rebuild(lists[Ev.k], Rk(Ev.k), Borders(o.segs), Borders(o.idx)), o)), {Ev.k})
          /\ UNCHANGED <<saved, savedB, slots>>
Reindex == /\ Step("reindex") /\ OK
           /\ LET o == Obs(Ev, Ev.k)
              IN /\ GoodIdx(o)
                 /\ Change(With(Ev.k, [NewIndex(lists[Ev.k], Borders(o.idx)) EXCEPT !.xid = o.xid, !.brk = FALSE]), {Ev.k})
           /\ UNCHANGED <<saved, savedB, slots>>
Split == /\ Step("split") /\ OK
         /\ LET o == Obs(Ev, Ev.k)
            IN /\ GoodBorders(o)
               /\ Change(With(Ev.k, Rebuild(lists[Ev.k], Rk(Ev.k), Borders(o.segs), Borders(o.idx))), {Ev.k})
         /\ UNCHANGED <<saved, savedB, slots>>
(* Operations that change no stored data. *)
Stutter == /\ \/ Step("verify") \/ Step("verifyE") \/ Step("release") \/ Step("prune") \/ Step("unlocked")
           /\ OK
           /\ Change(lists, {})
           /\ UNCHANGED <<saved, savedB, slots>>
Damage == /\ Step("damage")
          /\ Change(With(Ev.k, [lists[Ev.k] EXCEPT !.brk = TRUE]), {Ev.k})
          /\ UNCHANGED <<saved, savedB, slots>>

(* Ranked element of the list rk with elements: what every ranked answer has to say. *)
Ranked(x, rk, id, radius) ==
    LET i == RankOf(rk, id)
    IN /\ x.e = rk[i]
       /\ x.ft = i - 1
       /\ x.fb = Len(rk) - i
       /\ x.ab = AboveOf(rk, i, radius)
       /\ x.be = BelowOf(rk, i, radius)

NoBefore(x) == x.bf = <<>>
Placed(x, before) ==
    IF \E i \in 1..Len(before) : before[i][1] = x.e[1]
    THEN /\ Len(x.bf) = 1
         /\ Ranked(x.bf[1], before, x.e[1], 0)
         /\ NoBefore(x.bf[1])
    ELSE NoBefore(x)

RankedAll(out, rk, ids, radius) == \* ids that are present, each once, by rank
    /\ \A i \in 1..Len(out) : out[i].e[1] \in IdsOf(rk) /\ Ranked(out[i], rk, out[i].e[1], radius)
    /\ {out[i].e[1] : i \in 1..Len(out)} = ids \cap IdsOf(rk)
    /\ \A i \in 1..(Len(out)-1) : out[i].ft < out[i+1].ft

Update == /\ Step("upd") /\ OK
          /\ LET L == PutAll(lists[Ev.k], Ev.els)
                 rk == AllEls(L)
                 before == Rk(Ev.k)
             IN /\ Change(With(Ev.k, L), {Ev.k})
                /\ IF Ev.results
                   THEN /\ RankedAll(Ev.out, rk, IdsOf(Ev.els), Ev.radius)
                        /\ \A i \in 1..Len(Ev.out) : Placed(Ev.out[i], before)
                   ELSE Ev.out = <<>>
          /\ UNCHANGED <<saved, savedB, slots>>
Insert == /\ Step("ins") /\ OK
          /\ Change(With(Ev.k, PutAll(lists[Ev.k], Ev.els)), {Ev.k})
          /\ UNCHANGED <<saved, savedB, slots>>
Delete == /\ Step("del") /\ OK
          /\ Change(With(Ev.k, DelAll(lists[Ev.k], Ev.ids)), {Ev.k})
          /\ UNCHANGED <<saved, savedB, slots>>

(* ------------------------------ queries ------------------------------- *)
Top == /\ Step("top") /\ Keep
       /\ LET rk == Rk(Ev.k) IN
          IF OutOfBounds(rk, Ev.off) THEN Ev.res = "oob" /\ Ev.out = <<>>
          ELSE OK /\ Ev.out = TopRange(rk, Ev.off, Ev.n)
Bottom == /\ Step("bottom") /\ Keep
          /\ LET rk == Rk(Ev.k) IN
             IF OutOfBounds(rk, Ev.off) THEN Ev.res = "oob" /\ Ev.out = <<>>
             ELSE OK /\ Ev.out = BottomRange(rk, Ev.off, Ev.n)
Score == /\ Step("score") /\ Keep /\ OK
         /\ LET rk == Rk(Ev.k)
                p == FromScore(rk, Ev.s, Ev.n)
            IN /\ Len(Ev.out) = Len(p)
               /\ \A i \in 1..Len(p) : Ranked(Ev.out[i], rk, rk[p[i]][1], 0) /\ NoBefore(Ev.out[i])
Percentile == /\ Step("pct") /\ Keep /\ OK
              /\ LET rk == Rk(Ev.k)
                 IN IF rk = <<>> THEN Ev.out = <<>>
                    ELSE /\ Len(Ev.out) = 1
                         /\ Ranked(Ev.out[1], rk, rk[PercentileAt(Len(rk), Ev.k16)][1], Ev.radius)
                         /\ NoBefore(Ev.out[1])
Get == /\ Step("get") /\ Keep /\ OK
       /\ RankedAll(Ev.out, Rk(Ev.k), Range(Ev.ids), Ev.radius)
       /\ \A i \in 1..Len(Ev.out) : NoBefore(Ev.out[i])
LenQ == /\ Step("len") /\ Keep /\ OK
        /\ Ev.out = Len(Rk(Ev.k))
Stats == /\ Step("stats") /\ Keep /\ OK
         /\ LET rk == Rk(Ev.k)
            IN /\ Ev.n = Len(rk)
               /\ Ev.segs = Len(lists[Ev.k].segs)
               /\ IF Ev.els /\ rk # <<>>
                  THEN /\ Len(Ev.top) = 1 /\ Ranked(Ev.top[1], rk, rk[1][1], 0)
                       /\ Len(Ev.bot) = 1 /\ Ranked(Ev.bot[1], rk, rk[Len(rk)][1], 0)
                  ELSE Ev.top = <<>> /\ Ev.bot = <<>>

(* -------------------- registry, backups, deletion --------------------- *)
DeleteList == /\ Step("dellist") /\ OK
              /\ Change(Drop(Ev.k), {})
              /\ UNCHANGED <<saved, savedB, slots>>
Backup == /\ Step("backup") /\ OK
          /\ slots' = [k \in DOMAIN slots \cup {Ev.k} |-> IF k = Ev.k THEN lists[k] ELSE slots[k]]
          /\ Change(lists, {})
          /\ UNCHANGED <<saved, savedB>>
Restore == /\ Step("restore") /\ OK
           /\ LET o == Obs(Ev, Ev.k)
                  s == slots[Ev.src]
              IN /\ GoodBorders(o)
                 /\ Change(With(Ev.k, [NewIdentity(Rebuild(s, AllEls(s), Borders(o.segs), Borders(o.idx)), o) EXCEPT !.id = Ev.id]), {Ev.k})
           /\ UNCHANGED <<saved, savedB, slots>>

Ident(L) == [id |-> L.id, set |-> L.set, mz |-> L.mz, sz |-> L.sz, li |-> L.li, meta |-> L.meta, sid |-> L.sid, xid |-> L.xid]
Save == /\ Step("save") /\ OK
        /\ saved' = [k \in DOMAIN lists |-> Ident(lists[k])]
        /\ savedB' = IF Ev.backup THEN saved' ELSE savedB
        /\ Change(lists, {})
        /\ UNCHANGED slots
(* A new manager on the same storage.  The driver restarts only while the  *)
(* saved registry still names the current segment collections.             *)
Restart == /\ Step("restart") /\ OK
           /\ LET reg == IF Ev.lose = 0 THEN saved ELSE savedB
              IN /\ reg # NoSave
                 /\ Range(Ev.known) = DOMAIN reg
                 /\ \A k \in DOMAIN reg : k \in DOMAIN lists /\ reg[k] = Ident(lists[k])
                 /\ Change([k \in DOMAIN reg |-> lists[k]], {})
           /\ UNCHANGED <<saved, savedB, slots>>

(* Paging over the registry (C17): ids are compared as strings by the      *)
(* driver's numbering of the pages' start points (fromK).                  *)
PageOut(ks, n, first) == LET s == SetToSortSeq(ks, <)
                         IN IF first THEN SubSeq(s, 1, Min2(n, Len(s)))
                            ELSE SubSeq(s, Max2(1, Len(s) - n + 1), Len(s))
PageAfter == /\ Step("pageA") /\ Keep
             /\ LET behind == {k \in DOMAIN lists : k \notin Range(Ev.upto)}
                IN IF Ev.n <= 0 THEN Ev.out = <<>>
                   ELSE /\ Ev.out = PageOut(behind, Ev.n, TRUE)
                        /\ Ev.before = Cardinality(DOMAIN lists \ behind)
                        /\ Ev.after = Cardinality(behind) - Len(Ev.out)
PageBefore == /\ Step("pageB") /\ Keep
              /\ LET front == {k \in DOMAIN lists : k \in Range(Ev.below)}
                 IN IF Ev.n <= 0 THEN Ev.out = <<>>
                    ELSE /\ Ev.out = PageOut(front, Ev.n, FALSE)
                         /\ Ev.after = Cardinality(DOMAIN lists \ front)
                         /\ Ev.before = Cardinality(front) - Len(Ev.out)

(* Matching: lists in one of the sets, or with all of the metadata.        *)
MetaOf(k) == Range(lists[k].meta)
Matching(q, sets) == {k \in DOMAIN lists : lists[k].set \in Range(sets) \/ (q # <<>> /\ Range(q) \subseteq MetaOf(k))}
SetSeq(s, set) == Len(s) = Cardinality(set) /\ Range(s) = set
Match == /\ Step("match") /\ Keep
         /\ SetSeq(Ev.out, Matching(Ev.q, Ev.sets))
ByIds == /\ Step("byids") /\ Keep
         /\ Ev.out = [i \in 1..Len(Ev.ks) |-> IF Ev.ks[i] \in DOMAIN lists THEN Ev.ks[i] ELSE -1]
         /\ Ev.ex = SelectSeq(Ev.ks, LAMBDA k : k \in DOMAIN lists)
         /\ Ev.one = Ev.ex
         /\ SetSeq(Ev.all, DOMAIN lists)

Next == \/ Match \/ ByIds \/ Begin \/ Create \/ Populate \/ Repair \/ Reindex \/ Split \/ Stutter \/ Damage
        \/ Update \/ Insert \/ Delete
        \/ Top \/ Bottom \/ Score \/ Percentile \/ Get \/ LenQ \/ Stats
        \/ DeleteList \/ Backup \/ Restore \/ Save \/ Restart \/ PageAfter \/ PageBefore

Spec == Init /\ [][Next]_vars

Accepted == LET d == TLCGet("stats").diameter
            IN IF d = Len(Trace) THEN PrintT(<<"ACCEPTED", Len(Trace)>>)
               ELSE PrintT(<<"REJECTED", d + 1>>) /\ FALSE
=============================================================================
