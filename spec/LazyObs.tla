------------------------------ MODULE LazyObs ------------------------------
(***************************************************************************)
(* What users of the write-behind saver and its backing store may observe  *)
(* (C10, C11, C12), as an observer over events.  An observer state is a    *)
(* possible explanation of the events so far; Succ gives the explanations  *)
(* after one more event.  No explanation left: the events are not allowed. *)
(* Used over the design (LazySaver.tla: TLC checks that every behaviour of *)
(* the design is explained) and over recorded traces (LazyTrace.tla).      *)
(*                                                                         *)
(* Versions: every write has its own number v > 0, every delete a number   *)
(* v < 0.  hist[k] is the order in which writes of k took effect.          *)
(*                                                                         *)
(* Events:                                                                 *)
(*  wcall p k v, wret p res     a Set or Delete, its result                *)
(*  gcall p k, gret p res v     a Get; res "nf" is not-found               *)
(*  sbeg i k v dl, send i ok    save number i reaches the backing store,   *)
(*                              v = 0: a delete, and is applied (ok) or    *)
(*                              fails; dl: time until its deadline, ms     *)
(*  sdcall, sdret               Shutdown                                   *)
(*  drained                     the longest age of an item has passed      *)
(*  flushed                     nothing happens any more, no age limit     *)
(*  held same                   a value returned earlier is unchanged      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

ObsInit(nk, init, max, flush, savers, timeout) ==
  [ hist    |-> [k \in 1..nk |-> <<init[k]>>],   \* order of writes
    applied |-> [k \in 1..nk |-> 1],             \* last index that reached the store
    done    |-> [k \in 1..nk |-> 1],             \* last index whose save ended
    failed  |-> {},                              \* keys whose newest write failed to save
    acked   |-> [k \in 1..nk |-> {}],            \* indices acknowledged, not saved yet
    flight  |-> {},                              \* saves that are running: <<i, k, index>>
    pend    |-> {},                              \* calls: [p, op, k, v, must, poss]
    refused |-> FALSE, sd |-> "no",
    max |-> max, flush |-> flush, savers |-> savers, timeout |-> timeout ]

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
InHist(o, k, v) == \E i \in 1..Len(o.hist[k]) : o.hist[k][i] = v
IdxOf(o, k, v) == CHOOSE i \in 1..Len(o.hist[k]) : o.hist[k][i] = v
Latest(o, k) == o.hist[k][Len(o.hist[k])]
(* What a read may return right now. *)
Current(o, k) == {Latest(o, k)} \cup (IF k \in o.failed THEN {o.hist[k][o.applied[k]]} ELSE {})

(* One pending write takes effect. *)
Lin(o, w) ==
    [o EXCEPT !.hist[w.k] = Append(@, w.v), !.failed = @ \ {w.k},
              !.pend = {IF q.op = "get" /\ q.k = w.k THEN [q EXCEPT !.poss = @ \cup {w.v}] ELSE q : q \in @}]
PendW(o, k) == {q \in o.pend : q.op = "set" /\ q.k = k /\ ~q.must /\ ~InHist(o, k, q.v)}
(* All ways to let pending writes of k take effect, the last being w. *)
RECURSIVE LinTo(_, _)
LinTo(o, w) == {Lin(o, w)} \cup UNION {LinTo(Lin(o, x), w) : x \in PendW(o, w.k) \ {w}}
(* ... so that version v has taken effect *)
Have(o, k, v) == IF InHist(o, k, v) THEN {o}
                 ELSE UNION {LinTo(o, w) : w \in {x \in PendW(o, k) : x.v = v}}
Call(o, p) == {q \in o.pend : q.p = p}
Ended(o, q) == [o EXCEPT !.pend = @ \ Call(o, q.p)]

(* Acknowledged writes that are not in the backing store: per running save *)
(* and per queued item at most one token, so there can only be max of them.*)
Unsaved(o) ==
    Cardinality({f \in o.flight : \E j \in o.acked[f[2]] : j <= f[3]})
    + Cardinality({k \in DOMAIN o.hist :
         \E j \in o.acked[k] : j > o.done[k] /\ \A f \in o.flight : f[2] = k => j > f[3]})
Dirty(o) == {k \in DOMAIN o.hist : o.done[k] < Len(o.hist[k])}

WCall(o, e) == {[o EXCEPT !.pend = @ \cup {[p |-> e.p, op |-> "set", k |-> e.k, v |-> e.v,
                     must |-> o.refused \/ o.sd = "done", poss |-> {}]}]}
WRet(o, e) ==
    UNION {IF e.res = "ok"
           THEN IF q.must THEN {}
                ELSE {n \in {LET i == IdxOf(h, q.k, q.v)
                             IN [Ended(h, q) EXCEPT !.acked[q.k] = IF i > o.done[q.k] THEN @ \cup {i} ELSE @]
                             : h \in Have(o, q.k, q.v)} :
                        /\ Unsaved(n) <= n.max
                        /\ o.sd = "done" => n.acked[q.k] = {}}
           ELSE IF e.res = "shutdown" /\ o.sd # "no" /\ ~InHist(o, q.k, q.v)
                THEN {[Ended(o, q) EXCEPT !.refused = TRUE]}
                ELSE {}
           : q \in Call(o, e.p)}
GCall(o, e) == {[o EXCEPT !.pend = @ \cup {[p |-> e.p, op |-> "get", k |-> e.k, v |-> 0,
                     must |-> o.refused \/ o.sd = "done", poss |-> Current(o, e.k)]}]}
PossRead(o, q, vs) == \* explanations in which one of the versions was current during the read
    IF q.poss \cap vs # {} THEN {o}
    ELSE UNION {LinTo(o, w) : w \in {x \in PendW(o, q.k) : x.v \in vs}}
GRet(o, e) ==
    UNION {IF e.res = "shutdown"
           THEN IF o.sd # "no" THEN {[Ended(o, q) EXCEPT !.refused = TRUE]} ELSE {}
           ELSE IF q.must THEN {}
           ELSE IF e.res = "ok" THEN {Ended(h, q) : h \in IF e.v > 0 THEN PossRead(o, q, {e.v}) ELSE {}}
           ELSE IF e.res = "nf" THEN {Ended(h, q) : h \in PossRead(o, q,
                     {v \in q.poss \cup {x.v : x \in PendW(o, q.k)} : v < 0})}
           ELSE {}
           : q \in Call(o, e.p)}
SBeg(o, e) ==
    IF o.sd = "done" \/ Cardinality(o.flight) >= o.savers \/ e.dl < 0 \/ e.dl > o.timeout
       \/ e.k \notin DOMAIN o.hist THEN {}
    ELSE IF e.v > 0
    THEN {[h EXCEPT !.flight = @ \cup {<<e.i, e.k, IdxOf(h, e.k, e.v)>>}] : h \in Have(o, e.k, e.v)}
    ELSE {[o EXCEPT !.flight = @ \cup {<<e.i, e.k, j>>}] :
             j \in {j \in (o.done[e.k]+1)..Len(o.hist[e.k]) : o.hist[e.k][j] < 0}}
         \cup UNION {{[h EXCEPT !.flight = @ \cup {<<e.i, e.k, Len(h.hist[e.k])>>}] : h \in LinTo(o, w)} :
                     w \in {x \in PendW(o, e.k) : x.v < 0}}
SEnd(o, e) ==
    UNION {LET k == f[2]
               i == f[3]
               d == MaxOf({o.done[k], i})
               n == [o EXCEPT !.flight = @ \ {f}, !.done[k] = d,
                              !.acked[k] = {j \in @ : j > d}]
           IN IF e.ok
              THEN \* never older than what is there: the order of the writes
                   IF i > o.applied[k] THEN {[n EXCEPT !.applied[k] = i]} ELSE {}
              ELSE {[n EXCEPT !.failed = IF i = Len(o.hist[k]) THEN @ \cup {k} ELSE @,
                              !.pend = {IF q.op = "get" /\ q.k = k /\ i = Len(o.hist[k])
                                        THEN [q EXCEPT !.poss = @ \cup {o.hist[k][o.applied[k]]}] ELSE q : q \in @}]}
           : f \in {x \in o.flight : x[1] = e.i}}
SdCall(o, e) == IF o.sd = "no" THEN {[o EXCEPT !.sd = "called"]} ELSE {}
SdRet(o, e) == IF o.sd = "called" /\ o.flight = {} /\ \A k \in DOMAIN o.hist : o.acked[k] = {}
               THEN {[o EXCEPT !.sd = "done"]} ELSE {}
Drained(o, e) == IF o.flight = {} /\ Dirty(o) = {} THEN {o} ELSE {}
Flushed(o, e) == IF o.flight = {} /\ Cardinality(Dirty(o)) <= o.flush THEN {o} ELSE {}
Held(o, e) == IF e.same THEN {o} ELSE {}

Succ(o, e) == CASE e.ev = "wcall" -> WCall(o, e)
                [] e.ev = "wret" -> WRet(o, e)
                [] e.ev = "gcall" -> GCall(o, e)
                [] e.ev = "gret" -> GRet(o, e)
                [] e.ev = "sbeg" -> SBeg(o, e)
                [] e.ev = "send" -> SEnd(o, e)
                [] e.ev = "sdcall" -> SdCall(o, e)
                [] e.ev = "sdret" -> SdRet(o, e)
                [] e.ev = "drained" -> Drained(o, e)
                [] e.ev = "flushed" -> Flushed(o, e)
                [] e.ev = "held" -> Held(o, e)
                [] OTHER -> {}
(* The order of the writes that the backing store has already got past     *)
(* cannot be seen any more: keep them in a canonical order.                *)
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET x == MaxOf(S) IN Append(Sorted(S \ {x}), x)
Forget(o) == [o EXCEPT !.hist = [k \in DOMAIN o.hist |->
     LET n == o.applied[k] - 1
     IN Sorted({o.hist[k][i] : i \in 1..n}) \o SubSeq(o.hist[k], n + 1, Len(o.hist[k]))]]
SuccAll(os, e) == LET n == UNION {Succ(o, e) : o \in os}
                  IN IF e.ev \in {"send", "wret"} THEN {Forget(o) : o \in n} ELSE n
=============================================================================
