------------------------------ MODULE ConcObs ------------------------------
(***************************************************************************)
(* What concurrent users of one list may observe (C07, C08), as an         *)
(* observer over calls and returns.  An observer state is one possible     *)
(* explanation; Succ gives those after one more event.                     *)
(*                                                                         *)
(* Updates, inserts and deletes are atomic: they take effect once, between *)
(* call and return, and the placements an update reports are those of that *)
(* moment.  A backup or clone contains the list as it was at one moment of *)
(* the call.  Reads are weaker: each element that is returned was current  *)
(* for its ID at some moment of the read, where an update may become       *)
(* visible element by element while it runs; a look-up returns no ID twice *)
(* and finds what is in the list all the time.                             *)
(***************************************************************************)
EXTENDS ListOps

Els(m) == {m[i] : i \in DOMAIN m}
RkOf(m) == Ranking(SetToSeq(Els(m)))
Apply(m, q) == IF q.op = "del" THEN [i \in DOMAIN m \ q.ids |-> m[i]]
               ELSE [i \in DOMAIN m \cup q.ids |-> IF i \in q.ids THEN q.new[i] ELSE m[i]]
MapOf(els) == [i \in IdsOf(els) |-> (CHOOSE k \in 1..Len(els) : els[k][1] = i)] \* position

ConcInit(els) == [m |-> [i \in IdsOf(els) |-> els[MapOf(els)[i]]], pend |-> {}]

Writers == {"upd", "ins", "del"}
Base0 == [p |-> 0, op |-> "", ids |-> {}, new |-> <<>>, results |-> FALSE, radius |-> 0,
          lin |-> FALSE, bf |-> <<>>, af |-> <<>>, old |-> {}, absent |-> {},
          poss |-> {}, gone |-> {}, snaps |-> {}]
Call(o, p) == {q \in o.pend : q.p = p}
End(o, q) == [o EXCEPT !.pend = {x \in @ : x.p # q.p}]
Unlin(o) == {q \in o.pend : q.op \in Writers /\ ~q.lin}

(* A pending write takes effect. *)
Lin(o, q) ==
    LET n == Apply(o.m, q)
        done == [q EXCEPT !.lin = TRUE, !.bf = IF q.results THEN o.m ELSE <<>>, !.af = IF q.results THEN n ELSE <<>>,
                          !.old = {o.m[i] : i \in q.ids \cap DOMAIN o.m}, !.absent = q.ids \ DOMAIN o.m]
    IN [m |-> n, pend |-> {IF x = q THEN done
                           ELSE IF x.op = "snap" THEN [x EXCEPT !.snaps = @ \cup {n}] ELSE x : x \in o.pend}]
RECURSIVE LinAny(_)   \* any pending writes, in any order
LinAny(o) == {o} \cup UNION {LinAny(Lin(o, q)) : q \in Unlin(o)}
RECURSIVE LinTo(_, _) \* ... the last being the write of p
LinTo(o, p) == UNION {IF q.p = p THEN {Lin(o, q)} ELSE LinTo(Lin(o, q), p) : q \in Unlin(o)}

NewEls(q) == IF q.op = "del" THEN {} ELSE {q.new[i] : i \in q.ids}

(* ------------------------------- events ------------------------------- *)
WCall(o, e) ==
    LET ids == IF e.ev = "del" THEN Range(e.ids) ELSE IdsOf(e.els)
        q == [Base0 EXCEPT !.p = e.p, !.op = e.ev, !.ids = ids,
                 !.new = IF e.ev = "del" THEN <<>> ELSE [i \in ids |-> e.els[MapOf(e.els)[i]]],
                 !.results = (e.ev = "upd" /\ e.results), !.radius = IF e.ev = "upd" THEN e.radius ELSE 0]
    IN {[o EXCEPT !.pend = {[x EXCEPT !.poss = IF x.op \in {"get", "scan"} THEN @ \cup NewEls(q) ELSE @,
                                      !.gone = IF x.op = "get" /\ e.ev = "del" THEN @ \cup ids ELSE @] : x \in @} \cup {q}]}

(* Ranked answer, see RankTrace *)
Ranked(x, rk, id, radius) ==
    LET i == RankOf(rk, id)
    IN x.e = rk[i] /\ x.ft = i - 1 /\ x.fb = Len(rk) - i /\ x.ab = AboveOf(rk, i, radius) /\ x.be = BelowOf(rk, i, radius)
Placements(q, out) ==
    LET rk == RkOf(q.af)
        bk == RkOf(q.bf)
    IN /\ {out[i].e[1] : i \in 1..Len(out)} = q.ids /\ Len(out) = Cardinality(q.ids)
       /\ \A i \in 1..Len(out) :
             /\ Ranked(out[i], rk, out[i].e[1], q.radius)
             /\ IF out[i].e[1] \in DOMAIN q.bf
                THEN Len(out[i].bf) = 1 /\ Ranked(out[i].bf[1], bk, out[i].e[1], 0)
                ELSE out[i].bf = <<>>
       /\ \A i \in 1..(Len(out)-1) : out[i].ft < out[i+1].ft
WRet(o, e) ==
    IF e.res # "ok" THEN {}
    ELSE UNION {LET hs == IF q.lin THEN {o} ELSE LinTo(o, e.p)
                IN {End(h, q) : h \in {h \in hs : \A x \in Call(h, e.p) :
                        IF x.results THEN Placements(x, e.out) ELSE (x.op = "upd" => e.out = <<>>)}}
                : q \in Call(o, e.p)}

RCall(o, e) ==
    LET ws == {q \in o.pend : q.op \in Writers}
        q == [Base0 EXCEPT !.p = e.p, !.op = IF e.ev = "get" THEN "get" ELSE "scan",
                 !.ids = IF e.ev = "get" THEN Range(e.ids) ELSE {},
                 !.poss = Els(o.m) \cup UNION {NewEls(x) \cup x.old : x \in ws},
                 !.gone = IF e.ev = "get" THEN (Range(e.ids) \ DOMAIN o.m) \cup UNION {x.absent : x \in ws}
                                               \cup UNION {x.ids : x \in {x \in ws : x.op = "del"}} ELSE {}]
    IN {[o EXCEPT !.pend = @ \cup {q}]}
Near(x) == {x.e} \cup Range(x.ab) \cup Range(x.be)
RRet(o, e) ==
    UNION {LET ok ==
              IF q.op = "get"
              THEN /\ e.res = "ok"
                   /\ \A i \in 1..Len(e.out) : Near(e.out[i]) \subseteq q.poss /\ e.out[i].bf = <<>>
                   /\ LET got == {e.out[i].e[1] : i \in 1..Len(e.out)}
                      IN got \subseteq q.ids /\ Cardinality(got) = Len(e.out) /\ q.ids \ q.gone \subseteq got
              ELSE e.res \in {"ok", "oob", "notfound"} /\ Range(e.els) \subseteq q.poss
           IN IF ok THEN {End(o, q)} ELSE {}
           : q \in Call(o, e.p)}

SCall(o, e) == {[o EXCEPT !.pend = @ \cup {[Base0 EXCEPT !.p = e.p, !.op = "snap", !.snaps = {o.m}]}]}
SRet(o, e) ==
    IF e.res # "ok" \/ ~UniqueIds(e.els) \/ ~Sorted(e.els) THEN {}
    ELSE LET m == ConcInit(e.els).m
         IN UNION {IF m \in q.snaps THEN {End(o, q)} ELSE {End(h, q) : h \in {h \in LinAny(o) : h.m = m}} : q \in Call(o, e.p)}

(* Maintenance: must succeed, and is invisible. *)
MCall(o, e) == {[o EXCEPT !.pend = @ \cup {[Base0 EXCEPT !.p = e.p, !.op = "maint"]}]}
MRet(o, e) == IF e.res = "ok" \/ e.free THEN {End(o, q) : q \in Call(o, e.p)} ELSE {}

(* Nothing runs any more: content, and stored form. *)
Final(o, e) == IF o.pend = {} /\ e.res = "ok" /\ Sorted(e.els) /\ o.m = ConcInit(e.els).m THEN {o} ELSE {}

Succ(o, e) == CASE e.ev \in Writers -> WCall(o, e)
                [] e.ev = "wret" -> WRet(o, e)
                [] e.ev \in {"get", "scan"} -> RCall(o, e)
                [] e.ev = "rret" -> RRet(o, e)
                [] e.ev = "snap" -> SCall(o, e)
                [] e.ev = "sret" -> SRet(o, e)
                [] e.ev = "maint" -> MCall(o, e)
                [] e.ev = "mret" -> MRet(o, e)
                [] e.ev = "final" -> Final(o, e)
                [] OTHER -> {}
SuccAll(os, e) == UNION {Succ(o, e) : o \in os}
=============================================================================
