----------------------------- MODULE FaultTrace -----------------------------
(***************************************************************************)
(* Recorded executions of list operations with failing storage (C09).      *)
(*                                                                         *)
(* opt[k][i]: what list k may hold for ID i, Absent if it may be missing.  *)
(* An ID with one option is certain.  An operation that failed leaves the  *)
(* IDs it addressed uncertain: old, new or missing, and nothing else       *)
(* changes.  clean[k]: no operation failed since the last repair, so all   *)
(* answers are exact and must succeed when storage works.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Tab == Trace[1]
TS(s) == IF s \in 0..(Len(Tab.sc)-1) THEN Tab.sc[s+1] ELSE <<0,0,0,0>>
TT(s) == IF s \in 0..(Len(Tab.ti)-1) THEN Tab.ti[s+1] ELSE <<0,0>>
TI(s) == IF s \in 0..(Len(Tab.id)-1) THEN Tab.id[s+1] ELSE <<0,0,0,0>>
INSTANCE ListOps WITH Base <- 65536, SLimbs <- TS, TLimbs <- TT, ILimbs <- TI, NS <- 4, NT <- 2

Absent == <<>>
VARIABLES l, opt, clean
vars == <<l, opt, clean>>
Ev == Trace[l]
AllIds == 0..(Len(Tab.id)-1)
OptOf(els) == [i \in AllIds |-> LET c == {k \in 1..Len(els) : els[k][1] = i}
                                IN IF c = {} THEN {Absent} ELSE {els[CHOOSE k \in c : TRUE]}]
Sure(o) == {i \in AllIds : Cardinality(o[i]) = 1}
Only(o, i) == CHOOSE e \in o[i] : TRUE
Content(o) == {Only(o, i) : i \in AllIds} \ {Absent}
Rk == Ranking(SetToSeq(Content(opt[Ev.k])))
Init == l = 2 /\ opt = <<>> /\ clean = <<>>
Is(x) == l <= Len(Trace) /\ Ev.ev = x /\ l' = l + 1
Begin == /\ Is("begin")
         /\ opt' = [k \in 1..Len(Ev.lists) |-> OptOf(Ev.lists[k])]
         /\ clean' = [k \in 1..Len(Ev.lists) |-> TRUE]
Ok == Ev.res = "ok"
(* Failing is allowed if storage failed, or something failed earlier. *)
MayFail == Ev.nf > 0 \/ ~clean[Ev.k]
Res == Ok \/ MayFail

(* --- writes: old or new for the addressed IDs; if everything was fine: new *)
Write(new) == \* new: id -> element or Absent
    /\ Res
    /\ opt' = [opt EXCEPT ![Ev.k] = [i \in AllIds |->
                  IF i \notin DOMAIN new THEN @[i]
                  ELSE IF Ok /\ (clean[Ev.k] \/ Cardinality(@[i]) = 1) THEN {new[i]}
                  ELSE @[i] \cup {new[i]} \cup (IF Ok THEN {} ELSE {Absent})]]
    /\ clean' = [clean EXCEPT ![Ev.k] = @ /\ Ok]
NewOf(els) == [i \in IdsOf(els) |-> els[CHOOSE k \in 1..Len(els) : els[k][1] = i]]
Ranked(x, rk, id, radius) ==
    LET i == RankOf(rk, id)
    IN x.e = rk[i] /\ x.ft = i - 1 /\ x.fb = Len(rk) - i /\ x.ab = AboveOf(rk, i, radius) /\ x.be = BelowOf(rk, i, radius)
NewRk(n) == Ranking(SetToSeq((Content(opt[Ev.k]) \ {Only(opt[Ev.k], i) : i \in DOMAIN n}) \cup {n[i] : i \in DOMAIN n}))
Update == /\ Is("upd") /\ Write(NewOf(Ev.els))
          /\ Ok => IF ~Ev.results THEN Ev.out = <<>>
                   ELSE /\ Range(Ev.els) \subseteq {Ev.out[i].e : i \in 1..Len(Ev.out)} \/ ~clean[Ev.k]
                        /\ clean[Ev.k] => LET rk == NewRk(NewOf(Ev.els))
                                          IN \A i \in 1..Len(Ev.out) : Ranked(Ev.out[i], rk, Ev.out[i].e[1], Ev.radius)
Insert == Is("ins") /\ Write(NewOf(Ev.els))
Delete == Is("del") /\ Write([i \in Range(Ev.ids) |-> Absent])
Populate == /\ Is("pop") /\ Res
            /\ LET n == OptOf(Ev.els)
               IN opt' = [opt EXCEPT ![Ev.k] = IF Ok THEN n ELSE [i \in AllIds |-> @[i] \cup n[i] \cup {Absent}]]
            /\ clean' = [clean EXCEPT ![Ev.k] = Ok]

(* --- reads *)
Keep == UNCHANGED <<opt, clean>>
Possible(e) == e[1] \in AllIds /\ e \in opt[Ev.k][e[1]]
Dump == /\ Is("dump") /\ Keep
        /\ IF Ev.res = "oob" THEN \A i \in AllIds : Absent \in opt[Ev.k][i]
           ELSE /\ Res
                /\ Ok => /\ clean[Ev.k] => Sorted(Ev.els)
                         /\ \A k \in 1..Len(Ev.els) : Possible(Ev.els[k])
                         /\ \A i \in Sure(opt[Ev.k]) :
                               Cardinality({k \in 1..Len(Ev.els) : Ev.els[k][1] = i}) = IF Only(opt[Ev.k], i) = Absent THEN 0 ELSE 1
Scan == /\ l <= Len(Trace) /\ Ev.ev \in {"top", "bottom", "score"} /\ l' = l + 1 /\ Keep
        /\ IF ~clean[Ev.k] THEN Ok => \A k \in 1..Len(Ev.els) : Possible(Ev.els[k])
           ELSE LET rk == Rk
                IN IF Ev.ev # "score" /\ OutOfBounds(rk, Ev.off) THEN Ev.res = "oob" \/ (Ev.nf > 0 /\ Ev.res # "ok")
                   ELSE /\ Res
                        /\ Ok => Ev.els = CASE Ev.ev = "top" -> TopRange(rk, Ev.off, Ev.n)
                                            [] Ev.ev = "bottom" -> BottomRange(rk, Ev.off, Ev.n)
                                            [] OTHER -> LET p == FromScore(rk, Ev.s, Ev.n) IN [i \in 1..Len(p) |-> rk[p[i]]]
Near(x) == {x.e} \cup Range(x.ab) \cup Range(x.be)
Get == /\ Is("get") /\ Keep /\ Res
       /\ Ok => /\ \A i \in 1..Len(Ev.out) : \A e \in Near(Ev.out[i]) : Possible(e)
                /\ LET got == {Ev.out[i].e[1] : i \in 1..Len(Ev.out)}
                   IN /\ got \subseteq Range(Ev.ids) /\ (clean[Ev.k] => Cardinality(got) = Len(Ev.out))
                      /\ \A i \in Range(Ev.ids) \cap Sure(opt[Ev.k]) : Only(opt[Ev.k], i) # Absent => i \in got
                /\ clean[Ev.k] => LET rk == Rk IN \A i \in 1..Len(Ev.out) : Ranked(Ev.out[i], rk, Ev.out[i].e[1], Ev.radius)
Pct == /\ Is("pct") /\ Keep /\ Res
       /\ Ok => IF clean[Ev.k]
                THEN LET rk == Rk
                     IN IF rk = <<>> THEN Ev.out = <<>>
                        ELSE Len(Ev.out) = 1 /\ Ranked(Ev.out[1], rk, rk[PercentileAt(Len(rk), Ev.k16)][1], Ev.radius)
                ELSE \A i \in 1..Len(Ev.out) : \A e \in Near(Ev.out[i]) : Possible(e)
Stats == /\ Is("stats") /\ Keep /\ Res
         /\ Ok => IF clean[Ev.k]
                  THEN LET rk == Rk
                       IN IF rk = <<>> THEN Ev.out = <<>>
                          ELSE Len(Ev.out) = 2 /\ Ev.out[1].e = rk[1] /\ Ev.out[2].e = rk[Len(rk)]
                  ELSE \A i \in 1..Len(Ev.out) : Possible(Ev.out[i].e)

(* --- maintenance changes nothing; when splitting or repairing fails, or  *)
(* repair is asked to clear what it cannot load, elements may be missing   *)
Maint == /\ Is("maint") /\ Res
         /\ LET lossy == (Ev.what \in {"split", "repair"} /\ ~Ok) \/ (Ev.clear /\ MayFail)
            IN /\ opt' = IF lossy THEN [opt EXCEPT ![Ev.k] = [i \in AllIds |-> @[i] \cup {Absent}]] ELSE opt
               /\ clean' = [clean EXCEPT ![Ev.k] = @ /\ Ok /\ ~lossy]
(* Repair with working storage succeeds; now the content is certain. *)
Stored == LET o == Ev.post
              L == [segs |-> [i \in 1..Len(o.segs) |-> [id |-> o.segs[i].id, mx |-> o.segs[i].mx, mn |-> o.segs[i].mn, els |-> o.segs[i].els]],
                    idx |-> [i \in 1..Len(o.idx) |-> [id |-> o.idx[i].id, mx |-> o.idx[i].mx, mn |-> o.idx[i].mn, els |-> o.idx[i].els]]]
          IN /\ o.bad = <<>> /\ ListOK(L) /\ AllEls(L) = Ev.els
             /\ \A i \in 1..Len(o.segs) : o.segs[i].n = Len(o.segs[i].els)
             /\ \A i \in 1..Len(o.idx) : o.idx[i].n = Len(o.idx[i].els)
Heal == /\ Is("heal") /\ Ok /\ Stored
        /\ \A i \in AllIds : LET n == OptOf(Ev.els)[i] IN n \subseteq opt[Ev.k][i]
        /\ \A k \in 1..Len(Ev.els) : Ev.els[k][1] \in AllIds
        /\ opt' = [opt EXCEPT ![Ev.k] = OptOf(Ev.els)] /\ clean' = [clean EXCEPT ![Ev.k] = TRUE]

(* A backup that could not be written fails; otherwise it has the content. *)
Backup == /\ Is("backup") /\ Keep /\ Ev.good
          /\ Ev.wf => ~Ok
          /\ Ok \/ MayFail \/ Ev.wf
          /\ Ok => /\ clean[Ev.k] => Sorted(Ev.els)
                   /\ \A k \in 1..Len(Ev.els) : Possible(Ev.els[k])
                   /\ \A i \in Sure(opt[Ev.k]) :
                         Cardinality({k \in 1..Len(Ev.els) : Ev.els[k][1] = i}) = IF Only(opt[Ev.k], i) = Absent THEN 0 ELSE 1

Next == Begin \/ Backup \/ Update \/ Insert \/ Delete \/ Populate \/ Dump \/ Scan \/ Get \/ Pct \/ Stats \/ Maint \/ Heal
Spec == Init /\ [][Next]_vars
Accepted == LET d == TLCGet("stats").diameter
            IN IF d = Len(Trace) THEN PrintT(<<"ACCEPTED", Len(Trace)>>)
               ELSE PrintT(<<"REJECTED", d + 1>>) /\ FALSE
=============================================================================
