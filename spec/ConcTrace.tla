----------------------------- MODULE ConcTrace -----------------------------
(* Recorded executions with concurrent calls on lists, against ConcObs.    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Tab == Trace[1]
TS(s) == IF s \in 0..(Len(Tab.sc)-1) THEN Tab.sc[s+1] ELSE <<0,0,0,0>>
TT(s) == IF s \in 0..(Len(Tab.ti)-1) THEN Tab.ti[s+1] ELSE <<0,0>>
TI(s) == IF s \in 0..(Len(Tab.id)-1) THEN Tab.id[s+1] ELSE <<0,0,0,0>>
INSTANCE ConcObs WITH Base <- 65536, SLimbs <- TS, TLimbs <- TT, ILimbs <- TI, NS <- 4, NT <- 2

Never == {"stuck", "hang", "panic", "crash"}
VARIABLES l, obs, free  \* obs: list -> explanations; free: lists with too many explanations
vars == <<l, obs, free>>
Ev == Trace[l]
Init == l = 2 /\ obs = <<>> /\ free = {}
Begin == /\ l <= Len(Trace) /\ Ev.ev = "begin" /\ l' = l + 1 /\ free' = {}
         /\ obs' = IF "lists" \in DOMAIN Ev THEN [k \in 1..Len(Ev.lists) |-> {ConcInit(Ev.lists[k])}] ELSE <<>>
(* The stored form at the end is valid and holds the same. *)
Stored == LET o == Ev.post
              L == [segs |-> [i \in 1..Len(o.segs) |-> [id |-> o.segs[i].id, mx |-> o.segs[i].mx, mn |-> o.segs[i].mn, els |-> o.segs[i].els]],
                    idx |-> [i \in 1..Len(o.idx) |-> [id |-> o.idx[i].id, mx |-> o.idx[i].mx, mn |-> o.idx[i].mn, els |-> o.idx[i].els]]]
          IN /\ o.bad = <<>> /\ ListOK(L) /\ AllEls(L) = Ev.els
             /\ \A i \in 1..Len(o.segs) : o.segs[i].n = Len(o.segs[i].els)
             /\ \A i \in 1..Len(o.idx) : o.idx[i].n = Len(o.idx[i].els)
Step == /\ l <= Len(Trace) /\ Ev.ev # "begin" /\ Ev.ev \notin Never /\ l' = l + 1
        /\ (Ev.ev = "final" => Stored)
        /\ IF Ev.k \in free THEN UNCHANGED <<obs, free>>
           ELSE LET n == SuccAll(obs[Ev.k], Ev)
                IN /\ n # {}
                   /\ free' = IF Cardinality(n) > 2000 THEN free \cup {Ev.k} ELSE free
                   /\ (free' # free => PrintT(<<"UNDECIDED", l>>))
                   /\ obs' = [obs EXCEPT ![Ev.k] = n]
Next == Begin \/ Step
Spec == Init /\ [][Next]_vars
Accepted == LET d == TLCGet("stats").diameter
            IN IF d = Len(Trace) THEN PrintT(<<"ACCEPTED", Len(Trace)>>)
               ELSE PrintT(<<"REJECTED", d + 1>>) /\ FALSE
=============================================================================
