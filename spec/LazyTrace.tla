----------------------------- MODULE LazyTrace -----------------------------
(* Recorded executions of the write-behind saver against LazyObs.          *)
EXTENDS LazyObs, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Never == {"stuck", "hang", "panic", "crash", "changed"}
VARIABLES l, obs, free   \* free: too many explanations, the rest of the episode is not decided
vars == <<l, obs, free>>
Ev == Trace[l]
Init == l = 2 /\ obs = {} /\ free = FALSE
Begin == /\ l <= Len(Trace) /\ Ev.ev = "begin" /\ l' = l + 1 /\ free' = FALSE
         /\ "nk" \in DOMAIN Ev
         /\ obs' = {ObsInit(Ev.nk, Ev.init, Ev.max, Ev.flush, Ev.savers, Ev.timeout)}
Begin0 == \* a crashed process
         /\ l <= Len(Trace) /\ Ev.ev = "begin" /\ l' = l + 1 /\ free' = FALSE
         /\ "nk" \notin DOMAIN Ev /\ obs' = {}
Step == /\ l <= Len(Trace) /\ Ev.ev # "begin" /\ l' = l + 1
        /\ IF free THEN Ev.ev \notin Never /\ UNCHANGED <<obs, free>>
           ELSE LET n == SuccAll(obs, Ev)
                IN /\ n # {}
                   /\ free' = (Cardinality(n) > 5000)
                   /\ (free' => PrintT(<<"UNDECIDED", l>>))
                   /\ obs' = IF free' THEN {} ELSE n
Next == Begin \/ Begin0 \/ Step
Spec == Init /\ [][Next]_vars
Accepted == LET d == TLCGet("stats").diameter
            IN IF d = Len(Trace) THEN PrintT(<<"ACCEPTED", Len(Trace)>>)
               ELSE PrintT(<<"REJECTED", d + 1>>) /\ FALSE
=============================================================================
