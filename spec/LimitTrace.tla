----------------------------- MODULE LimitTrace -----------------------------
(* Recorded schedules of requests are behaviours of Limit.tla.  A request   *)
(* is at work from the moment its storage is first used until the driver    *)
(* lets its storage go on ("release").                                      *)
EXTENDS Limit, Sequences, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceK == Trace[1].k
VARIABLES l, rep, how      \* answers so far; the outcome the storage gave
vars == <<lvars, l, rep, how>>
Ev == Trace[l]
Is(x) == l <= Len(Trace) /\ Ev.ev = x /\ l' = l + 1
None == [r \in {} |-> 0]
Init == l = 2 /\ LimInit /\ rep = None /\ how = None
Calm == /\ Stable
        /\ \A r \in In("done") : r \in DOMAIN rep
Begin == Is("begin") /\ Calm /\ In("running") = {} /\ down' = FALSE /\ req' = None /\ rep' = None /\ how' = None
TStart == Is("start") /\ Arrive(Ev.r, Ev.upd) /\ UNCHANGED <<rep, how>>
TEnter == /\ Is("enter") /\ Ev.r \in Reqs /\ UNCHANGED <<rep, how>>
          /\ IF req[Ev.r].st = "waiting" THEN Grant(Ev.r) ELSE req[Ev.r].st = "running" /\ UNCHANGED lvars
(* The storage operations that wait go on, no later ones: this may be all   *)
(* the request does, or it stops again.                                     *)
TNudge == /\ Is("nudge") /\ Ev.r \in Reqs /\ UNCHANGED rep
          /\ how' = (Ev.r :> "ok") @@ how
          /\ IF req[Ev.r].st = "running" THEN Finish(Ev.r) \/ UNCHANGED lvars ELSE req[Ev.r].st = "done" /\ UNCHANGED lvars
TRelease == /\ Is("release") /\ Ev.r \in Reqs /\ how' = (Ev.r :> Ev.how) @@ how /\ UNCHANGED rep
            /\ IF req[Ev.r].st = "done" THEN UNCHANGED lvars ELSE Finish(Ev.r)
TCancel == Is("cancel") /\ Ev.r \in Reqs /\ UNCHANGED <<rep, how>>
           /\ IF req[Ev.r].st \in {"waiting", "running"} THEN Cancel(Ev.r)
              ELSE req' = [req EXCEPT ![Ev.r].gone = TRUE] /\ UNCHANGED down
TDown == Is("down") /\ Shutdown /\ UNCHANGED <<rep, how>>
Fine(st) == st >= 200 /\ st < 300
TReply == /\ Is("reply") /\ Ev.r \in Reqs /\ Ev.r \notin DOMAIN rep
          /\ rep' = rep @@ (Ev.r :> Ev.st) /\ UNCHANGED how
          /\ LET q == req[Ev.r] IN
             \* (who left at the moment of its turn may be answered with anything)
             CASE q.st = "waiting" /\ (Ev.st >= 400 \/ q.gone) ->
                       /\ Refuse(Ev.r)
                       /\ q.late => Ev.st = 503
               \* a read may need no storage
               [] q.st = "waiting" /\ Ev.st < 400 -> ~q.upd /\ ~q.late /\ Fine(Ev.st) /\ Set(Ev.r, "done") /\ UNCHANGED down
               \* nobody waits for the answer of a read
               [] q.st = "running" -> ~q.upd /\ q.gone /\ Set(Ev.r, "done") /\ UNCHANGED down
               [] q.st = "done" -> /\ (Ev.r \in DOMAIN how /\ how[Ev.r] = "ok" /\ ~q.gone) => Fine(Ev.st)
                                   /\ UNCHANGED lvars
               [] OTHER -> FALSE
TSettled == Is("settled") /\ Calm /\ UNCHANGED <<lvars, rep, how>>
(* Shutdown is complete. *)
TClosed == Is("closed") /\ down /\ In("running") = {} /\ UNCHANGED <<lvars, rep, how>>
(* What the request changes, after it was answered. *)
TFinal == /\ Is("final") /\ Ev.r \in DOMAIN rep /\ UNCHANGED <<lvars, rep, how>>
          /\ req[Ev.r].st = "refused" => Ev.same
          /\ (req[Ev.r].st = "done" /\ Ev.r \in DOMAIN how /\ how[Ev.r] = "ok" /\ ~req[Ev.r].gone) => ~Ev.same
Next == Begin \/ TStart \/ TEnter \/ TNudge \/ TRelease \/ TCancel \/ TDown \/ TReply \/ TSettled \/ TClosed \/ TFinal
Spec == Init /\ [][Next]_vars
Good == LimitHolds /\ Served
Accepted == LET d == TLCGet("stats").diameter
            IN IF d = Len(Trace) THEN PrintT(<<"ACCEPTED", Len(Trace)>>)
               ELSE PrintT(<<"REJECTED", d + 1>>) /\ FALSE
=============================================================================
