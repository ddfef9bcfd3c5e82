----------------------------- MODULE LimitImpl -----------------------------
(* How the server keeps the limit: a bucket of K tokens, a select between   *)
(* the bucket, the request's end and the start of shutdown, a deferred      *)
(* return of the token, and a gate all requests pass first.                 *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS K, Rq, Upd   \* requests; those that update
CONSTANTS Deferred,    \* the token is returned whatever the outcome
          Notice       \* waiting requests notice that their client left
VARIABLES pc, bucket, gone, down, late, closed
ivars == <<pc, bucket, gone, down, late, closed>>
Init == /\ pc = [r \in Rq |-> "new"] /\ bucket = K /\ gone = {} /\ down = FALSE /\ late = {}
        /\ closed = FALSE       \* the channel that tells waiting updates of shutdown
Go(r, a, b) == pc[r] = a /\ pc' = [pc EXCEPT ![r] = b]
Arrive(r) == Go(r, "new", "gate") /\ late' = (IF down THEN late \cup {r} ELSE late) /\ UNCHANGED <<bucket, gone, down, closed>>
(* ShutdownMiddleware *)
Gate(r) == /\ IF down THEN Go(r, "gate", "refused") ELSE Go(r, "gate", IF r \in Upd THEN "select" ELSE "work")
           /\ UNCHANGED <<bucket, gone, down, late, closed>>
(* UpdateRequest *)
Take(r) == Go(r, "select", "work") /\ bucket > 0 /\ bucket' = bucket - 1 /\ UNCHANGED <<gone, down, late, closed>>
Left(r) == Notice /\ Go(r, "select", "refused") /\ r \in gone /\ UNCHANGED <<bucket, gone, down, late, closed>>
Told(r) == Go(r, "select", "refused") /\ closed /\ UNCHANGED <<bucket, gone, down, late, closed>>
Worked(r) == Go(r, "work", "back") /\ UNCHANGED <<bucket, gone, down, late, closed>>
Panicked(r) == Go(r, "work", IF Deferred THEN "back" ELSE "end") /\ UNCHANGED <<bucket, gone, down, late, closed>>
Back(r) == Go(r, "back", "end") /\ bucket' = (IF r \in Upd THEN bucket + 1 ELSE bucket) /\ UNCHANGED <<gone, down, late, closed>>
Cancel(r) == pc[r] \in {"gate", "select", "work"} /\ r \notin gone /\ gone' = gone \cup {r} /\ UNCHANGED <<pc, bucket, down, late, closed>>
Shutdown == ~down /\ down' = TRUE /\ UNCHANGED <<pc, bucket, gone, late, closed>>
Close == down /\ ~closed /\ closed' = TRUE /\ UNCHANGED <<pc, bucket, gone, down, late>>
Server(r) == Gate(r) \/ Take(r) \/ Left(r) \/ Told(r) \/ Worked(r) \/ Panicked(r) \/ Back(r)
Next == Shutdown \/ Close \/ \E r \in Rq : Arrive(r) \/ Cancel(r) \/ Server(r)
(* Go's channels are first come, first served: strong fairness of Take. *)
Spec == Init /\ [][Next]_ivars /\ WF_ivars(Close)
        /\ \A r \in Rq : WF_ivars(Gate(r)) /\ SF_ivars(Take(r)) /\ WF_ivars(Left(r)) /\ WF_ivars(Told(r))
                         /\ WF_ivars(Worked(r) \/ Panicked(r)) /\ WF_ivars(Back(r))
(* --- properties *)
Tokens == bucket + Cardinality({r \in Upd : pc[r] \in {"work", "back"}}) = K
Answered == \A r \in Rq : (pc[r] = "gate") ~> (pc[r] \in {"end", "refused"})
LeftRefused == \A r \in Upd : (pc[r] = "select" /\ r \in gone) ~> (pc[r] # "select")
Prompt == \A r \in Rq : (pc[r] = "work" /\ r \notin Upd) ~> pc[r] = "end"
(* It is an implementation of Limit. *)
St(p) == CASE p \in {"gate", "select"} -> "waiting" [] p = "work" -> "running" [] p \in {"back", "end"} -> "done" [] OTHER -> "refused"
reqOf == [r \in {x \in Rq : pc[x] # "new"} |-> [st |-> St(pc[r]), upd |-> r \in Upd, gone |-> r \in gone, late |-> r \in late]]
L == INSTANCE Limit WITH req <- reqOf
LNext == L!Shutdown \/ \E r \in Rq : \/ \E u \in BOOLEAN : L!Arrive(r, u)
                                     \/ L!Grant(r) \/ L!Refuse(r) \/ L!Finish(r) \/ L!Cancel(r)
Refines == L!LimInit /\ [][LNext]_<<reqOf, down>>
(* What is left when the server can do nothing more is stable. *)
Quiet == (\A r \in Rq : ~ENABLED Gate(r) /\ ~ENABLED Take(r) /\ ~ENABLED Left(r) /\ ~ENABLED Told(r) /\ ~ENABLED Back(r)) /\ ~ENABLED Close
         => L!Stable
Bounds == L!LimitHolds /\ L!Served
=============================================================================
