------------------------------- MODULE Limit -------------------------------
(* The limit on concurrently executing updates, and shutdown, as a client   *)
(* sees them (C21).  K = 0: no limit is configured.                         *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANT K
VARIABLES req,   \* the requests so far
          down   \* shutdown has started
lvars == <<req, down>>
Reqs == DOMAIN req
LimInit == req = [r \in {} |-> 0] /\ down = FALSE
In(s) == {r \in Reqs : req[r].st = s}
Working == {r \in In("running") : req[r].upd}
Free == K = 0 \/ Cardinality(Working) < K
Set(r, s) == req' = [req EXCEPT ![r].st = s]
(* late: it came after shutdown had started; gone: its client left *)
Arrive(r, u) == /\ r \notin Reqs /\ UNCHANGED down
                /\ req' = req @@ (r :> [st |-> "waiting", upd |-> u, gone |-> FALSE, late |-> down])
(* It begins to work.  (Whether a waiting request may still do so when its  *)
(* client leaves at the same moment is a matter of luck.)                   *)
Grant(r) == r \in In("waiting") /\ ~req[r].late /\ (req[r].upd => Free) /\ Set(r, "running") /\ UNCHANGED down
Refuse(r) == r \in In("waiting") /\ (req[r].gone \/ down) /\ Set(r, "refused") /\ UNCHANGED down
(* Success, error or panic. *)
Finish(r) == r \in In("running") /\ Set(r, "done") /\ UNCHANGED down
Cancel(r) == r \in In("waiting") \cup In("running") /\ ~req[r].gone /\ req' = [req EXCEPT ![r].gone = TRUE] /\ UNCHANGED down
Shutdown == ~down /\ down' = TRUE /\ UNCHANGED req
(* Nothing waits without a reason: no longer than until all slots are taken *)
(* by requests that work.                                                   *)
Stable == \A r \in In("waiting") : /\ ~req[r].gone /\ ~down
                                   /\ req[r].upd /\ ~Free
(* --- properties *)
LimitHolds == K > 0 => Cardinality(Working) <= K
Served == \A r \in Reqs : req[r].late => req[r].st \in {"waiting", "refused"}
=============================================================================
