------------------------------ MODULE LimitGen ------------------------------
(* Behaviours of Limit.tla as scripts for the driver: what clients and the  *)
(* operator do, and which of the requests at work finish.                   *)
EXTENDS Limit, Sequences, Integers, Json
CONSTANTS Steps, NReq, Quit    \* Quit: shutdown is part of the script
VARIABLES h, fin
gvars == <<lvars, h, fin>>
Init == LimInit /\ h = <<>> /\ fin = FALSE
Can(r) == req[r].gone \/ down \/ ~req[r].upd \/ Free
Settle == LET w == {r \in In("waiting") : Can(r)} IN
          /\ w # {} /\ LET r == CHOOSE r \in w : \A x \in w : r <= x IN IF req[r].gone \/ down THEN Refuse(r) ELSE Grant(r)
          /\ UNCHANGED <<h, fin>>
Log(a, i) == h' = Append(h, [a |-> a, i |-> i]) /\ UNCHANGED fin
Nth(S, r) == Cardinality({x \in S : x < r})
Env == /\ Stable /\ Len(h) < Steps
       /\ LET n == Cardinality(Reqs) IN
          \/ n < NReq /\ \E u \in BOOLEAN : Arrive(n + 1, u) /\ Log(IF u THEN "upd" ELSE "read", 0)
          \/ \E r \in In("running") : Finish(r) /\ Log("finish", Nth(In("running"), r))
          \/ \E r \in In("waiting") : Cancel(r) /\ Log("quit", Nth(In("waiting"), r))
          \/ \E r \in In("running") : Cancel(r) /\ Log("leave", Nth(In("running"), r))
          \/ Quit /\ Len(h) >= 2 /\ Shutdown /\ Log("down", 0)
Interesting == (\E i \in DOMAIN h : h[i].a = "upd") /\ (Quit => down)
Printed == /\ Stable /\ Len(h) = Steps /\ ~fin /\ fin' = TRUE /\ UNCHANGED <<lvars, h>>
           /\ Interesting => PrintT(ToJson(h))
Next == Settle \/ Env \/ Printed
Spec == Init /\ [][Next]_gvars
Good == LimitHolds /\ Served
=============================================================================
