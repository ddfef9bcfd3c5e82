------------------------------ MODULE RetryGen ------------------------------
(* All behaviours of Retry.tla with up to Max attempts, printed as scripts *)
(* for the driver, and properties of all of them.                          *)
EXTENDS Retry, TLC, Json
CONSTANTS Max, Errors
VARIABLES h, done
gvars == <<rvars, h, done>>
GInit == \E p \in {{}, {"P"}} : /\ ph = "idle" /\ perm = p /\ n = 0 /\ last = "" /\ ended = FALSE
                                /\ h = <<[a |-> "call", o |-> IF p = {} THEN "" ELSE "P"]>> /\ done = FALSE
Log(a, o) == h' = Append(h, [a |-> a, o |-> o]) /\ UNCHANGED done
(* The context ends before the call, in an attempt, when the strategy is   *)
(* asked (and decides to go on), or in the pause.                          *)
GEnd == (ph \in {"idle", "try", "wait"}) /\ End /\ Log("end", ph)
GAttempt == n < Max /\ Attempt /\ Log("attempt", "")
GOutcome == \E o \in Errors \cup {"ok"} \cup (IF ended THEN {"ctxerr"} ELSE {}) :
                  Outcome(o) /\ Log("outcome", o)
GBackOff == \E more \in BOOLEAN : BackOff(more) /\ Log("backoff", IF more THEN "more" ELSE "stop") /\ (more => n < Max)
GReturn == Return /\ (n = 0 => FALSE) /\ Log("return", "")
Printed == ph = "done" /\ ~done /\ done' = TRUE /\ PrintT(ToJson(h)) /\ UNCHANGED <<rvars, h>>
GNext == GEnd \/ GAttempt \/ GOutcome \/ GBackOff \/ GReturn \/ Printed
GSpec == GInit /\ [][GNext]_gvars /\ WF_gvars(GNext)
(* --- what the statement of C14 says *)
Outs == {i \in DOMAIN h : h[i].a = "outcome"}
LastOut == IF Outs = {} THEN 0 ELSE CHOOSE i \in Outs : \A j \in Outs : j <= i
Result == ph = "done" => LastOut # 0 /\ last = h[LastOut].o
(* nothing follows a success, a permanent error, or the end of the context *)
NoMore == \A i, j \in DOMAIN h : (i < j /\ h[j].a = "attempt") =>
             /\ ~(h[i].a = "outcome" /\ Final(h[i].o))
             /\ ~(h[i].a = "end" /\ \E k \in 1..(i - 1) : h[k].a = "attempt")
             /\ ~(h[i].a = "backoff" /\ h[i].o = "stop")
(* a curable error is retried as long as the strategy allows *)
Retried == ph = "done" => \/ last = "ok" \/ Final(last) \/ ended \/ \E i \in DOMAIN h : h[i].a = "backoff" /\ h[i].o = "stop"
Ends == <>(ph = "done")
=============================================================================
