----------------------------- MODULE RetryTrace -----------------------------
(* Recorded calls through the retrying store are behaviours of Retry.tla.  *)
EXTENDS Retry, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, cur
vars == <<rvars, l, cur>>
Ev == Trace[l]
Is(x) == l <= Len(Trace) /\ Ev.ev = x /\ l' = l + 1
Init == l = 2 /\ cur = [ev |-> "none"] /\ ph = "done" /\ perm = {} /\ n = 0 /\ last = "" /\ ended = FALSE
Range(s) == {s[i] : i \in DOMAIN s}
Begin == /\ Is("begin") /\ ph = "done"
         /\ cur' = Ev /\ ph' = "idle" /\ perm' = Range(Ev.perm) /\ n' = 0 /\ last' = "" /\ ended' = FALSE
Keep == UNCHANGED cur
TEnd == Is("end") /\ End /\ Keep
(* the attempt is on the right blob, and limited by the configured timeout *)
TAttempt == /\ Is("attempt") /\ Attempt /\ Keep
            /\ Ev.same /\ Ev.limited = cur.limited /\ Ev.within /\ Ev.full
(* the attempt learns that the caller's context ended *)
Told == Is("told") /\ Ev.ok /\ Keep /\ UNCHANGED rvars
TOutcome == Is("outcome") /\ Ev.o \notin {"hang", "none"} /\ Outcome(Ev.o) /\ Keep
TBackOff == Is("backoff") /\ BackOff(Ev.more) /\ Keep
TReturn == /\ Is("ret") /\ Return /\ Keep
           /\ Ev.prompt     \* not after the pause only, when the context ended
           /\ Ev.ok = (last = "ok")
           /\ IF last = "ok" THEN Ev.v = (IF cur.op = "get" THEN n ELSE 0)
              ELSE n > 0 => n \in Range(Ev.errs)
Next == Begin \/ TEnd \/ TAttempt \/ Told \/ TOutcome \/ TBackOff \/ TReturn
Spec == Init /\ [][Next]_vars
Accepted == LET d == TLCGet("stats").diameter
            IN IF d = Len(Trace) THEN PrintT(<<"ACCEPTED", Len(Trace)>>)
               ELSE PrintT(<<"REJECTED", d + 1>>) /\ FALSE
=============================================================================
