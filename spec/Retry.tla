------------------------------- MODULE Retry -------------------------------
(***************************************************************************)
(* One call through the retrying store (blobstore/retry.go): attempts on   *)
(* the store below, the back-off strategy, and the context of the caller.  *)
(***************************************************************************)
EXTENDS Integers, Sequences
Always == {"notfound", "toobig", "canceled"}   \* cannot be cured by trying again
VARIABLES ph,      \* idle, try, failed, wait, return, done
          perm,    \* errors configured as permanent
          n,       \* attempts made
          last,    \* outcome of the last attempt
          ended    \* the context of the caller has ended
rvars == <<ph, perm, n, last, ended>>

Called(p) == ph = "idle" /\ perm = p /\ n = 0 /\ last = "" /\ ended = FALSE

End == /\ ph \notin {"done"} /\ ~ended /\ ended' = TRUE
       /\ UNCHANGED <<ph, perm, n, last>>
(* An attempt: the first one, or after waiting, while the caller still cares. *)
Attempt == /\ ph = "idle" \/ (ph = "wait" /\ ~ended)
           /\ ph' = "try" /\ n' = n + 1
           /\ UNCHANGED <<perm, last, ended>>
Final(o) == o = "ok" \/ o \in Always \cup perm
Outcome(o) == /\ ph = "try" /\ last' = o
              /\ ph' = IF Final(o) \/ ended THEN "return" ELSE "failed"
              /\ UNCHANGED <<perm, n, ended>>
(* The strategy is asked. *)
BackOff(more) == /\ ph = "failed"
                 /\ ph' = IF more THEN "wait" ELSE "return"
                 /\ UNCHANGED <<perm, n, last, ended>>
MayReturn == ph = "return" \/ (ended /\ ph \in {"failed", "wait"}) \/ (ended /\ ph = "idle")
Return == /\ MayReturn /\ ph' = "done"
          /\ UNCHANGED <<perm, n, last, ended>>
=============================================================================
