------------------------------- MODULE Backup -------------------------------
(***************************************************************************)
(* A backup job (backup/job.go) and what happens meanwhile.                *)
(*                                                                         *)
(* The lists of a request are taken one after another.  The record of a    *)
(* list is put into buffers (message writer, compressor) that reach the    *)
(* destination at any time, at the latest when the job finishes, and only  *)
(* if the destination works.  Lists change, are deleted or fail to load,   *)
(* and the job is cancelled, while another list is being saved.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, A
Lists == 1..N
Gone == -1
Dsts == {"ok", "save", "write", "close", "late"}
VARIABLES ver,    \* list -> version of its content, or Gone
          req, dst,
          pc, cur, \* "start", "next", "in", "final", "done"; list being saved
          bad,    \* lists that fail to load
          canc,   \* the job was cancelled
          succ, errs, other, flag, \* the status: lists, other errors, cancelled
          buf, stored,  \* records <<list, version>> in the buffers, and delivered
          snap,   \* version of each list when it was taken
          acts    \* number of interferences
vars == <<ver, req, dst, pc, cur, bad, canc, succ, errs, other, flag, buf, stored, snap, acts>>
Todo == {k \in req : k \notin succ \cup errs}
Init == /\ ver = [k \in Lists |-> 0] /\ req \in SUBSET Lists /\ dst \in Dsts
        /\ pc = "start" /\ cur = 0 /\ bad = {} /\ canc = FALSE /\ succ = {} /\ errs = {} /\ other = FALSE /\ flag = FALSE
        /\ buf = <<>> /\ stored = <<>> /\ snap = [k \in Lists |-> Gone] /\ acts = 0
Env == UNCHANGED <<req, dst, pc, cur, succ, errs, other, flag, buf, stored, snap>> /\ acts < A /\ acts' = acts + 1
       /\ pc \in {"start", "in"}
Update(k) == Env /\ k # cur /\ ver[k] # Gone /\ ver[k] < 2 /\ ver' = [ver EXCEPT ![k] = @ + 1] /\ UNCHANGED <<bad, canc>>
Remove(k) == Env /\ k # cur /\ ver[k] # Gone /\ ver' = [ver EXCEPT ![k] = Gone] /\ UNCHANGED <<bad, canc>>
Cancel == Env /\ pc = "in" /\ ~canc /\ canc' = TRUE /\ UNCHANGED <<ver, bad>>
Spoil(k) == Env /\ k \notin bad /\ ver[k] # Gone /\ bad' = bad \cup {k} /\ UNCHANGED <<ver, canc>>

Job == UNCHANGED <<ver, req, dst, bad, canc, acts>>
Start == /\ pc = "start" /\ Job /\ UNCHANGED <<cur, succ, errs, flag, buf, stored, snap>>
         /\ IF dst = "save" THEN other' = TRUE /\ pc' = "done" ELSE other' = other /\ pc' = "next"
Take(k) == /\ pc = "next" /\ ~canc /\ k \in Todo /\ \A j \in Todo : k <= j
           /\ Job /\ UNCHANGED <<succ, other, flag, buf, stored>>
           /\ IF ver[k] = Gone THEN errs' = errs \cup {k} /\ UNCHANGED <<pc, cur, snap>>
              ELSE pc' = "in" /\ cur' = k /\ snap' = [snap EXCEPT ![k] = ver[k]] /\ UNCHANGED errs
Saved == /\ pc = "in" /\ cur \notin bad /\ Job
         /\ succ' = succ \cup {cur} /\ buf' = Append(buf, <<cur, ver[cur]>>) /\ pc' = "next" /\ cur' = 0
         /\ UNCHANGED <<errs, other, flag, stored, snap>>
Failed == /\ pc = "in" /\ (cur \in bad \/ canc) /\ Job
          /\ errs' = errs \cup {cur} /\ pc' = "next" /\ cur' = 0
          /\ UNCHANGED <<succ, other, flag, buf, stored, snap>>
Flush == /\ pc \in {"next", "in"} /\ dst # "write" /\ buf # <<>> /\ Job
         /\ stored' = Append(stored, Head(buf)) /\ buf' = Tail(buf)
         /\ UNCHANGED <<pc, cur, succ, errs, other, flag, snap>>
Finish == /\ pc = "next" /\ (Todo = {} \/ canc) /\ Job
          /\ flag' = (canc /\ Todo # {}) /\ pc' = "final" /\ UNCHANGED <<cur, succ, errs, other, buf, stored, snap>>
(* The buffers are written, and the destination closed, before the job is done. *)
Final == /\ pc = "final" /\ Job
         /\ IF dst = "write" THEN other' = TRUE /\ UNCHANGED <<stored, buf>>
            ELSE stored' = stored \o buf /\ buf' = <<>> /\ other' = (dst \in {"close", "late"})
         /\ pc' = "done" /\ UNCHANGED <<cur, succ, errs, flag, snap>>
Next == \/ \E k \in Lists : Update(k) \/ Remove(k) \/ Spoil(k) \/ Take(k)
        \/ Cancel \/ Start \/ Saved \/ Failed \/ Flush \/ Finish \/ Final
Spec == Init /\ [][Next]_vars /\ WF_vars(Take(1) \/ Start \/ Saved \/ Failed \/ Finish \/ Final \/ \E k \in Lists : Take(k))

(* --- C23 *)
Done == pc = "done"
Range(s) == {s[i] : i \in DOMAIN s}
Truthful == (Done /\ ~other) => Range(stored) = {<<k, snap[k]>> : k \in succ}
Partition == /\ succ \cap errs = {} /\ succ \cup errs \subseteq req
             /\ (Done /\ dst # "save" /\ ~flag) => succ \cup errs = req
             /\ flag => canc
Reported == (Done /\ dst # "ok") => other
Reasons == \A k \in errs : k \in bad \/ canc \/ ver[k] = Gone
Single == Cardinality(Range(stored \o buf)) = Len(stored \o buf)
Ends == <>Done
=============================================================================
