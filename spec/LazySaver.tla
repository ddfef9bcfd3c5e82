----------------------------- MODULE LazySaver -----------------------------
(***************************************************************************)
(* Design of blobstore/lazysaver.go, one action per critical section:      *)
(* writers add to the queue under the lock and then wait for a token, one  *)
(* request handler picks the next item, savers save it, return its token   *)
(* and remove it.  Every observable step is given to the observer LazyObs; *)
(* the invariant Explained says that users never see anything that C10,    *)
(* C11 and C12 exclude.                                                    *)
(*                                                                         *)
(* Ordered = FALSE is the code before the repair (a newer value may be     *)
(* saved while an older save of the same key runs): TLC finds the          *)
(* violation.  Acked = FALSE: overwriting does not wait for the token.     *)
(* Recheck = FALSE: shutting down is checked only before the lock.         *)
(***************************************************************************)
EXTENDS LazyObs, TLC
CONSTANTS NK, Procs, MaxItems, Flush, Savers, MaxOps, Fail, Ordered, AckWait, Recheck, UseShutdown, Observe
Keys == 1..NK

VARIABLES queue,    \* Seq of [n, k, v, saving, ready]   n: item number
          tokens, pc, todo, slots, store, sd, handler, cnt, obs, ev
vars == <<queue, tokens, pc, todo, slots, store, sd, handler, cnt, obs, ev>>
\* pc[p]: "idle", or where the call of p is; todo[p]: its arguments
\* slots[s]: the item saver s has, <<>> if none; store[k]: the backing store

Emit(e) == /\ ev' = IF Observe THEN e ELSE ev
           /\ obs' = IF Observe THEN SuccAll(obs, e) ELSE obs
Silent == UNCHANGED obs /\ ev' = IF Observe THEN [ev |-> "none"] ELSE ev
NoTodo == [op |-> "", k |-> 0, v |-> 0, n |-> 0]

Init == /\ queue = <<>> /\ tokens = MaxItems /\ pc = [p \in Procs |-> "idle"] /\ todo = [p \in Procs |-> NoTodo]
        /\ slots = [s \in 1..Savers |-> <<>>] /\ store = [k \in Keys |-> -1] /\ sd = -2 /\ handler = "run" /\ cnt = 1
        /\ obs = {ObsInit(NK, [k \in Keys |-> -1], MaxItems, Flush, Savers, 10)} /\ ev = [ev |-> "none"]

Idx(k) == {i \in 1..Len(queue) : queue[i].k = k}
Newest(k) == CHOOSE i \in Idx(k) : \A j \in Idx(k) : j <= i     \* cacheIdx
SavingKey(k) == \E i \in Idx(k) : queue[i].saving
Next1 == {i \in 1..Len(queue) : ~queue[i].saving /\ (Ordered => ~SavingKey(queue[i].k))}

(* ------------------------------ requests ------------------------------ *)
WriteCall(p, k, del) ==
    /\ pc[p] = "idle" /\ cnt <= MaxOps
    /\ LET v == IF del THEN -(cnt + 1) ELSE cnt
       IN /\ todo' = [todo EXCEPT ![p] = [op |-> "set", k |-> k, v |-> v, n |-> 0]]
          /\ Emit([ev |-> "wcall", p |-> p, k |-> k, v |-> v])
    /\ cnt' = cnt + 1 /\ pc' = [pc EXCEPT ![p] = "check"]
    /\ UNCHANGED <<queue, tokens, slots, store, sd, handler>>
ReadCall(p, k) ==
    /\ pc[p] = "idle" /\ cnt <= MaxOps /\ cnt' = cnt + 1
    /\ todo' = [todo EXCEPT ![p] = [op |-> "get", k |-> k, v |-> 0, n |-> 0]]
    /\ Emit([ev |-> "gcall", p |-> p, k |-> k])
    /\ pc' = [pc EXCEPT ![p] = "check"]
    /\ UNCHANGED <<queue, tokens, slots, store, sd, handler>>
Check(p) == \* shutting down, under the read lock
    /\ pc[p] = "check" /\ Silent
    /\ pc' = [pc EXCEPT ![p] = IF sd # -2 THEN "refuse" ELSE todo[p].op]
    /\ UNCHANGED <<queue, tokens, todo, slots, store, sd, handler, cnt>>
Refuse(p) ==
    /\ pc[p] = "refuse" /\ pc' = [pc EXCEPT ![p] = "idle"] /\ todo' = [todo EXCEPT ![p] = NoTodo]
    /\ Emit(IF todo[p].op = "get" THEN [ev |-> "gret", p |-> p, res |-> "shutdown", v |-> 0]
            ELSE [ev |-> "wret", p |-> p, res |-> "shutdown"])
    /\ UNCHANGED <<queue, tokens, slots, store, sd, handler, cnt>>
Write(p) == \* l.set, l.delete: the locked part
    /\ pc[p] = "set" /\ Silent
    /\ LET t == todo[p]
       IN IF Recheck /\ sd # -2
          THEN pc' = [pc EXCEPT ![p] = "refuse"] /\ UNCHANGED <<queue, todo>>
          ELSE IF Idx(t.k) # {} /\ ~queue[Newest(t.k)].saving
          THEN /\ queue' = [queue EXCEPT ![Newest(t.k)].v = t.v]
               /\ todo' = [todo EXCEPT ![p].n = queue[Newest(t.k)].n]
               /\ pc' = [pc EXCEPT ![p] = IF AckWait /\ ~queue[Newest(t.k)].ready THEN "queued" ELSE "ack"]
          ELSE /\ queue' = Append(queue, [n |-> t.v, k |-> t.k, v |-> t.v, saving |-> FALSE, ready |-> FALSE])
               /\ todo' = [todo EXCEPT ![p].n = t.v]
               /\ pc' = [pc EXCEPT ![p] = "token"]
    /\ UNCHANGED <<tokens, slots, store, sd, handler, cnt>>
Token(p) ==
    /\ pc[p] = "token" /\ tokens > 0 /\ Silent
    /\ tokens' = tokens - 1
    /\ pc' = [pc EXCEPT ![p] = "taken"]
    /\ UNCHANGED <<queue, slots, todo, store, sd, handler, cnt>>
Queued(n, pcs) == [q \in Procs |-> IF pcs[q] = "queued" /\ todo[q].n = n THEN "ack" ELSE pcs[q]]
Taken(p) == \* the token belongs to the item, unless that was saved meanwhile
    /\ pc[p] = "taken" /\ Silent
    /\ LET there == \E i \in 1..Len(queue) : queue[i].n = todo[p].n
       IN /\ tokens' = IF there THEN tokens ELSE tokens + 1
          /\ queue' = [i \in 1..Len(queue) |-> IF queue[i].n = todo[p].n THEN [queue[i] EXCEPT !.ready = TRUE] ELSE queue[i]]
    /\ pc' = Queued(todo[p].n, [pc EXCEPT ![p] = "ack"])
    /\ UNCHANGED <<slots, todo, store, sd, handler, cnt>>
Ack(p) ==
    /\ pc[p] = "ack" /\ pc' = [pc EXCEPT ![p] = "idle"] /\ todo' = [todo EXCEPT ![p] = NoTodo]
    /\ Emit([ev |-> "wret", p |-> p, res |-> "ok"])
    /\ UNCHANGED <<queue, tokens, slots, store, sd, handler, cnt>>
Lookup(p) == \* l.get: the locked part
    /\ pc[p] = "get" /\ Silent
    /\ LET k == todo[p].k
       IN IF Idx(k) # {} THEN /\ todo' = [todo EXCEPT ![p].v = queue[Newest(k)].v]
                              /\ pc' = [pc EXCEPT ![p] = "got"]
          ELSE pc' = [pc EXCEPT ![p] = "load"] /\ UNCHANGED todo
    /\ UNCHANGED <<queue, tokens, slots, store, sd, handler, cnt>>
LoadStore(p) ==
    /\ pc[p] = "load" /\ Silent
    /\ todo' = [todo EXCEPT ![p].v = store[todo[p].k]] /\ pc' = [pc EXCEPT ![p] = "got"]
    /\ UNCHANGED <<queue, tokens, slots, store, sd, handler, cnt>>
Got(p) ==
    /\ pc[p] = "got" /\ pc' = [pc EXCEPT ![p] = "idle"] /\ todo' = [todo EXCEPT ![p] = NoTodo]
    /\ Emit(IF todo[p].v > 0 THEN [ev |-> "gret", p |-> p, res |-> "ok", v |-> todo[p].v]
            ELSE [ev |-> "gret", p |-> p, res |-> "nf", v |-> 0])
    /\ UNCHANGED <<queue, tokens, slots, store, sd, handler, cnt>>

(* --------------------------- handler, savers -------------------------- *)
(* The time of an item may pass at any moment, so any next item may be     *)
(* sent; fairness makes it happen.                                         *)
Send(s) ==
    /\ handler = "run" /\ slots[s] = <<>> /\ Next1 # {}
    /\ LET i == CHOOSE i \in Next1 : \A j \in Next1 : i <= j
       IN /\ queue' = [queue EXCEPT ![i].saving = TRUE]
          /\ slots' = [slots EXCEPT ![s] = queue[i] @@ [st |-> "have"]]
    /\ Silent /\ UNCHANGED <<tokens, pc, todo, store, sd, handler, cnt>>
HandlerExit ==
    /\ handler = "run" /\ sd # -2 /\ \A i \in 1..Len(queue) : queue[i].saving
    /\ handler' = "gone" /\ Silent
    /\ UNCHANGED <<queue, tokens, pc, todo, slots, store, sd, cnt>>
SaveNo(s) == s
SaveBegin(s) ==
    /\ slots[s] # <<>> /\ slots[s].st = "have"
    /\ slots' = [slots EXCEPT ![s].st = "saving"]
    /\ Emit([ev |-> "sbeg", i |-> SaveNo(s), k |-> slots[s].k, v |-> IF slots[s].v > 0 THEN slots[s].v ELSE 0, dl |-> 10])
    /\ UNCHANGED <<queue, tokens, pc, todo, store, sd, handler, cnt>>
SaveEnd(s, ok) ==
    /\ slots[s] # <<>> /\ slots[s].st = "saving" /\ (ok \/ Fail)
    /\ store' = IF ok THEN [store EXCEPT ![slots[s].k] = slots[s].v] ELSE store
    /\ slots' = [slots EXCEPT ![s].st = "done"]
    /\ Emit([ev |-> "send", i |-> SaveNo(s), ok |-> ok])
    /\ UNCHANGED <<queue, tokens, pc, todo, sd, handler, cnt>>
Remove(s) == \* out of the queue; a waiting writer needs no token any more
    /\ slots[s] # <<>> /\ slots[s].st = "done"
    /\ LET x == queue[CHOOSE i \in 1..Len(queue) : queue[i].n = slots[s].n]
       IN /\ slots' = [slots EXCEPT ![s] = IF x.ready THEN [@ EXCEPT !.st = "token"] ELSE <<>>]
          /\ pc' = IF x.ready THEN pc
                   ELSE Queued(x.n, [q \in Procs |-> IF pc[q] = "token" /\ todo[q].n = x.n THEN "ack" ELSE pc[q]])
    /\ queue' = SelectSeq(queue, LAMBDA x : x.n # slots[s].n)
    /\ Silent /\ UNCHANGED <<tokens, todo, store, sd, handler, cnt>>
PutToken(s) ==
    /\ slots[s] # <<>> /\ slots[s].st = "token"
    /\ tokens' = tokens + 1 /\ slots' = [slots EXCEPT ![s] = <<>>] /\ Silent
    /\ UNCHANGED <<queue, pc, todo, store, sd, handler, cnt>>

(* ------------------------------ shutdown ------------------------------ *)
(* sd: -2 not started, then the number of tokens collected, -1 returned    *)
Shutdown == /\ UseShutdown /\ sd = -2 /\ sd' = 0
            /\ Emit([ev |-> "sdcall"])
            /\ UNCHANGED <<queue, tokens, pc, todo, slots, store, handler, cnt>>
SdToken == /\ sd \in 0..(MaxItems-1) /\ tokens > 0 /\ tokens' = tokens - 1 /\ sd' = sd + 1 /\ Silent
           /\ UNCHANGED <<queue, pc, todo, slots, store, handler, cnt>>
SdRetA == /\ sd = MaxItems /\ handler = "gone" /\ \A s \in 1..Savers : slots[s] = <<>>
          /\ sd' = -1 /\ Emit([ev |-> "sdret"])
          /\ UNCHANGED <<queue, tokens, pc, todo, slots, store, handler, cnt>>

ProcStep(p) == Check(p) \/ Refuse(p) \/ Write(p) \/ Token(p) \/ Taken(p) \/ Ack(p) \/ Lookup(p) \/ LoadStore(p) \/ Got(p)
SaverStep(s) == Send(s) \/ SaveBegin(s) \/ SaveEnd(s, TRUE) \/ SaveEnd(s, FALSE) \/ PutToken(s) \/ Remove(s)
NextStep == \/ \E p \in Procs : \/ \E k \in Keys : WriteCall(p, k, FALSE) \/ WriteCall(p, k, TRUE) \/ ReadCall(p, k)
                                \/ ProcStep(p)
            \/ \E s \in 1..Savers : SaverStep(s)
            \/ HandlerExit \/ Shutdown \/ SdToken \/ SdRetA
Spec == Init /\ [][NextStep]_vars
Fair == /\ \A p \in Procs : WF_vars(Check(p) \/ Refuse(p) \/ Write(p) \/ Taken(p) \/ Ack(p) \/ Lookup(p) \/ LoadStore(p) \/ Got(p)) /\ SF_vars(Token(p))
        /\ \A s \in 1..Savers : WF_vars(SaverStep(s))
        /\ WF_vars(HandlerExit) /\ SF_vars(SdToken) /\ WF_vars(SdRetA)
LiveSpec == Spec /\ Fair

TypeOK == tokens \in 0..MaxItems
Explained == obs # {}
SeenView == <<queue, tokens, pc, todo, slots, store, sd, handler, cnt, obs>>
(* C12: every request proceeds, everything is drained, shutdown finishes.  *)
Proceeds == \A p \in Procs : pc[p] # "idle" ~> pc[p] = "idle"
Drains == queue # <<>> ~> (queue = <<>> \/ cnt <= MaxOps)
EventuallyEmpty == [](cnt > MaxOps => <>(queue = <<>>))
ShutsDown == sd # -2 ~> sd = -1
=============================================================================
