------------------------------- MODULE MaxGen -------------------------------
(* All behaviours of MaxSize of a number of operations, with the access of *)
(* the underlying store that fails in each, as scripts for the driver.     *)
(* tidy: whether leftovers can be excluded at the end.                     *)
EXTENDS MaxSize, Sequences, TLC, Json
CONSTANTS Steps
VARIABLES h, acc, tot
gvars == <<vars, h, acc, tot>>
GInit == Init /\ h = <<>> /\ acc = 0 /\ tot = 0
Log(a, total, fail, eff) == /\ h' = Append(h, [a |-> a, total |-> total, fail |-> fail, eff |-> eff])
                            /\ Len(h') = Steps => PrintT(ToJson([tidy |-> tidy', h |-> h']))
More == Len(h) < Steps
Acc(A, a) == /\ A
             /\ IF f' = f THEN acc' = acc + 1 /\ UNCHANGED <<h, tot>>
                ELSE Log(a, tot, acc + 1, blobs' # blobs) /\ UNCHANGED <<acc, tot>>
GNext == /\ More
         /\ \/ BeginSet /\ acc' = 0 /\ tot' = op'.total /\ UNCHANGED h
            \/ Acc(WritePart, "set") \/ Acc(DropPart, "set") \/ Acc(DelPart, "del")
            \/ EndSet /\ Log("set", tot, 0, FALSE) /\ UNCHANGED <<acc, tot>>
            \/ EndDel /\ Log("del", 0, 0, FALSE) /\ UNCHANGED <<acc, tot>>
            \/ BeginDel /\ (IF op' = Idle THEN Log("del", 0, IF f' = f THEN 0 ELSE 1, FALSE) ELSE UNCHANGED h)
                        /\ acc' = (IF known = 0 THEN 1 ELSE 0) /\ tot' = 0
            \/ Get /\ Log("get", 0, IF f' = f THEN 0 ELSE 1, FALSE) /\ UNCHANGED <<acc, tot>>
            \/ Get /\ f' = f /\ f < F /\ blobs[0].n > 0 /\ Log("get", 0, 2, FALSE) /\ UNCHANGED <<acc, tot>>
            \/ Reopen /\ op = Idle /\ h # <<>> /\ h[Len(h)].a # "reopen" /\ Log("reopen", 0, 0, FALSE) /\ UNCHANGED <<acc, tot>>
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
