------------------------------ MODULE MaxSize ------------------------------
(***************************************************************************)
(* Design of the size limiting store (blobstore/maxsize.go), one key: a    *)
(* blob is a head with the number of further parts, and these parts.  What *)
(* the store remembers of the number of parts decides what a write or a    *)
(* deletion removes.  Every access of the underlying store may fail, with  *)
(* or without effect; the process may stop at any time and a new one open  *)
(* the same storage.                                                       *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS M,      \* largest number of parts
          V,      \* number of writes
          F       \* number of failures
VARIABLES blobs,  \* part -> None, or [v, n]: write it belongs to, further parts (head)
          known,  \* parts the store remembers, 0: unknown
          op,     \* operation at work, or Idle
          abs,    \* content: None, a write, or Any after a failure
          v, f,   \* writes, failures so far
          tidy,   \* opened on storage without leftovers,
          seen    \* and the blob was read or written since
vars == <<blobs, known, op, abs, v, f, tidy, seen>>
None == [v |-> 0, n |-> 0]
Any == -1
Idle == [t |-> "idle"]
P == 0..(M - 1)
Used == {i \in P : blobs[i] # None}
Tidy == Used = IF blobs[0] = None THEN {} ELSE 0..blobs[0].n
Init == blobs = [i \in P |-> None] /\ known = 0 /\ op = Idle /\ abs = 0 /\ v = 0 /\ f = 0 /\ tidy = TRUE /\ seen = FALSE

Done(a) == op' = Idle /\ abs' = a
Fail(effect) == /\ f < F /\ f' = f + 1
                /\ \/ UNCHANGED blobs
                   \/ blobs' = effect
Max(a, b) == IF a > b THEN a ELSE b

(* Set: remember the larger count, write head and parts, delete the rest.  *)
BeginSet == /\ op = Idle /\ v < V
            /\ \E total \in 1..M :
                  /\ op' = [t |-> "set", v |-> v + 1, total |-> total, i |-> 0, prev |-> known]
                  /\ known' = IF total > 1 THEN Max(total, known) ELSE known
            /\ v' = v + 1 /\ seen' = TRUE /\ tidy' = (tidy /\ (seen \/ Used = {}))
            /\ abs' = Any /\ UNCHANGED <<blobs, f>>
WritePart == /\ op.t = "set" /\ op.i < op.total
             /\ LET b == [blobs EXCEPT ![op.i] = [v |-> op.v, n |-> IF op.i = 0 THEN op.total - 1 ELSE 0]]
                IN \/ blobs' = b /\ op' = [op EXCEPT !.i = @ + 1] /\ UNCHANGED <<f, abs>>
                   \/ Fail(b) /\ Done(Any)
             /\ UNCHANGED <<known, v, tidy, seen>>
DropPart == /\ op.t = "set" /\ op.i >= op.total /\ op.i < op.prev
            /\ LET b == [blobs EXCEPT ![op.i] = None]
               IN \/ blobs' = b /\ op' = [op EXCEPT !.i = @ + 1] /\ UNCHANGED <<f, abs>>
                  \/ Fail(b) /\ Done(Any)
            /\ UNCHANGED <<known, v, tidy, seen>>
EndSet == /\ op.t = "set" /\ op.i >= op.total /\ op.i >= op.prev
          /\ known' = IF op.total = 1 THEN 0 ELSE op.total
          /\ Done(op.v) /\ UNCHANGED <<blobs, v, f, tidy, seen>>

(* Get: the head tells how many parts there are.  Parts beyond may be      *)
(* known from failed writes.                                               *)
Get == /\ op = Idle
       /\ \/ f < F /\ f' = f + 1 /\ UNCHANGED <<known, seen>>              \* head not read
          \/ /\ known' = IF blobs[0] # None /\ blobs[0].n > 0 THEN Max(known, blobs[0].n + 1) ELSE known
             /\ seen' = (seen \/ blobs[0] # None)
             /\ UNCHANGED f
       /\ UNCHANGED <<blobs, op, abs, v, tidy>>

(* Delete: as many parts as known, or else as the head says.               *)
BeginDel == /\ op = Idle
            /\ \/ known > 0 /\ op' = [t |-> "del", n |-> known, i |-> 0] /\ UNCHANGED <<known, f>> /\ abs' = Any
               \/ known = 0 /\ f < F /\ f' = f + 1 /\ UNCHANGED <<known, op, abs>>   \* head not read
               \/ known = 0 /\ blobs[0] = None /\ abs' = 0 /\ UNCHANGED <<known, f, op>>
               \/ /\ known = 0 /\ blobs[0] # None
                  /\ op' = [t |-> "del", n |-> blobs[0].n + 1, i |-> 0]
                  /\ known' = IF blobs[0].n > 0 THEN blobs[0].n + 1 ELSE 0
                  /\ abs' = Any /\ UNCHANGED f
            /\ seen' = (seen \/ (f' = f /\ blobs[0] # None))
            /\ UNCHANGED <<blobs, v, tidy>>
DelPart == /\ op.t = "del" /\ op.i < op.n
           /\ LET b == [blobs EXCEPT ![op.i] = None]
              IN \/ blobs' = b /\ op' = [op EXCEPT !.i = @ + 1] /\ UNCHANGED <<f, abs>>
                 \/ Fail(b) /\ Done(Any)
           /\ UNCHANGED <<known, v, tidy, seen>>
EndDel == /\ op.t = "del" /\ op.i >= op.n
          /\ known' = 0 /\ Done(0) /\ UNCHANGED <<blobs, v, f, tidy, seen>>

(* The process stops, another one opens the storage.                       *)
Reopen == /\ known' = 0 /\ op' = Idle /\ seen' = FALSE /\ tidy' = Tidy
          /\ abs' = (IF op = Idle THEN abs ELSE Any)
          /\ UNCHANGED <<blobs, v, f>>

Next == BeginSet \/ WritePart \/ DropPart \/ EndSet \/ Get \/ BeginDel \/ DelPart \/ EndDel \/ Reopen
Spec == Init /\ [][Next]_vars

(* ---------------------------- properties ------------------------------ *)
(* What a read returns is what was written last, whole.                    *)
Content == op = Idle /\ abs # Any =>
             IF abs = 0 THEN blobs[0] = None
             ELSE /\ blobs[0].v = abs
                  /\ \A i \in 1..blobs[0].n : blobs[i].v = abs
(* Every part there is will be found by the next deletion: the store       *)
(* remembers it or the head tells.                                         *)
Reach == IF known > 0 THEN 0..(known - 1) ELSE IF blobs[0] = None THEN {} ELSE 0..blobs[0].n
NoLeftovers == op = Idle /\ tidy /\ seen => /\ Used \subseteq Reach
                                            /\ abs # Any => Tidy
=============================================================================
