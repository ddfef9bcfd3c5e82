------------------------------- MODULE MapObs -------------------------------
(***************************************************************************)
(* A blob store is a map: atomic reads, writes and deletes of one key.     *)
(* Linearizability is local, so keys are observed separately.  A           *)
(* configuration of a key is what it may hold together with the fate of    *)
(* the calls in progress; the observer keeps all configurations that       *)
(* explain what was seen so far.                                           *)
(*   None: absent.  Any: unknown, after a failed write.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
None == 0
Any  == -1
Start == [v |-> None, c |-> <<>>]            \* c: calls in progress, process -> state

Drop(f, p) == [q \in DOMAIN f \ {p} |-> f[q]]
Put(f, p, x) == [q \in DOMAIN f \cup {p} |-> IF q = p THEN x ELSE f[q]]
Waiting(o) == {p \in DOMAIN o.c : ~o.c[p].done}

(* The call of p takes effect. *)
Effect(o, p) == LET q == o.c[p]
                    r == [done |-> TRUE, op |-> q.op, v |-> IF q.op = "get" THEN o.v ELSE q.v]
                IN [v |-> CASE q.op = "get" -> o.v [] q.op = "set" -> q.v [] q.op = "del" -> None,
                    c |-> Put(o.c, p, r)]
RECURSIVE Close(_)
Close(S) == LET N == S \cup UNION {{Effect(o, p) : p \in Waiting(o)} : o \in S}
            IN IF N = S THEN S ELSE Close(N)

MCall(S, p, op, v) == Close({[o EXCEPT !.c = Put(@, p, [done |-> FALSE, op |-> op, v |-> v])] : o \in S})
Fits(got, is) == got = is \/ is = Any
Return(S, p, v) == {[o EXCEPT !.c = Drop(@, p)] : o \in {x \in S : x.c[p].done /\ (x.c[p].op = "get" => Fits(v, x.c[p].v))}}

(* Calls that nothing overlaps. *)
Quiet(S) == \A o \in S : DOMAIN o.c = {}
Values(S) == {o.v : o \in S}
Becomes(v) == {[v |-> v, c |-> <<>>]}
=============================================================================
