------------------------------ MODULE ApiTrace ------------------------------
(* Recorded histories of HTTP requests, judged by Api.tla.                  *)
EXTENDS Api, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Tab == Trace[1]
Names == [both |-> Tab.both, prefixed |-> Tab.prefixed, suffixed |-> Tab.suffixed]
VARIABLES l,      \* next event
          D,      \* the lists
          slots,  \* backups made
          taint   \* lists whose storage failed
vars == <<l, D, slots, taint>>
Ev == Trace[l]
Is(x) == l <= Len(Trace) /\ Ev.ev = x /\ l' = l + 1
Nothing == [k \in {} |-> 0]
Init == l = 2 /\ D = Nothing /\ slots = [s \in 1..3 |-> NoBackup] /\ taint = {}
Begin == Is("begin") /\ D' = Nothing /\ slots' = [s \in 1..3 |-> NoBackup] /\ taint' = {}

(* The lists found after a request. *)
Dumped(p) == [k \in {p[i].k : i \in DOMAIN p} |->
                LET q == p[CHOOSE i \in DOMAIN p : p[i].k = k]
                IN [set |-> q.set, meta |-> q.meta, ss |-> q.ss, ms |-> q.ms, li |-> q.li, els |-> q.els]]
DumpOK(p, X) == /\ \A i \in DOMAIN p : p[i].k > 0 /\ (p[i].ranks \/ p[i].k \in X)
                /\ \A i \in 1..(Len(p) - 1) : p[i].k < p[i + 1].k
After == IF Ev.mut THEN Dumped(Ev.post) ELSE D
Copy == IF Ev.op = "rs" THEN slots[Ev.slot] ELSE NoBackup

(* --- failing storage: of a set of blobs, while the request is served     *)
Failing == IF Ev.fset = 0 THEN {} ELSE {k \in DOMAIN D : D[k].set = Ev.fset}
Reads == {"elg", "elm", "ela", "lrng", "mg"}
(* A request about one list may fail then, ... *)
Broke == Ev.op \in OneList /\ (Ev.l \in taint \/ (Ev.l \in Failing /\ Ev.st >= 500))
(* and nothing is said about the elements of these afterwards *)
Vague == (taint \cup (CASE Ev.op \in Reads -> {}
                       [] Ev.op \in Multi /\ Ev.st = 200 -> Range(Ev.out.err) \cap Failing
                       [] Ev.op \in {"mv", "mr"} -> Failing
                       [] Ev.op = "rs" /\ Ev.st = 200 -> Range(Ev.out.err) \cup Targets(Ev, Copy.vague \cap Restored(D, Ev, Copy, Names), Names)
                       [] Broke -> {Ev.l}
                       [] OTHER -> {}))
         \ (IF Ev.st # Status(Ev) THEN {}
            ELSE CASE Ev.op \in {"lc", "ld"} -> {Ev.l}
                   [] Ev.op = "rs" -> Targets(Ev, Successful(D, Ev, Copy, Names, Range(Ev.out.err)) \ Copy.vague, Names)
                   [] OTHER -> {})

(* Predicates are evaluated below as conditions, so that TLC does not try   *)
(* every way of making them true.                                           *)
Holds(p) == IF p THEN TRUE ELSE FALSE
RefusedOK(R) == /\ Ev.st \in R
                /\ IF Ev.op = "rs" /\ Ev.bad = "data" /\ Ev.st = 400 THEN Partly(D, After, Ev, Copy, Names)
                   ELSE Same(D, After, {}, Vague)
(* no element named: also a bad request *)
NoneNamed == Ev.op = "eldm" /\ Ev.ids = <<>> /\ Ev.st = 400 /\ Same(D, After, {}, Vague)
ServedOK == /\ Ev.st = Status(Ev)
            /\ Effect(D, After, Ev, Ev.lo, Ev.hi, Copy, Names, Vague)
            /\ AnswerOK(D, After, Ev, Ev.out, Copy, Names, Failing, taint)
(* lc: replacing a list whose storage failed may fail *)
Excused == \/ Broke
           \/ Ev.op \in {"lc", "ld", "lrix", "lrep", "lver", "lcl"} /\ Ev.l \in taint /\ Ev.st # Status(Ev)
(* Requests to a server that is told to stop may be refused, and after it   *)
(* did are. Started again, it has what it had.                              *)
Stopped == "stop" \in DOMAIN Ev /\ (Ev.late \/ Ev.st = 503)
Start == /\ Is("start") /\ Holds(DumpOK(Ev.post, {})) /\ Holds(Dumped(Ev.post) = D)
         /\ UNCHANGED <<D, slots, taint>>
Call == /\ Is("call")
        /\ Holds(Ev.mut => DumpOK(Ev.post, Vague))
        /\ D' = [k \in DOMAIN After |-> IF k \in Vague THEN [After[k] EXCEPT !.els = <<>>] ELSE After[k]]
        /\ taint' = Vague \cap DOMAIN After
        /\ IF Stopped THEN Holds(Ev.st = 503 /\ Same(D, After, {}, {})) /\ UNCHANGED slots
           ELSE IF Excused THEN Holds(Same(D, After, IF Ev.op \in {"lc", "ld"} THEN {Ev.l} ELSE {}, Vague \cup {Ev.l})) /\ UNCHANGED slots
           ELSE LET R == Refusal(D, Ev, Tab.jwt, Tab.scopes)
                IN IF R # {} THEN Holds(RefusedOK(R)) /\ UNCHANGED slots
                   ELSE IF NoneNamed THEN UNCHANGED slots
                   ELSE /\ Holds(ServedOK)
                        /\ slots' = IF Ev.op = "bk" THEN [slots EXCEPT ![Ev.slot] = Backup(D, Ev.sel, Range(Ev.out.err), taint)] ELSE slots
Next == Begin \/ Start \/ Call
Spec == Init /\ [][Next]_vars
Accepted == LET d == TLCGet("stats").diameter
            IN IF d = Len(Trace) THEN PrintT(<<"ACCEPTED", Len(Trace)>>)
               ELSE PrintT(<<"REJECTED", d + 1>>) /\ FALSE
=============================================================================
