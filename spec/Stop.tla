-------------------------------- MODULE Stop --------------------------------
(* The stages in which a server stops: requests are refused, those being    *)
(* served are waited for, the registry of lists is saved, the LazySaver      *)
(* saves what it holds, and the store is closed. Each request makes a list.  *)
(* Checked: what was acknowledged is found by the next life of the server,   *)
(* and what was refused is not.                                              *)
EXTENDS Naturals, FiniteSets
CONSTANTS Requests, Await, SaveAfter, LazyFirst, Lazy
VARIABLES stage,     \* "run", "drain", "save", "close", "off"
          st,        \* of requests: "idle", "busy", "made", "ok", "refused"
          known,     \* lists in memory
          held,      \* blobs the LazySaver holds: <<"el", r>>, <<"reg", set>>
          disk,      \* blobs stored
          open       \* the store is open
vars == <<stage, st, known, held, disk, open>>
Blobs == {<<"el", {r}>> : r \in Requests} \cup {<<"reg", s>> : s \in SUBSET Requests}
TypeOK == /\ stage \in {"run", "drain", "save", "close", "off"} /\ st \in [Requests -> {"idle", "busy", "made", "ok", "refused"}]
          /\ known \subseteq Requests /\ held \subseteq Blobs /\ disk \subseteq Blobs /\ open \in BOOLEAN
Init == /\ stage = "run" /\ st = [r \in Requests |-> "idle"] /\ known = {} /\ held = {} /\ disk = {} /\ open = TRUE
Kind(b) == b[1]
(* a later registry takes the place of an earlier one *)
Over(S, b) == (S \ {x \in S : Kind(x) = "reg" /\ Kind(b) = "reg"}) \cup {b}
Write(b) == IF Lazy THEN held' = Over(held, b) /\ UNCHANGED disk
            ELSE disk' = (IF open THEN Over(disk, b) ELSE disk) /\ UNCHANGED held
Begin(r) == /\ st[r] = "idle" /\ stage # "off"
            /\ st' = [st EXCEPT ![r] = IF stage = "run" THEN "busy" ELSE "refused"]
            /\ UNCHANGED <<stage, known, held, disk, open>>
Make(r) == /\ st[r] = "busy" /\ st' = [st EXCEPT ![r] = "made"] /\ known' = known \cup {r}
           /\ Write(<<"el", {r}>>) /\ UNCHANGED <<stage, open>>
Answer(r) == /\ st[r] = "made" /\ st' = [st EXCEPT ![r] = "ok"] /\ UNCHANGED <<stage, known, held, disk, open>>
Flush(b) == /\ b \in held /\ held' = held \ {b}
            /\ disk' = (IF open THEN Over(disk, b) ELSE disk) /\ UNCHANGED <<stage, st, known, open>>
(* saves at intervals *)
Save == Write(<<"reg", known>>) /\ UNCHANGED <<stage, st, known, open>>
Interval == stage \in {"run", "drain"} /\ Save
Stop == stage = "run" /\ stage' = "drain" /\ UNCHANGED <<st, known, held, disk, open>>
Drained == ~Await \/ \A r \in Requests : st[r] \notin {"busy", "made"}
LastSave == /\ stage = "drain" /\ (SaveAfter => Drained) /\ stage' = "save"
            /\ Write(<<"reg", known>>) /\ UNCHANGED <<st, known, open>>
Saved == /\ stage = "save" /\ Drained /\ stage' = "close" /\ UNCHANGED <<st, known, held, disk, open>>
CloseStore == /\ stage = "close" /\ open /\ (LazyFirst => held = {}) /\ open' = FALSE
              /\ UNCHANGED <<stage, st, known, held, disk>>
Off == stage = "close" /\ ~open /\ held = {} /\ stage' = "off" /\ UNCHANGED <<st, known, held, disk, open>>
Next == \/ \E r \in Requests : Begin(r) \/ Make(r) \/ Answer(r)
        \/ \E b \in held : Flush(b)
        \/ Interval \/ Stop \/ LastSave \/ Saved \/ CloseStore \/ Off
Fair == WF_vars(Stop) /\ WF_vars(LastSave) /\ WF_vars(Saved) /\ WF_vars(CloseStore) /\ WF_vars(Off)
        /\ WF_vars(\E b \in held : Flush(b)) /\ \A r \in Requests : WF_vars(Make(r)) /\ WF_vars(Answer(r))
Spec == Init /\ [][Next]_vars /\ Fair

(* The lists of the next life, and those of which the elements are there. *)
Found == UNION {b[2] : b \in {x \in disk : Kind(x) = "reg"}}
Whole == {r \in Found : <<"el", {r}>> \in disk}
Kept == stage = "off" => {r \in Requests : st[r] = "ok"} \subseteq Whole
NoMore == stage = "off" => Found \subseteq {r \in Requests : st[r] = "ok"}
OneRegistry == Cardinality({x \in disk : Kind(x) = "reg"}) <= 1
Ends == <>(stage = "off")
=============================================================================
