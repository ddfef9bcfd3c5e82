---------------------------- MODULE BackupTrace -----------------------------
(***************************************************************************)
(* Recorded backup jobs (C23), see Backup.tla for the design.              *)
(*   begin    lists: their content; req: the requested lists; dst          *)
(*   act      upd k els | rem k | bad k (cannot be loaded) | cancel        *)
(*   enter    the job starts to load list k                                *)
(*   poll     the status while the job runs                                *)
(*   end      the status of the finished job; wf: the destination refused  *)
(*            data; closed: how often it was closed; after: it was used    *)
(*            after closing; size: the reported size is the written size;  *)
(*            alias: a status that was handed out changed later            *)
(*   restored what restoring the stored data into an empty database gives  *)
(*   cut      the same for a part of the data                              *)
(*   source   content of list k after the job                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Gone == <<<<-1>>>>
VARIABLES l, cont, req, dst, snap, bad, canc, st, ok
vars == <<l, cont, req, dst, snap, bad, canc, st, ok>>
Ev == Trace[l]
Range(s) == {s[i] : i \in DOMAIN s}
Is(x) == l <= Len(Trace) /\ Ev.ev = x /\ l' = l + 1
None == [succ |-> <<>>, errs |-> <<>>, canc |-> FALSE]
Init == l = 2 /\ cont = <<>> /\ req = {} /\ dst = "" /\ snap = <<>> /\ bad = {} /\ canc = FALSE /\ st = None /\ ok = FALSE
Begin == /\ Is("begin") /\ cont' = Ev.lists /\ req' = Range(Ev.req) /\ dst' = Ev.dst
         /\ snap' = [k \in DOMAIN Ev.lists |-> Gone] /\ bad' = {} /\ canc' = FALSE /\ st' = None /\ ok' = FALSE
Keep == UNCHANGED <<req, dst, st, ok>>
Act == /\ Is("act") /\ Keep /\ UNCHANGED snap
       /\ cont' = (CASE Ev.what = "upd" -> [cont EXCEPT ![Ev.k] = Ev.els]
                     [] Ev.what = "rem" -> [cont EXCEPT ![Ev.k] = Gone]
                     [] OTHER -> cont)
       /\ bad' = (IF Ev.what = "bad" THEN bad \cup {Ev.k} ELSE bad)
       /\ canc' = (canc \/ Ev.what = "cancel")
(* Only requested lists are read, once, and none after the job was cancelled. *)
Enter == /\ Is("enter") /\ Keep /\ UNCHANGED <<cont, bad, canc>>
         /\ Ev.k \in req /\ snap[Ev.k] = Gone /\ cont[Ev.k] # Gone /\ ~canc /\ dst # "save"
         /\ snap' = [snap EXCEPT ![Ev.k] = cont[Ev.k]]
Entered == {k \in DOMAIN snap : snap[k] # Gone}
(* What the status may say at any time. *)
Sane == LET s == Range(Ev.succ)
            e == Range(Ev.errs)
        IN /\ Cardinality(s) = Len(Ev.succ) /\ s \cap e = {} /\ s \subseteq Entered /\ e \subseteq req
           /\ Ev.ldone = Len(Ev.succ) /\ Ev.lists = Cardinality(req)
           /\ \A i \in DOMAIN st.succ : i \in DOMAIN Ev.succ /\ Ev.succ[i] = st.succ[i]
           /\ Range(st.errs) \subseteq e
           /\ \A k \in e : k \in bad \/ cont[k] = Gone \/ canc \/ dst = "write"
Poll == /\ Is("poll") /\ Sane /\ ~Ev.done /\ ~Ev.fin
        /\ st' = [succ |-> Ev.succ, errs |-> Ev.errs, canc |-> Ev.canc]
        /\ UNCHANGED <<cont, req, dst, snap, bad, canc, ok>>
End == /\ Is("end") /\ Sane /\ Ev.done /\ Ev.fin
       /\ LET s == Range(Ev.succ)
              e == Range(Ev.errs)
          IN /\ IF dst = "save" THEN s = {} /\ e = {} ELSE (~Ev.canc => s \cup e = req)
             /\ Ev.canc => canc
             /\ (canc /\ ~Ev.canc) => s \cup e = req
             /\ (Ev.wf \/ dst \in {"save", "close", "late"}) => Ev.other > 0 \/ (Ev.wf /\ e # {})
             /\ (~Ev.wf /\ dst \in {"ok", "write"}) => Ev.other = 0
             /\ (dst # "save" => Ev.closed > 0) /\ ~Ev.after /\ Ev.size /\ ~Ev.alias
       /\ st' = [succ |-> Ev.succ, errs |-> Ev.errs, canc |-> Ev.canc]
       /\ ok' = (dst # "save" /\ (~Ev.wf \/ dst = "close"))
       /\ UNCHANGED <<cont, req, dst, snap, bad, canc>>
Got == {Ev.got[i].k : i \in DOMAIN Ev.got}
Right == \A i \in DOMAIN Ev.got : Ev.got[i].k \in Range(st.succ) \cup Range(st.errs) /\ Ev.got[i].k \in DOMAIN snap /\ Ev.got[i].els = snap[Ev.got[i].k]
Same == UNCHANGED <<cont, req, dst, snap, bad, canc, st, ok>>
(* All lists that were saved, and no other, are in the stored data. *)
Restored == /\ Is("restored") /\ Same /\ Right
            /\ ok => /\ Got = Range(st.succ) /\ Len(Ev.got) = Cardinality(Got)
                     /\ Ev.res = (IF st.canc THEN "err" ELSE "ok")
                     /\ ~st.canc => Ev.n = Len(Ev.got) /\ Ev.failed = 0 /\ Ev.skipped = 0
(* A part of the data gives no wrong list, and is recognized unless only   *)
(* the checksum is missing.                                                 *)
Cut == /\ Is("cut") /\ Same /\ Right
       /\ ok => Got \subseteq Range(st.succ) /\ (Ev.res = "ok" => Got = Range(st.succ) /\ ~st.canc)
Source == Is("source") /\ Same /\ Ev.els = cont[Ev.k]
Next == Begin \/ Act \/ Enter \/ Poll \/ End \/ Restored \/ Cut \/ Source
Spec == Init /\ [][Next]_vars
Accepted == LET d == TLCGet("stats").diameter
            IN IF d = Len(Trace) THEN PrintT(<<"ACCEPTED", Len(Trace)>>)
               ELSE PrintT(<<"REJECTED", d + 1>>) /\ FALSE
=============================================================================
