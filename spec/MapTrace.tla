------------------------------ MODULE MapTrace ------------------------------
(***************************************************************************)
(* Recorded executions of blob stores: the size limiting store (C13) and   *)
(* the storage backends (C15).  Values are numbers of interned blobs.      *)
(***************************************************************************)
EXTENDS MapObs, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, S, max
vars == <<l, S, max>>
Ev == Trace[l]
Is(x) == l <= Len(Trace) /\ Ev.ev = x /\ l' = l + 1
Init == l = 2 /\ S = <<>> /\ max = 0
(* max: limit of the size limiting store, or 0 *)
Begin == /\ Is("begin")
         /\ S' = [k \in 1..Ev.keys |-> {Start}]
         /\ max' = Ev.max
Keep == UNCHANGED max
To(k, s) == S' = [S EXCEPT ![k] = s]

(* --- calls that nothing overlaps; nf: failures of the underlying store *)
Failed == Ev.nf > 0
Get == /\ Is("get") /\ Keep /\ UNCHANGED S
       /\ Quiet(S[Ev.k])
       /\ IF Failed THEN Ev.res = "err"
          ELSE \/ Any \in Values(S[Ev.k]) /\ Ev.res \in {"ok", "notfound", "err"}
               \/ \E v \in Values(S[Ev.k]) : IF v = None THEN Ev.res = "notfound" ELSE Ev.res = "ok" /\ Ev.v = v
(* size limits in bytes *)
Permitted == max = 0 \/ Ev.size <= 65533 * max
Refused == max > 0 /\ Ev.size > 65535 * max
Set == /\ Is("set") /\ Keep /\ Quiet(S[Ev.k])
       /\ CASE Failed -> Ev.res = "err" /\ To(Ev.k, Becomes(Any))
            [] Ev.invalid -> \* sets, keys or sizes the backend cannot store: refused without effect, or served
                  \/ Ev.res \in {"err", "toobig"} /\ UNCHANGED S
                  \/ Ev.res = "ok" /\ To(Ev.k, Becomes(Ev.v))
            [] OTHER -> \/ ~Refused /\ Ev.res = "ok" /\ To(Ev.k, Becomes(Ev.v))
                        \/ ~Permitted /\ Ev.res = "toobig" /\ UNCHANGED S
Del == /\ Is("del") /\ Keep /\ Quiet(S[Ev.k])
       /\ IF Failed THEN Ev.res = "err" /\ To(Ev.k, Becomes(Any))
          ELSE Ev.res = "ok" /\ To(Ev.k, Becomes(None))

(* --- overlapping calls *)
Call == Is("call") /\ Keep /\ To(Ev.k, MCall(S[Ev.k], Ev.p, Ev.op, Ev.v))
Ret == /\ Is("ret") /\ Keep
       /\ Ev.res = (IF Ev.op = "get" /\ Ev.v = None THEN "notfound" ELSE "ok")
       /\ LET r == Return(S[Ev.k], Ev.p, Ev.v) IN r # {} /\ To(Ev.k, r)

(* --- closing and opening the store changes nothing *)
Reopen == Is("reopen") /\ Ev.res = "ok" /\ Keep /\ UNCHANGED S

(* --- below the size limiting store: no blob is above the limit, and what *)
(* is stored is what a new store would have stored for this content         *)
Contents == {<<k, v>> \in {<<k, CHOOSE v \in Values(S[k]) : TRUE>> : k \in DOMAIN S} : v # None}
Certain == \A k \in DOMAIN S : Cardinality(S[k]) = 1 /\ Any \notin Values(S[k])
Range(s) == {s[i] : i \in DOMAIN s}
Below == /\ Is("below") /\ Keep /\ UNCHANGED S
         /\ Ev.biggest <= max
         /\ Certain => Range(Ev.content) = Contents /\ Range(Ev.blobs) = Range(Ev.fresh)
         /\ (Certain /\ Contents = {}) => Ev.blobs = <<>>

Next == Begin \/ Get \/ Set \/ Del \/ Call \/ Ret \/ Reopen \/ Below
Spec == Init /\ [][Next]_vars
Accepted == LET d == TLCGet("stats").diameter
            IN IF d = Len(Trace) THEN PrintT(<<"ACCEPTED", Len(Trace)>>)
               ELSE PrintT(<<"REJECTED", d + 1>>) /\ FALSE
=============================================================================
