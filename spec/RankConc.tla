------------------------------ MODULE RankConc ------------------------------
(***************************************************************************)
(* Design of concurrent calls on one list (list.go): every call is a       *)
(* sequence of steps between taking and releasing the locks                *)
(*    U  update lock        M  loading lock     G  segments lock (R/W)     *)
(*    0  elements of the index segment          s  elements of segment s   *)
(* Read/write locks prefer writers, as Go's do: a reader waits for a       *)
(* writer that waits.  TLC checks that no interleaving blocks forever      *)
(* (deadlock: only finished processes may be stuck), that all locks are    *)
(* free in the end, and that what callers see is explained by ConcObs.     *)
(*                                                                         *)
(* Each constant set to FALSE is the code before one repair:               *)
(*   Retry          look-ups that miss an indexed element are repeated     *)
(*                  with updates locked                                    *)
(*   FreeNeighbours neighbours are read without holding the own segment    *)
(*   OneRead        score queries read lock a segment once at a time       *)
(*   SnapLock       clones lock updates                                    *)
(***************************************************************************)
EXTENDS ConcObs
CONSTANTS Ids, Vals, Procs, MaxOps, Ops, InitIds, Retry, FreeNeighbours, OneRead, SnapLock, Observe

L1(s) == <<s>>
Segs == 1..2
U == 10  M == 11  G == 12
Locks == {0, 10, 11, 12} \cup Segs
El(id, v) == <<id, v, 0, 0, 0>>

VARIABLES w, r, wait, \* locks: writer (0: none), count of read locks per process, waiting writers
          loaded,     \* segments are in memory
          th,         \* elements with score >= th are in segment 1
          seg, idx,   \* content: id -> value, id -> segment
          cont, loc,  \* what a process still has to do, its variables
          cnt, obs, ev
vars == <<w, r, wait, loaded, th, seg, idx, cont, loc, cnt, obs, ev>>
data == <<loaded, th, seg, idx>>
locks == <<w, r, wait>>

SegOf(v) == IF v >= th THEN 1 ELSE 2
None == [ids |-> {}, new |-> <<>>, need |-> {}, at |-> <<>>, got |-> <<>>, bef |-> {}, what |-> "", retried |-> FALSE]
Emit(e) == /\ ev' = IF Observe THEN e ELSE ev
           /\ obs' = IF Observe THEN SuccAll(obs, e) ELSE obs
Silent == UNCHANGED obs /\ ev' = IF Observe THEN [ev |-> "none"] ELSE ev

I(op, x) == [op |-> op, x |-> x]
Lk(x) == <<I("want", x), I("lock", x)>>
Un(x) == <<I("unlock", x)>>
RL(x) == <<I("rlock", x)>>
RU(x) == <<I("runlock", x)>>
Do(name) == <<I(name, -1)>>

(* loadSegments *)
Enter(upd, write) == (IF upd THEN Lk(U) ELSE <<>>) \o Lk(M)
                     \o (IF write THEN Lk(G) \o Do("load") ELSE RL(G) \o Do("loadR")) \o Un(M)
Leave(upd, write) == (IF write THEN Un(G) ELSE RU(G)) \o (IF upd THEN Un(U) ELSE <<>>)

Prog(what) ==
    CASE what = "upd" -> Enter(TRUE, FALSE) \o Lk(0) \o Do("updidx") \o Do("updlock") \o Do("updput") \o Un(0) \o Do("updfree")
                         \o Do("updres") \o Leave(TRUE, FALSE) \o Do("wret")
      [] what = "del" -> Enter(TRUE, FALSE) \o RL(0) \o Do("readidx") \o RU(0) \o Do("delsegs") \o Lk(0) \o Do("delidx") \o Un(0)
                         \o Leave(TRUE, FALSE) \o Do("wret")
      [] what = "get" -> Enter(FALSE, FALSE) \o RL(0) \o Do("readidx") \o RU(0) \o Do("find") \o Do("found")
      [] what = "score" -> Enter(FALSE, FALSE) \o RL(1) \o (IF OneRead THEN RU(1) ELSE <<>>) \o RL(1) \o Do("scan1") \o RU(1)
                           \o (IF OneRead THEN <<>> ELSE RU(1)) \o RL(2) \o Do("scan2") \o RU(2) \o Leave(FALSE, FALSE) \o Do("sret")
      [] what = "snap" -> Enter(SnapLock, FALSE) \o RL(1) \o Do("scan1") \o RU(1) \o RL(2) \o Do("scan2") \o RU(2)
                          \o Leave(SnapLock, FALSE) \o Do("snapret")
      [] what = "split" -> Enter(TRUE, TRUE) \o Lk(1) \o Lk(2) \o Lk(0) \o Do("resplit") \o Un(0) \o Un(2) \o Un(1) \o Leave(TRUE, TRUE) \o Do("mret")
      [] what = "release" -> Lk(M) \o Lk(G) \o Do("unload") \o Un(G) \o Un(M) \o Do("mret")

Init == /\ w = [x \in Locks |-> 0] /\ r = [x \in Locks |-> [p \in Procs |-> 0]] /\ wait = [x \in Locks |-> {}]
        /\ loaded = FALSE /\ th = 2
        /\ seg = [s \in Segs |-> IF s = 2 THEN [i \in InitIds |-> 1] ELSE <<>>]
        /\ idx = [i \in InitIds |-> 2]
        /\ cont = [p \in Procs |-> <<>>] /\ loc = [p \in Procs |-> None] /\ cnt = 0
        /\ obs = {ConcInit(SetToSortSeq({El(i, 1) : i \in InitIds}, Above))} /\ ev = [ev |-> "none"]

Content == {El(i, seg[1][i]) : i \in DOMAIN seg[1]} \cup {El(i, seg[2][i]) : i \in DOMAIN seg[2]}
Put(f, i, v) == [j \in DOMAIN f \cup {i} |-> IF j = i THEN v ELSE f[j]]
Drop(f, is) == [j \in DOMAIN f \ is |-> f[j]]
Rest(p) == cont' = [cont EXCEPT ![p] = Tail(@)]
Then(p, more) == cont' = [cont EXCEPT ![p] = more \o Tail(@)]
Local(p, l) == loc' = [loc EXCEPT ![p] = l]

Start(p, what) ==
    /\ cont[p] = <<>> /\ cnt < MaxOps /\ cnt' = cnt + 1
    /\ cont' = [cont EXCEPT ![p] = Prog(what)]
    /\ \/ /\ what = "upd"
          /\ \E b \in UNION {[is -> Vals] : is \in SUBSET Ids \ {{}}} :
                /\ Local(p, [None EXCEPT !.ids = DOMAIN b, !.new = b, !.what = what])
                /\ Emit([ev |-> "upd", p |-> p, els |-> SetToSeq({El(i, b[i]) : i \in DOMAIN b}), radius |-> 1, results |-> TRUE])
       \/ /\ what \in {"del", "get"}
          /\ \E is \in IF what = "get" THEN {Ids} ELSE SUBSET Ids \ {{}} :
                /\ Local(p, [None EXCEPT !.ids = is, !.what = what])
                /\ Emit([ev |-> what, p |-> p, ids |-> SetToSeq(is)])
       \/ /\ what \notin {"upd", "del", "get"}
          /\ Local(p, [None EXCEPT !.what = what])
          /\ Emit([ev |-> CASE what = "score" -> "scan" [] what = "snap" -> "snap" [] OTHER -> "maint", p |-> p])
    /\ UNCHANGED <<locks, data>>

(* ------------------------------- locks -------------------------------- *)
Lock(p, i) ==
    /\ i.op \in {"want", "lock", "unlock", "rlock", "runlock"}
    /\ Rest(p) /\ Silent /\ UNCHANGED <<data, loc, cnt>>
    /\ LET x == i.x
       IN CASE i.op = "want" -> wait' = [wait EXCEPT ![x] = @ \cup {p}] /\ UNCHANGED <<w, r>>
            [] i.op = "lock" -> /\ w[x] = 0 /\ \A q \in Procs : r[x][q] = 0
                                /\ w' = [w EXCEPT ![x] = p] /\ wait' = [wait EXCEPT ![x] = @ \ {p}] /\ UNCHANGED r
            [] i.op = "unlock" -> Assert(w[x] = p, "unlock") /\ w' = [w EXCEPT ![x] = 0] /\ UNCHANGED <<r, wait>>
            [] i.op = "rlock" -> w[x] = 0 /\ wait[x] = {} /\ r' = [r EXCEPT ![x][p] = @ + 1] /\ UNCHANGED <<w, wait>>
            [] i.op = "runlock" -> Assert(r[x][p] > 0, "runlock") /\ r' = [r EXCEPT ![x][p] = @ - 1] /\ UNCHANGED <<w, wait>>

(* -------------------------------- work -------------------------------- *)
NoLocks == UNCHANGED locks
Work(p, i) ==
    LET l == loc[p]
        Skip == Silent /\ UNCHANGED <<data, loc, cnt>>
    IN
    CASE i.op = "loadR" -> NoLocks /\ Skip /\ IF loaded THEN Rest(p) ELSE Then(p, RU(G) \o Lk(G) \o Do("load") \o Un(G) \o RL(G))
      [] i.op = "load" -> loaded' = TRUE /\ Rest(p) /\ Silent /\ NoLocks /\ UNCHANGED <<th, seg, idx, loc, cnt>>
      [] i.op = "unload" -> loaded' = FALSE /\ Rest(p) /\ Silent /\ NoLocks /\ UNCHANGED <<th, seg, idx, loc, cnt>>
      [] i.op \in {"updidx", "readidx"} ->
            /\ Local(p, [l EXCEPT !.at = [j \in l.ids \cap DOMAIN idx |-> idx[j]],
                                  !.need = {idx[j] : j \in l.ids \cap DOMAIN idx}
                                           \cup (IF i.op = "updidx" THEN {SegOf(l.new[j]) : j \in l.ids} ELSE {})])
            /\ Rest(p) /\ Silent /\ NoLocks /\ UNCHANGED <<data, cnt>>
      \* all segments, in any order
      [] i.op = "updlock" ->
            /\ NoLocks /\ Skip
            /\ IF Cardinality({s \in l.need : w[s] = p}) = Cardinality(l.need) THEN Rest(p)
               ELSE \E s \in l.need : w[s] # p /\ Then(p, Lk(s) \o Do("updlock"))
      \* all changed, and only then unlocked
      [] i.op = "updput" ->
            /\ seg' = [s \in Segs |-> LET keep == Drop(seg[s], l.ids)
                                          add == {j \in l.ids : SegOf(l.new[j]) = s}
                                      IN [j \in DOMAIN keep \cup add |-> IF j \in add THEN l.new[j] ELSE keep[j]]]
            /\ idx' = [j \in DOMAIN idx \cup l.ids |-> IF j \in l.ids THEN SegOf(l.new[j]) ELSE idx[j]]
            /\ Local(p, [l EXCEPT !.bef = Content])
            /\ Rest(p) /\ Silent /\ NoLocks /\ UNCHANGED <<loaded, th, cnt>>
      [] i.op = "updfree" ->
            /\ NoLocks /\ Skip
            /\ IF {s \in l.need : w[s] = p} = {} THEN Rest(p)
               ELSE \E s \in l.need : w[s] = p /\ Then(p, Un(s) \o Do("updfree"))
      [] i.op = "updres" -> \* updates are locked, so reading one by one is the same
            /\ Local(p, [l EXCEPT !.got = SetToSeq(Content)]) /\ Rest(p) /\ Silent /\ NoLocks /\ UNCHANGED <<data, cnt>>
      [] i.op = "delsegs" ->
            /\ NoLocks /\ Skip
            /\ IF l.need = {} THEN Rest(p) ELSE \E s \in l.need : Then(p, Lk(s) \o <<I("delone", s)>> \o Un(s) \o Do("delsegs"))
      [] i.op = "delone" ->
            /\ seg' = [seg EXCEPT ![i.x] = Drop(@, l.ids)] /\ Local(p, [l EXCEPT !.need = @ \ {i.x}])
            /\ Rest(p) /\ Silent /\ NoLocks /\ UNCHANGED <<loaded, th, idx, cnt>>
      [] i.op = "delidx" -> /\ idx' = Drop(idx, l.ids) /\ Rest(p) /\ Silent /\ NoLocks /\ UNCHANGED <<loaded, th, seg, loc, cnt>>
      [] i.op = "find" ->
            /\ NoLocks /\ Skip
            /\ IF l.need = {} THEN Rest(p)
               ELSE \E s \in l.need :
                      LET o == 3 - s
                          other == RL(o) \o <<I("look", o)>> \o RU(o)
                      IN Then(p, RL(s) \o <<I("findin", s)>> \o (IF FreeNeighbours THEN RU(s) \o other ELSE other \o RU(s)) \o Do("find"))
      [] i.op = "findin" ->
            /\ Local(p, [l EXCEPT !.need = @ \ {i.x},
                                  !.got = @ \o SetToSeq({El(j, seg[i.x][j]) : j \in {j \in DOMAIN l.at : l.at[j] = i.x} \cap DOMAIN seg[i.x]})])
            /\ Rest(p) /\ Silent /\ NoLocks /\ UNCHANGED <<data, cnt>>
      [] i.op = "look" -> NoLocks /\ Skip /\ Rest(p)
      [] i.op = "found" ->
            IF Retry /\ ~l.retried /\ Len(l.got) < Cardinality(DOMAIN l.at)
            THEN /\ Local(p, [l EXCEPT !.retried = TRUE, !.got = <<>>])
                 /\ Then(p, Leave(FALSE, FALSE) \o Enter(TRUE, FALSE) \o RL(0) \o Do("readidx") \o RU(0) \o Do("find") \o Do("found"))
                 /\ Silent /\ NoLocks /\ UNCHANGED <<data, cnt>>
            ELSE Then(p, Leave(l.retried, FALSE) \o Do("gret")) /\ NoLocks /\ Skip
      [] i.op \in {"scan1", "scan2"} ->
            LET s == IF i.op = "scan1" THEN 1 ELSE 2
            IN /\ Local(p, [l EXCEPT !.got = @ \o SetToSortSeq({El(j, seg[s][j]) : j \in DOMAIN seg[s]}, Above)])
               /\ Rest(p) /\ Silent /\ NoLocks /\ UNCHANGED <<data, cnt>>
      [] i.op = "resplit" ->
            \E t \in Vals :
               /\ th' = t
               /\ LET all == Content
                      one == {e \in all : e[2] >= t}
                  IN /\ seg' = [s \in Segs |-> LET part == IF s = 1 THEN one ELSE all \ one
                                               IN [j \in {e[1] : e \in part} |-> (CHOOSE e \in part : e[1] = j)[2]]]
                     /\ idx' = [j \in {e[1] : e \in all} |-> IF \E e \in one : e[1] = j THEN 1 ELSE 2]
               /\ Rest(p) /\ Silent /\ NoLocks /\ UNCHANGED <<loaded, loc, cnt>>
      \* ------ returns
      [] OTHER ->
            /\ i.op \in {"wret", "gret", "sret", "snapret", "mret"}
            /\ Rest(p) /\ Local(p, None) /\ NoLocks /\ UNCHANGED <<data, cnt>>
            /\ CASE i.op = "wret" ->
                      LET rk == Ranking(l.got)
                          bk == Ranking(SetToSeq(l.bef))
                          was(j) == LET n == RankOf(bk, j)
                                    IN <<[e |-> bk[n], ft |-> n - 1, fb |-> Len(bk) - n, ab |-> <<>>, be |-> <<>>]>>
                          at == SetToSortSeq({RankOf(rk, j) : j \in l.ids}, <)
                      IN Emit([ev |-> "wret", p |-> p, res |-> "ok", out |->
                              IF l.what # "upd" \/ ~Observe THEN <<>>
                              ELSE [k \in 1..Len(at) |-> [e |-> rk[at[k]], ft |-> at[k] - 1, fb |-> Len(rk) - at[k],
                                      ab |-> AboveOf(rk, at[k], 1), be |-> BelowOf(rk, at[k], 1),
                                      bf |-> IF rk[at[k]][1] \in IdsOf(bk) THEN was(rk[at[k]][1]) ELSE <<>>]]])
                 [] i.op = "gret" ->
                      Emit([ev |-> "rret", p |-> p, res |-> "ok",
                            out |-> [k \in 1..Len(l.got) |-> [e |-> l.got[k], ab |-> <<>>, be |-> <<>>, bf |-> <<>>, ft |-> 0, fb |-> 0]]])
                 [] i.op = "sret" -> Emit([ev |-> "rret", p |-> p, res |-> "ok", els |-> l.got])
                 [] i.op = "snapret" -> Emit([ev |-> "sret", p |-> p, res |-> "ok", els |-> l.got])
                 [] OTHER -> Emit([ev |-> "mret", p |-> p, res |-> "ok", free |-> FALSE])

Done == cnt = MaxOps /\ \A p \in Procs : cont[p] = <<>>
Next == \/ \E p \in Procs : \E what \in Ops : Start(p, what)
        \/ \E p \in Procs : cont[p] # <<>> /\ (Lock(p, Head(cont[p])) \/ (Head(cont[p]).op \notin {"want", "lock", "unlock", "rlock", "runlock"} /\ Work(p, Head(cont[p]))))
        \/ Done /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Explained == obs # {}
LocksFree == Done => \A x \in Locks : w[x] = 0 /\ wait[x] = {} /\ \A p \in Procs : r[x][p] = 0
(* Quiescent: the content is one the observer allows, the index is exact. *)
Consistent == (\A p \in Procs : cont[p] = <<>>) =>
                 /\ DOMAIN idx = IdsOf(SetToSeq(Content)) /\ \A s \in Segs : \A j \in DOMAIN seg[s] : idx[j] = s
                 /\ DOMAIN seg[1] \cap DOMAIN seg[2] = {}
                 /\ Observe => \E o \in obs : Els(o.m) = Content
SeenView == <<locks, data, cont, loc, cnt, obs>>
=============================================================================
