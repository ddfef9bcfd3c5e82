-------------------------------- MODULE Api --------------------------------
(***************************************************************************)
(* The HTTP interface of RankDB: for every request, who may send it, when  *)
(* it is refused and with which status, its effect on the lists, and its   *)
(* answer.                                                                 *)
(*                                                                         *)
(* A database D is a function from (numbers of) lists to records           *)
(*   [set, meta, ss, ms, li, els]                                          *)
(* where els is the ranking, a sequence of <<id, score, tie, upd, payload>>*)
(* (payload 0: none).  A request is a record c as written by the driver.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Range(s) == {s[i] : i \in DOMAIN s}
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Or(v, d) == IF v = -1 THEN d ELSE v      \* parameters that were not given

(* ------------------------------ rankings ------------------------------ *)
Above(a, b) == \/ a[2] > b[2]
               \/ a[2] = b[2] /\ \/ a[3] > b[3]
                                 \/ a[3] = b[3] /\ \/ a[4] < b[4]
                                                   \/ a[4] = b[4] /\ a[1] < b[1]
Sorted(s) == \A i \in 1..(Len(s) - 1) : Above(s[i], s[i + 1])
IdsOf(s) == {s[i][1] : i \in DOMAIN s}
Unique(s) == Cardinality(IdsOf(s)) = Len(s)
Has(s, id) == id \in IdsOf(s)
At(s, id) == CHOOSE i \in DOMAIN s : s[i][1] = id
Without(s, ids) == SelectSeq(s, LAMBDA e : e[1] \notin ids)

(* An element in an answer, with its ranks from 0.                         *)
Rk(rk, i, l) == [e |-> rk[i], ft |-> i - 1, fb |-> Len(rk) - i, l |-> l]
Rks(rk, from, to, l) == [k \in 1..Max2(0, to - from + 1) |-> Rk(rk, from + k - 1, l)]
Tiny(rk, i) == [e |-> <<rk[i][1], rk[i][2], rk[i][5]>>, ft |-> i - 1, fb |-> Len(rk) - i]
(* with its neighbours in the order of the ranking, and what it was before *)
Full(rk, i, r, l, bf) == [e |-> rk[i], ft |-> i - 1, fb |-> Len(rk) - i, l |-> l,
                          ab |-> Rks(rk, Max2(1, i - r), i - 1, l), be |-> Rks(rk, i + 1, Min2(Len(rk), i + r), l),
                          bf |-> bf, lft |-> -1, lfb |-> -1]
(* all elements with an ID in ids, in the order of the ranking *)
Positions(rk, ids) == LET P == {i \in DOMAIN rk : rk[i][1] \in ids}
                          F[S \in SUBSET P] == IF S = {} THEN <<>>
                                               ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o F[S \ {m}]
                      IN F[P]
Found(rk, ids, l) == LET p == Positions(rk, ids) IN [k \in DOMAIN p |-> Rk(rk, p[k], l)]

(* ------------------------------- batches ------------------------------ *)
(* One of several entries of the same ID counts: the best or the last.     *)
Counts(b, i) == \/ \A j \in DOMAIN b : b[j][1] = b[i][1] => b[j][2] <= b[i][2]
                \/ \A j \in (i + 1)..Len(b) : b[j][1] # b[i][1]
BatchIds(b) == {b[i][1] : i \in DOMAIN b}
(* The ranking after putting the batch.  A payload that is not given may   *)
(* keep the one there was (documented) or erase it (known finding).        *)
Fits(old, b, new, lo, hi) ==
    /\ Sorted(new) /\ Unique(new)
    /\ IdsOf(new) = IdsOf(old) \cup BatchIds(b)
    /\ \A k \in DOMAIN new :
         IF new[k][1] \notin BatchIds(b) THEN new[k] \in Range(old)
         ELSE \E i \in DOMAIN b :
                /\ b[i][1] = new[k][1] /\ Counts(b, i)
                /\ new[k][2] = b[i][2] /\ new[k][3] = b[i][3] /\ lo <= new[k][4] /\ new[k][4] <= hi
                /\ \/ new[k][5] = b[i][4]
                   \/ b[i][4] = 0 /\ Has(old, new[k][1]) /\ new[k][5] = old[At(old, new[k][1])][5]
(* The exact input of the known finding, for reporting.                    *)
Erased(old, b, new) == \E k \in DOMAIN new : /\ new[k][1] \in BatchIds(b) /\ new[k][5] = 0
                                             /\ Has(old, new[k][1]) /\ old[At(old, new[k][1])][5] # 0
                                             /\ \A i \in DOMAIN b : b[i][1] = new[k][1] => b[i][4] = 0

(* ----------------------------- selections ----------------------------- *)
Matches(rec, meta) == Range(meta) \subseteq Range(rec.meta)
Chosen(D, s) == Range(s.ls) \cup {k \in DOMAIN D : D[k].set \in Range(s.sets)}
                \cup (IF s.meta = <<>> THEN {} ELSE {k \in DOMAIN D : Matches(D[k], s.meta)})
NoSelection(s) == s.ls = <<>> /\ s.meta = <<>> /\ s.sets = <<>>
(* maintenance of many lists: without a selection, of all *)
ChosenOrAll(D, s) == IF NoSelection(s) THEN DOMAIN D ELSE Chosen(D, s)

(* ------------------------------- access ------------------------------- *)
Multi == {"mc", "mp", "md", "mg"}
Maint == {"mv", "mr", "bk"}
OneList == {"elc", "elg", "elm", "ela", "elp", "elpm", "eld", "eldm", "lg", "lpct", "lrng"}
TokenOK(c, scopes) == c.tk.kind = "ok" /\ scopes[c.op] \in Range(c.tk.sc)
ListsOf(D, c) == IF c.op \in OneList THEN {c.l} ELSE IF c.op \in Multi THEN Chosen(D, c.sel) ELSE {}
ElementsOf(c) == CASE c.op \in {"elc", "elpm", "mc", "mp"} -> BatchIds(c.els)
                   [] c.op \in {"elg", "eld", "elp", "md", "mg"} -> {c.id}
                   [] c.op \in {"elm", "eldm"} -> Range(c.ids)
                   [] c.op = "ela" -> Range(c.ids) \cup {c.id}
                   [] OTHER -> {}
Denied(D, c) == \/ c.tk.ll /\ ~(ListsOf(D, c) \subseteq Range(c.tk.ls))
                \/ c.tk.el /\ ~(ElementsOf(c) \subseteq Range(c.tk.es))

(* ------------------------------ refusals ------------------------------ *)
NeedsList == OneList \cup {"lrix", "lrep", "lver", "lcl"}
Unknown(D, c) == c.op \in NeedsList /\ c.l \notin DOMAIN D
NoElement(D, c) == LET rk == D[c.l].els IN
    CASE c.op \in {"elg", "ela"} -> ~Has(rk, c.id)
      [] c.op = "lpct" -> rk = <<>>
      [] c.op = "lrng" -> Or(c.ft, c.fb) >= Len(rk)
      [] OTHER -> FALSE
Conflict(D, c) == CASE c.op = "elc" -> c.l \in DOMAIN D /\ Has(D[c.l].els, c.els[1][1])
                    [] c.op = "lc" -> c.l \in DOMAIN D /\ ~c.replace
                    [] c.op = "lcl" -> c.dst \in DOMAIN D
                    [] OTHER -> FALSE
If(p, x) == IF p THEN {x} ELSE {}
(* The statuses of which a refusal carries one; {}: must be served.        *)
Refusal(D, c, jwt, scopes) ==
    IF jwt /\ ~TokenOK(c, scopes) THEN {401}
    ELSE IF c.op = "jwt" THEN {401} \cup If(c.bad # "", 400)      \* a server does not make tokens
    ELSE IF c.op \in {"bks", "bkc"} /\ c.slot = 0 THEN {404}       \* not a backup
    ELSE IF c.bad # "" THEN {400} \cup If(Unknown(D, c) \/ c.bad = "list", 404)
                            \cup If(jwt /\ (c.tk.ll \/ c.tk.el), 401) \cup If(Conflict(D, c), 409)
    ELSE IF jwt /\ Denied(D, c) THEN {401} \cup If(Unknown(D, c), 404)
    ELSE IF Unknown(D, c) THEN {404} \cup If(Conflict(D, c), 409)
    ELSE IF Conflict(D, c) THEN {409}
    ELSE IF c.op \in OneList /\ NoElement(D, c) THEN {404}
    ELSE {}

(* ------------------------------- effects ------------------------------ *)
(* X: lists whose storage failed during this or an earlier request, about  *)
(* whose elements nothing is said.                                         *)
SameInfo(a, b) == a.set = b.set /\ a.meta = b.meta /\ a.ss = b.ss /\ a.ms = b.ms /\ a.li = b.li
Same(D, E, except, X) ==
    \A k \in (DOMAIN D \cup DOMAIN E) \ except :
       k \in DOMAIN D /\ k \in DOMAIN E /\ IF k \in X THEN SameInfo(D[k], E[k]) ELSE D[k] = E[k]
Changed(D, E, k, P(_, _)) == k \in DOMAIN E /\ SameInfo(D[k], E[k]) /\ P(D[k].els, E[k].els)
NewInfo(c) == [set |-> c.set, meta |-> c.meta, ss |-> Or(c.ss, 2000), ms |-> Or(c.ms, 500), li |-> c.li]
Put(D, E, ks, b, lo, hi, X) == /\ Same(D, E, ks \ X, X)
                               /\ \A k \in ks \ X : Changed(D, E, k, LAMBDA o, n : Fits(o, b, n, lo, hi))
Remove(D, E, ks, ids, X) == /\ Same(D, E, ks \ X, X)
                            /\ \A k \in ks \ X : Changed(D, E, k, LAMBDA o, n : n = Without(o, ids))
(* lists of a multi-list request that it applies to *)
Existing(D, c) == Chosen(D, c.sel) \cap DOMAIN D
Creatable(D, c) == {k \in Existing(D, c) : IdsOf(D[k].els) \cap BatchIds(c.els) = {}}
(* A backup: the lists in it, and those of which the content is not known. *)
NoBackup == [copy |-> [k \in {} |-> 0], vague |-> {}]
Backup(D, s, errs, X) == LET ks == (ChosenOrAll(D, s) \cap DOMAIN D) \ errs
                         IN [copy |-> [k \in ks |-> D[k]], vague |-> ks \cap X]
Target(c, k, names) == IF c.pre THEN (IF c.suf THEN names.both[k] ELSE names.prefixed[k])
                       ELSE IF c.suf THEN names.suffixed[k] ELSE k
(* the lists to restore; those that may not fail; those that did not fail  *)
Restored(D, c, b, names) == {k \in DOMAIN b.copy : ~(c.keep /\ Target(c, k, names) \in DOMAIN D)}
Restorable(D, c, b, names) == {k \in Restored(D, c, b, names) : k \notin b.vague /\ b.copy[k].set # c.fset}
Successful(D, c, b, names, errs) == {k \in Restored(D, c, b, names) : Target(c, k, names) \notin errs}
Targets(c, ks, names) == {Target(c, k, names) : k \in ks}

Effect(D, E, c, lo, hi, b, names, X) ==
    CASE c.op \in {"elc", "elp", "elpm"} -> Put(D, E, {c.l}, c.els, lo, hi, X)
      [] c.op = "eld" -> Remove(D, E, {c.l}, {c.id}, X)
      [] c.op = "eldm" -> Remove(D, E, {c.l}, Range(c.ids), X)
      [] c.op = "lc" -> /\ Same(D, E, {c.l}, X) /\ c.l \in DOMAIN E
                        /\ SameInfo(NewInfo(c), E[c.l]) /\ Fits(<<>>, c.els, E[c.l].els, lo, hi)
      [] c.op = "ld" -> Same(D, E, {c.l}, X) /\ c.l \notin DOMAIN E
      [] c.op = "lcl" -> /\ Same(D, E, {c.dst}, X) /\ c.dst \in DOMAIN E
                         /\ SameInfo(NewInfo(c), E[c.dst]) /\ E[c.dst].els = D[c.l].els
      [] c.op = "mc" -> Put(D, E, Creatable(D, c), c.els, lo, hi, X)
      [] c.op = "mp" -> Put(D, E, Existing(D, c), c.els, lo, hi, X)
      [] c.op = "md" -> Remove(D, E, Existing(D, c), {c.id}, X)
      [] c.op = "rs" -> LET S == Successful(D, c, b, names, Range(c.out.err))
                        IN /\ Same(D, E, Targets(c, Restored(D, c, b, names), names), X)
                           /\ \A k \in S : LET t == Target(c, k, names)
                                           IN t \in DOMAIN E /\ IF t \in X THEN SameInfo(b.copy[k], E[t]) ELSE E[t] = b.copy[k]
      [] OTHER -> Same(D, E, {}, X)
(* A backup that cannot be read to its end: what was before may be restored*)
Partly(D, E, c, b, names) ==
    LET T == {Target(c, k, names) : k \in Restored(D, c, b, names)}
    IN /\ Same(D, E, T, {})
       /\ \A t \in T : \/ t \in DOMAIN E /\ \E k \in DOMAIN b.copy : Target(c, k, names) = t /\ E[t] = b.copy[k]
                       \/ Same(D, E, T \ {t}, {})

(* ------------------------------- answers ------------------------------ *)
Status(c) == CASE c.op \in {"eld", "eldm", "ld", "bkc"} -> 204
               [] c.op = "bk" -> (IF c.via = "file" THEN 201 ELSE 200)
               [] OTHER -> 200
Info(E, k) == [l |-> k, set |-> E[k].set, meta |-> E[k].meta, ss |-> E[k].ss, ms |-> E[k].ms, li |-> E[k].li]
InfoOK(E, k, o) == \A f \in {"l", "set", "meta", "ss", "ms", "li"} : o[f] = Info(E, k)[f]
FullInfoOK(E, k, o, ends) ==
    LET rk == E[k].els
    IN /\ InfoOK(E, k, o) /\ o.n = Len(rk) /\ o.segs >= (IF rk = <<>> THEN 0 ELSE 1)
       /\ o.top = (IF ends /\ rk # <<>> THEN <<Rk(rk, 1, k)>> ELSE <<>>)
       /\ o.bot = (IF ends /\ rk # <<>> THEN <<Rk(rk, Len(rk), k)>> ELSE <<>>)
(* F: lists whose storage fails, which may be reported as failed; X: what  *)
(* is said about these does not matter.                                    *)
MultiOK(o, yes, no, erronly, F, X, P(_, _)) ==
    LET errs == Range(o.err)
        suc == {o.suc[i].l : i \in DOMAIN o.suc}
    IN /\ Len(o.err) = Cardinality(errs) /\ Len(o.suc) = Cardinality(suc)
       /\ errs \ (F \cup X) = no \ (F \cup X)
       /\ no \ X \subseteq errs
       /\ errs \subseteq yes \cup no
       /\ suc = (IF erronly THEN {} ELSE (yes \cup no) \ errs)
       /\ \A i \in DOMAIN o.suc : o.suc[i].l \notin X => P(o.suc[i].l, o.suc[i].res)
TinyOK(E, k, ids, res) == LET rk == E[k].els
                              P == {i \in DOMAIN rk : rk[i][1] \in ids}
                          IN Len(res) = Cardinality(P) /\ Range(res) = {Tiny(rk, i) : i \in P}
(* pages of lists, C17 *)
Page(ks, o) == /\ o.nb = Cardinality({k \in ks : \A i \in DOMAIN o.lists : k < o.lists[i].l})
               /\ o.na = Cardinality({k \in ks : \A i \in DOMAIN o.lists : k > o.lists[i].l})
ListPageOK(D, c, o) ==
    LET n == Or(c.limit, 25)
        ks == DOMAIN D
        got == {o.lists[i].l : i \in DOMAIN o.lists}
        cand == IF c.before > 0 THEN {k \in ks : k < c.before} ELSE {k \in ks : k > c.after}
        want == IF c.before > 0 THEN {k \in cand : Cardinality({j \in cand : j > k}) < n}
                ELSE {k \in cand : Cardinality({j \in cand : j < k}) < n}
    IN /\ got = want /\ \A i \in 1..(Len(o.lists) - 1) : o.lists[i].l < o.lists[i + 1].l
       /\ \A i \in DOMAIN o.lists : InfoOK(D, o.lists[i].l, o.lists[i])
       /\ IF want # {} THEN Page(ks, o)
          ELSE o.nb + o.na = Cardinality(ks)

Percentile(n, p16) == Min2((n * p16) \div 16, n - 1) + 1

AnswerOK(D, E, c, o, b, names, F, X) ==
    LET l == c.l
        r == Or(c.rng, 5)
        rk == E[l].els       \* used for requests of one list only
        old == D[l].els
    IN CASE c.op = "elc" -> o = Full(rk, At(rk, c.els[1][1]), r, l, <<>>)
         [] c.op = "elp" -> LET id == c.els[1][1]
                            IN o = Full(rk, At(rk, id), r, l, IF Has(old, id) THEN <<Rk(old, At(old, id), l)>> ELSE <<>>)
         [] c.op = "elg" -> o = Full(rk, At(rk, c.id), r, l, <<>>)
         [] c.op = "elm" -> /\ o.found = Found(rk, Range(c.ids), l)
                            /\ Range(o.nf) = Range(c.ids) \ IdsOf(rk) /\ \A i \in 1..(Len(o.nf) - 1) : o.nf[i] < o.nf[i + 1]
         [] c.op = "ela" -> LET p == Positions(rk, Range(c.ids) \cup {c.id})
                                m == CHOOSE k \in DOMAIN p : rk[p[k]][1] = c.id
                                nb(a, z) == [k \in 1..Max2(0, z - a + 1) |-> Rk(rk, p[a + k - 1], l)]
                            IN o = [Full(rk, p[m], r, l, <<>>) EXCEPT
                                       !.ab = nb(Max2(1, m - r), m - 1), !.be = nb(m + 1, Min2(Len(p), m + r)),
                                       !.lft = m - 1, !.lfb = Len(p) - m]
         [] c.op = "elpm" -> /\ o.nf = <<>>
                             /\ o.found = (IF c.results THEN Found(rk, BatchIds(c.els), l) ELSE <<>>)
         [] c.op \in {"lc", "lrix"} -> FullInfoOK(E, l, o, TRUE)
         [] c.op = "lcl" -> FullInfoOK(E, c.dst, o, TRUE)
         [] c.op = "lg" -> FullInfoOK(E, l, o, c.topbot)
         [] c.op = "lpct" -> o = Full(rk, Percentile(Len(rk), Or(c.pct, 8)), r, l, <<>>)
         [] c.op = "lrng" -> LET n == Or(c.limit, 25)
                                 a == IF c.ft >= 0 THEN c.ft + 1 ELSE Len(rk) - c.fb
                             IN o = Rks(rk, a, Min2(Len(rk), a + n - 1), l)
         [] c.op = "lall" -> ListPageOK(E, c, o)
         [] c.op \in {"lrep", "lver"} -> ~o.err /\ Len(o.list) = 1 /\ InfoOK(E, l, o.list[1])
         [] c.op = "mc" -> MultiOK(o, Creatable(D, c), Chosen(D, c.sel) \ Creatable(D, c), c.erronly, F, X,
                                   LAMBDA k, res : IF c.results THEN TinyOK(E, k, BatchIds(c.els), res) ELSE res = <<>>)
         [] c.op = "mp" -> MultiOK(o, Existing(D, c), Chosen(D, c.sel) \ DOMAIN D, c.erronly, F, X,
                                   LAMBDA k, res : IF c.results THEN TinyOK(E, k, BatchIds(c.els), res) ELSE res = <<>>)
         [] c.op = "md" -> MultiOK(o, Existing(D, c), Chosen(D, c.sel) \ DOMAIN D, c.erronly, F, X, LAMBDA k, res : res = <<>>)
         [] c.op = "mg" -> MultiOK(o, Existing(D, c), Chosen(D, c.sel) \ DOMAIN D, FALSE, F, X, LAMBDA k, res : TinyOK(E, k, {c.id}, res))
         [] c.op \in {"mv", "mr"} -> MultiOK(o, ChosenOrAll(D, c.sel) \cap DOMAIN D, ChosenOrAll(D, c.sel) \ DOMAIN D,
                                             c.erronly, F, X, LAMBDA k, res : res = <<>>)
         [] c.op = "bk" -> LET ks == ChosenOrAll(D, c.sel)
                               no == ks \ DOMAIN D
                               errs == Range(o.err)
                           IN /\ o.done /\ ~o.cancelled /\ o.size
                              /\ o.n = Cardinality(ks) /\ o.ndone = Cardinality(ks \ errs)
                              /\ no \subseteq errs /\ errs \subseteq no \cup F \cup X
         [] c.op = "bks" -> o.done /\ o.id
         [] c.op = "root" -> o.running
         [] c.op = "rs" -> LET R == Restored(D, c, b, names)
                               errs == Range(o.err)
                           IN /\ errs \subseteq Targets(c, R \ Restorable(D, c, b, names), names)
                              /\ o.n = Cardinality(Successful(D, c, b, names, errs))
                              /\ o.skip = Cardinality(DOMAIN b.copy \ R)
         [] OTHER -> TRUE
=============================================================================
