----------------------------- MODULE BackupGen ------------------------------
(* All interferences with backup jobs, as scripts for the driver: what     *)
(* happens when the job starts saving list `at` (0: before the job).       *)
EXTENDS Backup, TLC, Json
VARIABLES h
gvars == <<vars, h>>
GInit == Init /\ h = <<>> /\ req # {}
Log(a, k) == h' = Append(h, [a |-> a, k |-> k, at |-> cur])
GNext == /\ \/ \E k \in Lists : \/ Update(k) /\ Log("upd", k)
                                \/ Remove(k) /\ Log("rem", k)
                                \/ Spoil(k) /\ (cur # 0 => k = cur) /\ Log("bad", k)
                                \/ Take(k) /\ UNCHANGED h
            \/ Cancel /\ Log("cancel", 0)
            \/ (Start \/ Saved \/ Failed \/ Finish) /\ UNCHANGED h
            \/ Final /\ UNCHANGED h
         /\ (pc' = "done") => PrintT(ToJson([req |-> [k \in Lists |-> k \in req], dst |-> dst, h |-> h']))
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
