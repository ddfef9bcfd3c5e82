------------------------------ MODULE LazyGen ------------------------------
(* Random behaviours of the design LazySaver.tla, printed as JSON: what    *)
(* callers do and when saves begin and end.  The driver lets the real      *)
(* code do the same (lazyScript).                                          *)
EXTENDS LazySaver, Json
CONSTANT Steps
VARIABLES evlog, fin
GInit == Init /\ evlog = <<>> /\ fin = FALSE
Run == /\ ~fin /\ TLCGet("level") < Steps /\ NextStep
       /\ evlog' = IF ev'.ev = "none" THEN evlog ELSE Append(evlog, ev')
       /\ (sd = -2 /\ sd' # -2) => Len(evlog) > 20
       /\ UNCHANGED fin
Stop == /\ ~fin /\ (TLCGet("level") >= Steps \/ ~ENABLED NextStep)
        /\ PrintT(ToJson(evlog)) /\ fin' = TRUE /\ UNCHANGED <<vars, evlog>>
GNext == Run \/ Stop
GSpec == GInit /\ [][GNext]_<<vars, evlog, fin>>
=============================================================================
