----------------------------- MODULE GecsTrace -----------------------------
(* Decides whether a trace recorded from the real crate is a behaviour of GecsAbs.
   The trace is an ndjson file named by the environment variable TRACE. Each line that breaks a clause
   is reported; the run of the trace up to the next reset is judged on (at most 3 reports per behaviour). *)
EXTENDS GecsAbs, TLCExt, Json, IOUtils

Log == TLCEval(ndJsonDeserialize(IOEnv.TRACE))

VARIABLES i, S, light, name, bad, badB, flags
vars == <<i, S, light, name, bad, badB, flags>>

Init == InitTables(Log[1]) /\ i = 2 /\ S = Empty /\ light = FALSE /\ name = "-" /\ bad = 0 /\ badB = 0 /\ flags = {}

\* what has happened so far in this behaviour
Flags(e) == If(e.op \in {"clone", "idestroy", "forge", "ff"}, e.op)
            \cup (IF "res" \in DOMAIN e THEN If(e.res = "panic", "panic") ELSE {})

Next ==
    /\ i <= Len(Log)
    /\ i' = i + 1
    /\ LET e == Log[i] IN
       IF e.op = "reset" THEN
           S' = Empty /\ light' = e.light /\ name' = e.b /\ badB' = 0 /\ bad' = bad /\ flags' = {}
       ELSE
           /\ UNCHANGED <<light, name>>
           /\ flags' = flags \cup Flags(e)
           /\ LET j == IF badB >= 4 THEN [S |-> S, v |-> {}] ELSE Judge(S, e, light) IN
              /\ S' = j.S
              /\ badB' = IF j.v = {} THEN badB ELSE badB + 1
              /\ bad' = IF j.v = {} THEN bad ELSE bad + 1
              /\ IF j.v = {} THEN TRUE ELSE PrintT(<<"BROKEN", name, i, e.op, j.v, flags'>>)
Spec == Init /\ [][Next]_vars
Done == i = Len(Log) + 1 => PrintT(<<"JUDGED", Len(Log), bad>>)
=============================================================================
