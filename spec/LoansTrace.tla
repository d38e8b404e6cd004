----------------------------- MODULE LoansTrace -----------------------------
(* Judges what rustc said of the programs, and what the programs that compile say of themselves. *)
EXTENDS Loans, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)

\* e.op: prog [form, l, x, ok]; query [params, checked, ok, panics]; auto [..]; thread [how, comps, ok]; expand [unsafe, what]; crate [ok]
Judge(e) ==
    CASE e.op = "prog"   -> LET v == Expect(e.form, e.l, e.x) IN
                            IF v = "no" /\ e.ok THEN {"accepted_unsound"} ELSE IF v = "yes" /\ ~e.ok THEN {"rejected_sound"} ELSE {}
      [] e.op = "query"  -> LET v == QVerdict(e.params, e.checked) IN
                            IF v = "no" /\ e.ok THEN {"accepted_unsound"} ELSE IF v = "yes" /\ ~e.ok THEN {"rejected_sound"}
                            ELSE IF v = "panic" /\ e.ok /\ ~e.panics THEN {"unchecked_alias"} ELSE {}
      [] e.op = "auto"   -> Auto(e)
      [] e.op = "thread" -> IF e.how = "share" THEN (IF e.ok THEN {"shared_world"} ELSE {})
                            ELSE IF e.how = "join" THEN (IF ~e.ok THEN {"rejected_sound"} ELSE {})
                            ELSE IF e.ok # AllSend(e.comps) THEN {"moved_world"} ELSE {}
      [] e.op = "expand" -> IF e.unsafe # 0 THEN {"unsafe_code"} ELSE {}
      [] e.op = "crate"  -> IF ~e.ok THEN {"forbid_unsafe"} ELSE {}
      [] OTHER -> {"judge"}

VARIABLES i, bad
Init == i = 1 /\ bad = {}
Next == /\ i <= Len(Log)
        /\ i' = i + 1
        /\ LET j == Judge(Log[i]) IN
           /\ bad' = (IF j = {} THEN bad ELSE bad \cup {i})
           /\ (j = {} \/ PrintT(<<"BROKEN", i, j>>))
           /\ (i < Len(Log) \/ PrintT(<<"JUDGED", i, Cardinality(bad')>>))
Spec == Init /\ [][Next]_<<i, bad>>
=============================================================================
