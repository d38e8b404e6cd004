---------------------------- MODULE HandlesTrace ----------------------------
(* Decides whether recorded conversions follow Handles. Raw values are logged as four 16-bit halves. *)
EXTENDS Handles, TLCExt, Json, IOUtils

Log == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES i, h, live, raw0, name, bad
vars == <<i, h, live, raw0, name, bad>>

Ids == TLCGet(11).ids
If(c, s) == IF c THEN {s} ELSE {}
None == [form |-> "-", t |-> 0, id |-> -1]
Init == TLCSet(11, Log[1]) /\ i = 2 /\ h = None /\ live = FALSE /\ raw0 = <<>> /\ name = "-" /\ bad = 0

\* what a handle shows of itself
See(e, form, t, id, raw, alive) ==
    If(e.form # form \/ e.t # t, "form") \cup
    If(form # "Raw" /\ e.id # id, "id") \cup
    If(form \in HasRaw /\ e.raw # raw, "raw") \cup
    If(form \in Leads /\ e.reach # IF alive THEN raw ELSE <<>>, "entity")

StepClauses(e) ==
    LET c == Conv(Ids, h, e.via, e.arg) IN
    IF e.res # c.res THEN {"result"} ELSE IF e.res = "ok" THEN See(e, c.form, c.t, c.id, raw0, live) ELSE {}

\* every conversion from one raw value
RawClauses(e) ==
    LET zero == e.in[3] = 0 /\ e.in[4] = 0
        OneTo(k, r, no) == IF Ids[k] = e.id THEN r = <<"ok", e.in>> ELSE r[1] = no IN
    IF zero THEN If(e.res # "InvalidRawEntity", "from_raw")
    ELSE IF e.res # "ok" THEN {"from_raw"}
    ELSE If(e.out # e.in, "raw") \cup
         If(~(e.id \in 0..255), "id") \cup
         If(\E k \in 1..Len(Ids) : ~OneTo(k, e.try[k], "InvalidEntityType"), "try") \cup
         If(\E k \in 1..Len(Ids) : ~OneTo(k, e.fany[k], "panic"), "from_any") \cup
         If(\E k \in 1..Len(Ids) : IF Ids[k] = e.id THEN e.unch[k] # <<"ok", e.in>> ELSE e.unch[k][1] = "ok" /\ e.unch[k][2] # e.in, "unchecked") \cup
         If(e.sele # IF Known(Ids, e.id) THEN <<"ok", Which(Ids, e.id), e.in>> ELSE <<"InvalidEntityType", 0, <<>>>>, "select") \cup
         If(e.sela # IF Known(Ids, e.id) THEN <<"ok", Which(Ids, e.id)>> ELSE <<"InvalidEntityType", 0>>, "select") \cup
         If(~e.eq, "eq") \cup If(~e.hash, "hash")

PairClauses(e) ==
    LET N == 1..Len(e.key)
        Same(a, b) == e.key[a] = e.key[b] IN
    If(\E a, b \in N : (e.eq[a][b] = 1) # Same(a, b), "eq") \cup
    If(\E a, b \in N : e.ne[a][b] = e.eq[a][b], "eq") \cup
    If(\E a, b \in N : Same(a, b) /\ e.hash[a] # e.hash[b], "hash") \cup
    If(e.set # Cardinality({e.key[a] : a \in N}), "set") \cup
    If(\E a \in N : e.last[a] # CHOOSE b \in N : Same(a, b) /\ \A c \in N : c > b => ~Same(a, c), "set")

\* n different handles near raw, itself among them: it equals only itself, typed or not
NearClauses(e) ==
    If(e.eq # <<e.raw>> \/ e.notne # e.eq, "eq") \cup
    If(e.typed # (IF \E k \in 1..Len(Ids) : Ids[k] = e.raw[2] % 256 THEN <<e.raw>> ELSE <<>>), "eq") \cup
    If(e.set # e.n, "set")

\* direct handles taken at different times: those of one entity may or may not be equal, those of two never are
OverClauses(e) ==
    LET N == 1..Len(e.key) IN
    If(\E a, b \in N : e.eq[a][b] = 1 /\ e.key[a] # e.key[b], "eq") \cup
    If(\E a, b \in N : e.ne[a][b] = e.eq[a][b] \/ e.eq[a][b] # e.eq[b][a] \/ e.eq[a][a] # 1, "eq") \cup
    If(\E a, b \in N : e.eq[a][b] = 1 /\ e.hash[a] # e.hash[b], "hash") \cup
    If(e.set # Cardinality({{b \in N : e.eq[a][b] = 1} : a \in N}), "set")

Clauses(e) ==
    CASE e.op = "start" -> If(e.id # e.want, "id") \cup If(e.live /\ e.reach # e.raw, "entity") \cup If(~e.live /\ e.reach # <<>>, "entity")
      [] e.op = "step"  -> StepClauses(e)
      [] e.op = "raw"   -> RawClauses(e)
      [] e.op = "id"    -> If(IF Known(Ids, e.id) THEN e.res # "ok" \/ e.t # Which(Ids, e.id) ELSE e.res # "InvalidEntityType", "select")
      [] e.op = "ids"   -> If(e.ids # Ids, "id")
      [] e.op = "pairs" -> IF e.form \in {"DTover", "DAnyover"} THEN OverClauses(e) ELSE PairClauses(e)
      [] e.op = "near"  -> NearClauses(e)
      [] e.op = "deep"  -> If(e.id # e.want, "id") \cup If(~e.found \/ ~e.dfound, "entity") \cup If(~e.same, "raw")
      [] OTHER -> {}

Next ==
    /\ i <= Len(Log)
    /\ i' = i + 1
    /\ LET e == Log[i]
           v == Clauses(e) IN
       /\ bad' = IF v = {} THEN bad ELSE bad + 1
       /\ IF v = {} THEN TRUE ELSE PrintT(<<"BROKEN", name, i, e.op, v, {"-"}>>)
       /\ name' = IF e.op = "reset" THEN e.b ELSE name
       /\ IF e.op = "start" THEN /\ h' = [form |-> e.form, t |-> e.t, id |-> e.want] /\ live' = e.live /\ raw0' = e.raw
          ELSE IF e.op = "step" THEN
               LET c == Conv(Ids, h, e.via, e.arg) IN
               \* the rest of the sequence is judged from where the specification is
               h' = [form |-> c.form, t |-> c.t, id |-> c.id] /\ UNCHANGED <<live, raw0>>
          ELSE UNCHANGED <<h, live, raw0>>
Spec == Init /\ [][Next]_vars
Done == i = Len(Log) + 1 => PrintT(<<"JUDGED", Len(Log), bad>>)
=============================================================================
