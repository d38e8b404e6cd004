-------------------------------- MODULE Scale --------------------------------
(* A counting abstraction of a gecs world, for storages up to the limit of 2^24 entities per archetype, where
   GecsAbs's sets would be too large. The state has, for each world and archetype, the number of living and
   destroyed entities and the capacity. An event is a batch of operations reported as counts; a "check" event says
   of how many of all handles ever issued each part of the contract holds. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils

Limit == 16777216
Log == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES i, S, name, bad, flags
vars == <<i, S, name, bad, flags>>

If(c, s) == IF c THEN {s} ELSE {}
Arch == 1..2
Min(x, y) == IF x < y THEN x ELSE y
Empty == [w \in {} |-> 0]
Init == i = 2 /\ S = Empty /\ name = "-" /\ bad = 0 /\ flags = {}

Total(w) == w.live[1] + w.live[2]
\* <<next state, broken clauses, number of tracked values dropped>>
Step(e) ==
    CASE e.op = "new" ->
            LET fits == \A a \in Arch : e.want[a] <= Limit IN
            IF e.res = "ok" THEN <<(e.w :> [live |-> <<0, 0>>, dead |-> <<0, 0>>, cap |-> e.want]) @@ S, If(~fits, "limit"), 0>>
            ELSE <<S, If(fits, "limit"), 0>>
      [] e.op = "fill" ->
            LET w == S[e.w]
                room == IF e.within THEN w.cap[e.a] - w.live[e.a] ELSE Limit - w.live[e.a]
                n == Min(e.want, room) IN
            <<[S EXCEPT ![e.w].live[e.a] = @ + e.made],
              If(e.made # n, IF e.within THEN "cap" ELSE "limit") \cup
              If(e.res # IF e.made = e.want THEN "ok" ELSE IF e.within THEN "full" ELSE "panic", "limit") \cup
              If(~e.back, "value"),
              \* what could not be stored is dropped: by the unwinding, or by the caller that got it back
              IF e.res = "ok" THEN 0 ELSE 1>>
      [] e.op = "drain" ->
            LET n == Min(e.want, S[e.w].live[e.a]) IN
            <<[S EXCEPT ![e.w].live[e.a] = @ - n, ![e.w].dead[e.a] = @ + n],
              If(e.done # n, "lookup") \cup If(e.right # e.done, "value"), n>>
      [] e.op = "sweep" ->
            LET n == S[e.w].live[e.a] IN
            <<[S EXCEPT ![e.w].live[e.a] = @ - e.should, ![e.w].dead[e.a] = @ + e.should],
              If(e.res # "ok", "panic") \cup If(e.visits # n \/ e.killed # e.should, "idestroy"), e.should>>
      [] e.op = "clone" ->
            <<IF e.res = "ok" THEN (e.to :> S[e.w]) @@ S ELSE S, If(e.res # "ok", "panic") \cup If(e.clones # Total(S[e.w]), "clone"), 0>>
      [] e.op = "drop" -> <<[w \in DOMAIN S \ {e.w} |-> S[w]], {}, Total(S[e.w])>>
      [] e.op = "check" ->
            LET w == S[e.w] IN
            <<S, UNION {LET c == e.A[a] IN
                        If(c.live # w.live[a] \/ c.dead # w.dead[a], "judge") \cup
                        If(c.found # c.live \/ c.stale # 0, "lookup") \cup
                        If(c.right # c.found, "value") \cup
                        If(c.dup # 0, "reissue") \cup
                        If(\E k \in 1..Len(c.iter) : c.iter[k] # c.live, "iter") \cup
                        If(\E k \in 1..Len(c.same) : ~c.same[k] /\ c.iter[k] = c.live, "value") \cup
                        If(c.dstale # 0 \/ c.dmust # 0 \/ c.dwrong # 0, "direct") \cup
                        If(Log[1].events /\ (c.ec # c.live + c.dead \/ c.ed # c.dead \/ ~c.evok), "events")
                        : a \in Arch}, 0>>

\* lengths and capacities of every world after every event
Seen(e, T) ==
    If({e.O[k].w : k \in 1..Len(e.O)} # DOMAIN T, "world") \cup
    UNION {LET o == e.O[k] IN
           IF o.w \notin DOMAIN T THEN {} ELSE
           LET w == T[o.w] IN
           UNION {If(o.len[a] # w.live[a] \/ o.empty[a] # (w.live[a] = 0), "len") \cup
                  If(o.cap[a] < w.cap[a] \/ o.cap[a] < o.len[a] \/ o.cap[a] > Limit, "cap") \cup
                  \* only a creation that may grow changes a capacity
                  If(o.cap[a] # w.cap[a] /\ ~(e.op = "new" /\ e.w = o.w) /\ ~(e.op = "fill" /\ ~e.within /\ e.w = o.w /\ e.a = a), "cap") : a \in Arch}
           : k \in 1..Len(e.O)}
WithCaps(T, e) ==
    [w \in DOMAIN T |-> IF \E k \in 1..Len(e.O) : e.O[k].w = w
                        THEN LET o == e.O[CHOOSE k \in 1..Len(e.O) : e.O[k].w = w] IN [T[w] EXCEPT !.cap = <<o.cap[1], o.cap[2]>>]
                        ELSE T[w]]

Next ==
    /\ i <= Len(Log)
    /\ i' = i + 1
    /\ LET e == Log[i] IN
       IF e.op = "reset" THEN S' = Empty /\ name' = e.b /\ bad' = bad /\ flags' = {}
       ELSE
         LET r == Step(e)
             \* an archetype that ran into a limit panicked
             v == r[2] \cup Seen(e, r[1]) \cup If(e.drops # r[3], "drop") IN
         /\ S' = WithCaps(r[1], e)
         /\ name' = name
         /\ flags' = flags \cup If(e.op = "clone", "clone") \cup If(e.op = "sweep", "idestroy")
                           \cup (IF "res" \in DOMAIN e THEN If(e.res = "panic", "panic") ELSE {})
         /\ bad' = IF v = {} THEN bad ELSE bad + 1
         /\ IF v = {} THEN TRUE ELSE PrintT(<<"BROKEN", name, i, e.op, v, flags'>>)
Spec == Init /\ [][Next]_vars
Done == i = Len(Log) + 1 => PrintT(<<"JUDGED", Len(Log), bad>>)
=============================================================================
