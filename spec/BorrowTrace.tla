---------------------------- MODULE BorrowTrace ----------------------------
(* Decides whether recorded runs of runtime-borrowed accesses follow Borrow. *)
EXTENDS Borrow, TLCExt, Json, IOUtils

Log == TLCEval(ndJsonDeserialize(IOEnv.TRACE))

VARIABLES i, guards, frames, name, n, bad
vars == <<i, guards, frames, name, n, bad>>

\* n: how many entities each archetype has
\* A frame is a query or a clone that has been entered: what its present call holds (take), what it may or may not hold
\* (may: a clone is free to hold the columns it is not reading just now), the archetypes of its calls so far (seen), how
\* the last call ended (how), the mutable borrows held ever since it was entered (since), and whether there have been none (clean)
NoG == [g \in {} |-> {}]

If(c, s) == IF c THEN {s} ELSE {}
Q(k) == Shape.q[k]
FrameHeld(fs) == UNION {fs[k].take : k \in 1..Len(fs)}
Held(gs, fs)  == UNION {gs[g] : g \in DOMAIN gs} \cup FrameHeld(fs)
MayHold(fs)   == UNION {fs[k].may : k \in 1..Len(fs)}
Mutable(bs)   == {b \in bs : b[3]}
Soiled(fs, bs) == [k \in 1..Len(fs) |-> [fs[k] EXCEPT !.clean = @ /\ Mutable(bs) = {}]]
Matching(q)   == {a \in 1..NA : Matches(Q(q), a)}
Count(s, x)   == Cardinality({k \in 1..Len(s) : s[k] = x})

Init == TLCSet(11, Log[1]) /\ i = 2 /\ guards = NoG /\ frames = <<>> /\ name = "-" /\ n = <<0, 0, 0, 0>> /\ bad = 0

\* every access tried in one state, each given up at once
ProbeClauses(held, may, e) ==
    UNION {LET x == e.acq[k]
               want == {<<x[1], x[2], x[3]>>} IN
           If(x[5] = "ok" /\ Refused(held, want), "aliased") \cup
           If(x[5] # "ok" /\ ~Refused(held \cup may, want), "refused") : k \in 1..Len(e.acq)} \cup
    UNION {LET x == e.find[k]
               m == Matches(Q(x[2]), x[1])
               no == m /\ Refused(held, Takes(Q(x[2]), x[1]))
               yes == m /\ ~Refused(held \cup may, Takes(Q(x[2]), x[1])) IN
           If(x[4] # <<>> /\ no, "aliased") \cup
           If(yes /\ (x[3] # "ok" \/ x[4] # <<x[1]>>), "refused") \cup
           If(no /\ x[3] # "panic", "aliased") \cup
           If(~m /\ (x[3] # "none" \/ x[4] # <<>>), "query") : k \in 1..Len(e.find)} \cup
    UNION {LET x == e.iter[k]
               ms == {a \in Matching(x[1]) : n[a] > 0}
               no == {a \in ms : Refused(held, Takes(Q(x[1]), a))}
               yes == \A a \in ms : ~Refused(held \cup may, Takes(Q(x[1]), a)) IN
           If(Rng(x[3]) \cap no # {}, "aliased") \cup
           If(yes /\ x[2] # "ok", "refused") \cup
           If(no # {} /\ x[2] = "ok", "aliased") \cup
           If(yes /\ \E a \in 1..NA : Count(x[3], a) # IF a \in ms THEN n[a] ELSE 0, "query") : k \in 1..Len(e.iter)} \cup
    If(e.clone # IF CloneRefused(held) THEN "panic" ELSE "ok", "clone")

Everything == {<<x[1], x[2], FALSE>> : x \in Cell}
Top == frames[Len(frames)]
Pop == SubSeq(frames, 1, Len(frames) - 1)

Next ==
    /\ i <= Len(Log)
    /\ i' = i + 1
    /\ LET e == Log[i]
           held == Held(guards, frames)
           may == MayHold(frames)
           Report(v) == /\ (IF v = {} THEN TRUE ELSE PrintT(<<"BROKEN", name, i, e.op, v, {"-"}>>))
                        /\ bad' = IF v = {} THEN bad ELSE bad + 1 IN
       CASE e.op = "reset" -> guards' = NoG /\ frames' = <<>> /\ name' = e.b /\ n' = e.n /\ bad' = bad
         [] e.op = "acq" ->
              LET want == {<<e.a, e.c, e.m>>} IN
              /\ guards' = IF e.res = "ok" THEN (e.g :> want) @@ guards ELSE guards
              /\ frames' = IF e.res = "ok" THEN Soiled(frames, want) ELSE frames
              /\ UNCHANGED <<name, n>>
              /\ Report(If(e.res = "ok" /\ Refused(held, want), "aliased") \cup If(e.res # "ok" /\ ~Refused(held \cup may, want), "refused"))
         [] e.op = "rel" -> /\ guards' = [g \in DOMAIN guards \ {e.g} |-> guards[g]]
                            /\ frames' = [k \in 1..Len(frames) |-> [frames[k] EXCEPT !.since = IF e.g \in DOMAIN guards THEN @ \ guards[e.g] ELSE @]]
                            /\ UNCHANGED <<name, n, bad>>
         [] e.op = "enter" -> /\ frames' = Append(frames, [kind |-> e.kind, q |-> e.q, a |-> e.a, take |-> {}, may |-> IF e.kind = "clone" THEN Everything ELSE {},
                                                          seen |-> <<>>, how |-> "-", since |-> Mutable(held), clean |-> ~CloneRefused(held)])
                              /\ UNCHANGED <<guards, name, n, bad>>
         [] e.op = "call" ->
              LET t == Takes(Q(Top.q), e.a) IN
              /\ frames' = [Soiled(frames, t) EXCEPT ![Len(frames)].take = t, ![Len(frames)].seen = Append(@, e.a)]
              /\ UNCHANGED <<guards, name, n>>
              /\ Report(If(Refused(held, t), "aliased") \cup If(~Matches(Q(Top.q), e.a), "query"))
         [] e.op = "inclone" ->
              LET t == {<<e.a, e.c, FALSE>>} IN
              /\ frames' = [frames EXCEPT ![Len(frames)].take = t, ![Len(frames)].seen = Append(@, e.a)]
              /\ UNCHANGED <<guards, name, n>>
              /\ Report(If(Refused(held, t), "aliased"))
         [] e.op = "ret" -> /\ frames' = [frames EXCEPT ![Len(frames)].take = {}, ![Len(frames)].how = e.how]
                            /\ UNCHANGED <<guards, name, n, bad>>
         [] e.op = "leave" ->
              LET ms == IF Top.kind = "clone" THEN {} ELSE Matching(Top.q)
                  before == Held(guards, Pop)
                  rest == {a \in ms : Count(Top.seen, a) < n[a]}
                  no == {a \in rest : Refused(before \cup MayHold(Pop), Takes(Q(Top.q), a))} IN
              /\ frames' = Pop
              /\ UNCHANGED <<guards, name, n>>
              /\ Report(
                   IF Top.kind = "clone" THEN
                       If(e.res = "ok" /\ Top.since # {}, "aliased") \cup
                       If(e.res = "panic" /\ Top.clean, "refused") \cup
                       If((e.res = "unwound") # (Top.how = "unwind"), "unwind")
                   ELSE IF Top.kind = "find" THEN
                       If(e.res = "ok" /\ Top.seen # <<Top.a>>, "query") \cup
                       If(e.res = "none" /\ Top.a \in ms, "refused") \cup
                       If(e.res = "panic" /\ (Top.a \notin ms \/ Top.seen # <<>> \/ ~Refused(before \cup MayHold(Pop), Takes(Q(Top.q), Top.a))), "refused") \cup
                       If((e.res = "unwound") # (Top.how = "unwind"), "unwind")
                   ELSE If(e.res = "ok" /\ Top.how # "break" /\ rest # {}, "query") \cup
                        If(e.res = "panic" /\ (no = {} \/ Top.how \in {"break", "unwind"}), "refused") \cup
                        If((e.res = "unwound") # (Top.how = "unwind"), "unwind"))
         [] e.op = "clone" -> /\ UNCHANGED <<guards, frames, name, n>>
                              /\ Report(If(e.res # IF CloneRefused(held) THEN "panic" ELSE "ok", "clone"))
         [] e.op = "probe" -> /\ UNCHANGED <<guards, frames, name, n>> /\ Report(ProbeClauses(held, may, e))
Spec == Init /\ [][Next]_vars
Done == i = Len(Log) + 1 => PrintT(<<"JUDGED", Len(Log), bad>>)
=============================================================================
