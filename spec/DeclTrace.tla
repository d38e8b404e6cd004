----------------------------- MODULE DeclTrace -----------------------------
(* Decides whether what the compiler said about generated programs, and what the accepted ones did when run,
   follows Decl. *)
EXTENDS Decl, TLCExt, Json, IOUtils

Log == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Cases == TLCEval(ndJsonDeserialize(IOEnv.CASES))
VARIABLES i, name, bad
vars == <<i, name, bad>>
If(c, s) == IF c THEN {s} ELSE {}
Init == i = 1 /\ name = "-" /\ bad = 0

\* e.arch: for each archetype of the program [name, id, comps, ents, ...] as observed
WorldClauses(c, e) ==
    LET r == Reduce(c.decl)
        ids == Ids(r)
        NamesOf(s) == [k \in 1..Len(s) |-> s[k].name] IN
    If(NamesOf(e.arch) # NamesOf(r), "items") \cup
    If(\E k \in 1..Len(e.arch) : e.arch[k].id # ids[k], "archetype_id") \cup
    If(\E k \in 1..Len(e.arch) : e.arch[k].hid # <<ids[k], ids[k], ids[k], ids[k]>>, "handle_id") \cup
    If(\E k \in 1..Len(e.arch) : e.arch[k].sel # <<k, k, k, k>>, "select") \cup
    UNION {LET cs == r[k].comps
               cids == Ids(cs)
               o == e.arch[k].comps IN
           If(NamesOf(o) # NamesOf(cs), "items") \cup
           If(\E j \in 1..Len(o) : o[j].id # cids[j], "component_id") \cup
           If(\E j \in 1..Len(o) : o[j].mid # cids[j] \/ Range1(o[j].qid) # {cids[j]} \/ o[j].qid = <<>>, "component_id_macro")
           : k \in 1..Len(e.arch)} \cup
    \* every other id is unknown to the world
    If(\E n \in 0..255 : e.lookup[n + 1] # IF \E k \in 1..Len(ids) : ids[k] = n THEN CHOOSE k \in 1..Len(ids) : ids[k] = n ELSE 0, "select")

Ents(c, k) == LET Upto(j) == FoldSeq(LAMBDA x, y : x + y, 0, [m \in 1..j |-> c.pop[m]]) IN (Upto(k - 1) + 1)..Upto(k)

QueryClauses(c, e) ==
    LET r == Reduce(c.decl)
        q == ReduceQ(c.queries[e.q])
        ids == Ids(r)
        ms == Matched(q, r)
        all == UNION {{<<k, n>> : n \in Ents(c, k)} : k \in 1..Len(r)}
        hit == IF e.m \in {"find", "find_borrow"} THEN {x \in all : x[2] = e.key /\ x[1] \in ms} ELSE {x \in all : x[1] \in ms}
        want == {Args(q, r[x[1]], ids[x[1]], x[2]) : x \in hit}
        touch == UNION {{<<w, x[2]>> : w \in Writes(q, r[x[1]])} : x \in hit} IN
    (IF e.m = "iter_destroy_all"
     THEN If(e.ncalls # Cardinality(hit), "matched") \cup If(Range1(e.left) # {x[2] : x \in all \ hit}, "matched")
     ELSE \* one call per entity, each with the right arguments; the same arguments twice is one call too many if there are any
          If(Len(e.calls) # Cardinality(hit), "matched") \cup
          If(Range1(e.calls) # want, "bound") \cup
          If(Range1(e.left) # {x[2] : x \in all}, "matched")) \cup
    If(e.m \in {"find", "find_borrow"} /\ e.some # (hit # {}), "none") \cup
    If(e.m # "iter_destroy_all" /\ Range1(e.touched) # touch, "written")

Clauses(e) ==
    LET c == Cases[e.c] IN
    CASE e.op = "accept"  -> LET r == Reduce(c.decl)
                                 ok == WorldOk(r, c.max) /\ (\A k \in 1..Len(c.queries) : QueryOk(ReduceQ(c.queries[k]), r)) IN
                             If(e.ok /\ ~ok, "accepted") \cup If(~e.ok /\ ok, "rejected")
      [] e.op = "world"   -> WorldClauses(c, e)
      [] e.op = "query"   -> QueryClauses(c, e)
      [] e.op = "crash"   -> {"crash"}

Next ==
    /\ i <= Len(Log)
    /\ i' = i + 1
    /\ LET e == Log[i]
           v == Clauses(e) IN
       /\ bad' = IF v = {} THEN bad ELSE bad + 1
       /\ IF v = {} THEN TRUE ELSE PrintT(<<"BROKEN", ToString(e.c), i, e.op, v, {"-"}>>)
       /\ name' = ToString(e.c)
Spec == Init /\ [][Next]_vars
Done == i = Len(Log) + 1 => PrintT(<<"JUDGED", Len(Log), bad>>)
=============================================================================
