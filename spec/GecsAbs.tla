------------------------------ MODULE GecsAbs ------------------------------
(* The property-level specification of a gecs world, and the judge of one observed operation.
   It knows which handles are live, which row of component values each one owns, which handles and
   direct handles were ever issued, the capacity, the pending events, and which value instances are
   owned by the world. It knows nothing about slots, generations, dense order or growth policy.

   Every operation of a run - of the real crate (GecsTrace) or of the faithful model (GecsWorld) - is an
   event record: what was done, what it returned, which value instances were dropped meanwhile, and what
   every observer of every world says afterwards. Judge(S, e) gives the next abstract state and the set
   of clauses that the event breaks; the empty set means that the event is a step of this specification. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* The world declaration: [arch: sequence of column lists, q: queries, wrap, events, debug], and tables
\* derived from it. They sit in TLC registers so that TLC computes them once and not at every use.
Shape    == TLCGet(11)
QMatches == TLCGet(12)   \* query -> archetypes it acts on
QCols    == TLCGet(13)   \* query -> archetype -> sequence of <<column, position>>
NA    == Len(Shape.arch)
INF   == 2000000000
Rng(s) == {s[i] : i \in 1..Len(s)}
NoDup(s) == Cardinality(Rng(s)) = Len(s)
Drop1(f, x) == [t \in DOMAIN f \ {x} |-> f[t]]
DropS(f, X) == [t \in DOMAIN f \ X |-> f[t]]
Empty == [t \in {} |-> 0]
If(c, s) == IF c THEN {s} ELSE {}

-----------------------------------------------------------------------------
(* Values: > 0 an instance with identity, 0 a zero-sized one, -1..-251 an untracked byte,
   <= -900001 memory that holds no live instance. *)
Tracked(row)  == SelectSeq(row, LAMBDA v : v >= 0 \/ v < -900000)
RECURSIVE FlatS(_, _)
FlatS(f, T) == IF T = {} THEN <<>> ELSE LET t == CHOOSE x \in T : TRUE IN f[t].r \o FlatS(f, T \ {t})
Zeros(s) == Cardinality({i \in 1..Len(s) : s[i] = 0})
\* multiset equality of value lists in which only 0 may occur twice on the right
SameBag(s, t) == Len(s) = Len(t) /\ Rng(s) = Rng(t) /\ Zeros(s) = Zeros(t)

-----------------------------------------------------------------------------
(* Queries *)
Has(a, c) == \E i \in 1..Len(Shape.arch[a]) : Shape.arch[a][i] = c
Idx(a, c) == CHOOSE i \in 1..Len(Shape.arch[a]) : Shape.arch[a][i] = c
OneOf(a, q) == {c \in Rng(q.one) : Has(a, c)}
MkQMatches == TLCEval([n \in DOMAIN Shape.q |-> LET q == Shape.q[n] IN
    TLCEval({a \in 1..NA : /\ \A c \in Rng(q.need) : Has(a, c)
                           /\ q.one = <<>> \/ Cardinality(OneOf(a, q)) = 1
                           /\ q.only = 0 \/ q.only = a})])
\* the columns (name and position) a query binds in archetype a
MkQCols == TLCEval([n \in DOMAIN Shape.q |-> LET q == Shape.q[n] IN
    TLCEval([a \in QMatches[n] |-> TLCEval(
        [i \in 1..Len(q.need) |-> <<q.need[i], Idx(a, q.need[i])>>]
        \o IF q.one = <<>> THEN <<>> ELSE LET c == CHOOSE c \in OneOf(a, q) : TRUE IN <<<<c, Idx(a, c)>>>>)])])
InitTables(shape) == TLCSet(11, shape) /\ TLCSet(12, MkQMatches) /\ TLCSet(13, MkQCols)
QRow(n, a, row) == LET cs == QCols[n][a] IN [i \in 1..Len(cs) |-> <<cs[i][1], row[cs[i][2]]>>]

-----------------------------------------------------------------------------
(* Abstract state: a function from world numbers to worlds *)
NewWorld(caps) ==
    [live   |-> Empty,                   \* handle -> [a |-> archetype, r |-> row]
     cap    |-> caps,
     room   |-> [a \in 1..NA |-> INF],   \* removals left before a generation counter overflows
     issued |-> {},
     dir    |-> Empty,                   \* direct handle -> [e, a, rem, chg]
     ec     |-> [a \in 1..NA |-> <<>>],
     ed     |-> [a \in 1..NA |-> <<>>]]

Live(w)       == DOMAIN w.live
LiveIn(w, a)  == {t \in DOMAIN w.live : w.live[t].a = a}
ArchOf(w, t)  == w.live[t].a
RowOf(w, t)   == w.live[t].r
AllValues(w)  == Tracked(FlatS(w.live, DOMAIN w.live))
Spent(w, a)   == w.room[a] = 0

\* a structural change of archetype a: chg after any, rem after a removal
Changed(dir, a, removal) ==
    [d \in DOMAIN dir |-> IF dir[d].a = a THEN [dir[d] EXCEPT !.chg = TRUE, !.rem = @ \/ removal] ELSE dir[d]]

DoCreate(w, a, tok, row) ==
    [w EXCEPT !.live = (tok :> [a |-> a, r |-> row]) @@ @, !.issued = @ \cup {tok},
              !.dir = Changed(@, a, FALSE), !.ec[a] = IF Shape.events THEN Append(@, tok) ELSE @]
DoRemove(w, tok) ==
    LET a == ArchOf(w, tok) IN
    [w EXCEPT !.live = Drop1(@, tok), !.dir = Changed(@, a, TRUE),
              !.room[a] = IF @ = INF \/ @ = 0 THEN @ ELSE @ - 1,
              !.ed[a] = IF Shape.events THEN Append(@, tok) ELSE @]
DoWrite(w, tok, col, v) == [w EXCEPT !.live[tok].r[col] = v]
\* direct handle d is handed out for tok now
DoIssue(w, d, tok) ==
    [w EXCEPT !.dir = (d :> [e |-> tok, a |-> ArchOf(w, tok), rem |-> FALSE, chg |-> FALSE]) @@ @]
BadIssue(w, d, tok) ==
    IF tok \notin Live(w) THEN TRUE
    ELSE /\ d \in DOMAIN w.dir
         /\ w.dir[d].rem \/ w.dir[d].e # tok
         /\ ~(Shape.wrap /\ Spent(w, ArchOf(w, tok)))

-----------------------------------------------------------------------------
(* What every observer must say about world w (o: what it says, nw: direct handles obtained meanwhile).
   Returns <<world after the observation, broken clauses>>. *)
RowClauses(w, a, o) ==
    LET toks == LiveIn(w, a)
        want == {<<t, w.live[t].r>> : t \in toks}
        n == Cardinality(toks) IN
    If(o.l # n \/ o.e # (o.l = 0), "len") \cup
    If(o.c < o.l \/ o.c < w.cap[a], "cap") \cup
    UNION {LET g == o.R[i] IN
           If(g.x # <<>>, "rows") \cup
           IF g.x # <<>> \/ (Len(g.a) = n /\ Rng(g.a) = want) THEN {}
           ELSE IF Len(g.a) = n /\ {x[1] : x \in Rng(g.a)} = toks THEN {"value"} ELSE {"rows"}
           : i \in 1..Len(o.R)}
QueryClauses(w, q) ==
    LET M    == QMatches[q.n]
        toks == {t \in DOMAIN w.live : w.live[t].a \in M}
        want == {<<t, QRow(q.n, w.live[t].a, w.live[t].r)>> : t \in toks} IN
    If(q.x # 0, "query") \cup
    IF q.x # 0 \/ (Len(q.r) = Cardinality(want) /\ Rng(q.r) = want) THEN {}
    ELSE IF Len(q.r) = Cardinality(toks) /\ {x[1] : x \in Rng(q.r)} = toks THEN {"value"} ELSE {"query"}
\* entity handles
LookupClauses(w, L) ==
    LET lv   == Live(w)
        get  == {<<t, t, RowOf(w, t)>> : t \in lv}
        is   == {<<t, 0, <<>>>> : t \in lv} IN
    If(lv # {} /\ ({"is", "get"} \ {L[i].k : i \in 1..Len(L)}) # {}, "lookup") \cup
    UNION {LET g == L[i]
               toks == {x[1] : x \in Rng(g.a)} IN
           \* a lookup may panic only on a handle this world never issued
           If(Rng(g.x) \cap w.issued # {} /\ g.k # "forced" /\ g.k # "wrong", "lookup") \cup
           (CASE g.k = "get" ->
                   IF Rng(g.a) = get THEN {}
                   ELSE If(toks # lv \/ \E x \in Rng(g.a) : x[1] # x[2], "lookup") \cup
                        If(toks \ w.issued # {}, "forged") \cup
                        If(\E x \in Rng(g.a) : x[1] = x[2] /\ x \notin get, "value")
              [] g.k = "is"  -> IF Rng(g.a) = is THEN {}
                                ELSE {"lookup"} \cup If(toks \ w.issued # {}, "forged")
              [] g.k = "kill" -> If(g.a # <<>>, "lookup") \cup If(toks \ w.issued # {}, "forged")
              [] OTHER -> If(g.a # <<>>, "forged"))
           : i \in 1..Len(L)}
\* direct handles: valid in w now
DirectClauses(w, D, N, light) ==
    LET now  == {x[2] : x \in Rng(N)}
        must == now \cup (IF light THEN {} ELSE {d \in DOMAIN w.dir : ~w.dir[d].chg})
        may  == {d \in DOMAIN w.dir : ~w.dir[d].rem /\ w.dir[d].e \in Live(w)} IN
    If(must # {} /\ ({"is", "get"} \ {D[i].k : i \in 1..Len(D)}) # {}, "direct") \cup
    UNION {LET g == D[i]
               toks == {x[1] : x \in Rng(g.a)} IN
           If(Rng(g.x) \cap may # {} /\ g.k \in {"is", "get", "kill"}, "direct") \cup
           (CASE g.k = "get" ->
                   If(~(must \subseteq toks) \/ ~(toks \subseteq may), "direct") \cup
                   If(\E x \in Rng(g.a) : x[1] \in may /\ x[2] # w.dir[x[1]].e, "direct") \cup
                   If(\E x \in Rng(g.a) : x[1] \in may /\ x[2] = w.dir[x[1]].e /\ x[3] # RowOf(w, x[2]), "value")
              [] g.k = "is"  -> If(~(must \subseteq toks) \/ ~(toks \subseteq may), "direct")
              [] g.k = "kill" -> If(g.a # <<>>, "direct")
              [] OTHER -> If(g.a # <<>>, "forged"))
           : i \in 1..Len(D)}
Hints(h, n) == \* size_hint at every position of an iterator over n items, then its end
    Len(h) = 2 * n + 3 /\ h[2 * n + 3] = 1 /\ \A i \in 0..n : h[2 * i + 1] = n - i /\ h[2 * i + 2] = n - i
RECURSIVE CatSeq(_)
CatSeq(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o CatSeq(Tail(s))
EventClauses(w, o) ==
    IF ~Shape.events THEN {} ELSE
    LET bad(x, y) == \E a \in 1..NA : Len(x[a]) # Len(y[a]) \/ Rng(x[a]) # Rng(y[a])
        c == CatSeq(w.ec)
        d == CatSeq(w.ed) IN
    If(bad(o.V.C, w.ec) \/ bad(o.V.D, w.ed), "events") \cup
    If(Len(o.V.wc) # Len(c) \/ Rng(o.V.wc) # Rng(c) \/ Len(o.V.wd) # Len(d) \/ Rng(o.V.wd) # Rng(d), "events") \cup
    If(~Hints(o.V.hc, Len(c)) \/ ~Hints(o.V.hd, Len(d)), "hint")

\* several direct handles handed out at once: N = sequence of <<handle, direct handle>>
IssueAll(w, N) ==
    LET good == {i \in 1..Len(N) : N[i][1] \in DOMAIN w.live}
        ds   == {N[i][2] : i \in good}
        of(d) == N[CHOOSE i \in good : N[i][2] = d][1]
        ent  == [d \in ds |-> of(d)]
        new  == [d \in ds |-> [e |-> ent[d], a |-> w.live[ent[d]].a, rem |-> FALSE, chg |-> FALSE]] IN
    <<[w EXCEPT !.dir = new @@ @],
      If(\E i \in 1..Len(N) : BadIssue(w, N[i][2], N[i][1]) \/ (i \in good /\ ent[N[i][2]] # N[i][1]), "direct")>>

\* between the operations of a burst only lengths and capacities are asked for
ObserveTerse(w, o) ==
    <<[w EXCEPT !.cap = [a \in 1..NA |-> o.A[a].c]], UNION {RowClauses(w, a, o.A[a]) : a \in 1..NA}>>
Observe(w, o, light) ==
    IF o.terse THEN ObserveTerse(w, o) ELSE
    LET is == IssueAll(w, o.N)
        w2 == [is[1] EXCEPT !.cap = [a \in 1..NA |-> o.A[a].c]] IN
    <<w2, is[2] \cup UNION {RowClauses(w, a, o.A[a]) : a \in 1..NA}
                \cup UNION {QueryClauses(w, o.Q[i]) : i \in 1..Len(o.Q)}
                \cup LookupClauses(w2, o.L) \cup DirectClauses(is[1], o.D, o.N, light) \cup EventClauses(w, o)>>

-----------------------------------------------------------------------------
(* Operations. Each gives <<world after, broken clauses, tracked values that it must have dropped>>;
   e: the event, w: the world it was applied to, caps: observed capacities afterwards *)
Create(w, e, obsCap) ==
    LET a    == e.a
        full == Cardinality(LiveIn(w, a)) >= w.cap[a] IN
    CASE e.res = "ok" ->
           <<IF e.tok \in Live(w) THEN w ELSE DoCreate(w, a, e.tok, e.row),
             If(e.inj, "panic") \cup If(e.aid # a, "ids") \cup
             If(e.tok \in w.issued /\ ~(Shape.wrap /\ Spent(w, a)), "reissue") \cup
             If(e.tok \in Live(w), "lookup") \cup
             If(e.within /\ (full \/ obsCap[a] # w.cap[a]), "cap"), <<>>>>
      [] e.res = "full" ->
           <<w, If(~e.within \/ ~full \/ obsCap[a] # w.cap[a], "cap") \cup If(e.ret # e.row, "value"),
             IF e.ret = e.row THEN <<>> ELSE Tracked(e.row)>>
      [] OTHER -> <<w, If(~e.inj, "panic"), Tracked(e.row)>>

Destroy(w, e) ==
    IF e.tok \in Live(w) THEN
        LET a == ArchOf(w, e.tok)
            row == RowOf(w, e.tok)
            given == e.via \notin {"wa", "wda"} IN
        CASE e.res = "some" -> <<DoRemove(w, e.tok), If(~given \/ e.inj, "destroy") \cup If(e.ret # row, "value"), <<>>>>
          [] e.res = "unit" -> <<DoRemove(w, e.tok), If(given \/ e.inj, "destroy"), Tracked(row)>>
          [] e.res = "none" -> <<w, {"lookup"}, <<>>>>
          [] OTHER -> IF e.inj THEN <<DoRemove(w, e.tok), If(given, "destroy"), Tracked(row)>>
                      ELSE <<w, If(~Spent(w, a) \/ Shape.wrap, "panic"), <<>>>>
    ELSE <<w, If(e.res \in {"some", "unit"}, "lookup") \cup
              If(e.res \in {"some", "unit"} /\ e.tok \notin w.issued, "forged") \cup
              If(e.res = "panic" /\ e.tok \in w.issued, "lookup"), <<>>>>

Write(w, e) ==
    IF e.tok \in Live(w) THEN
        IF e.res = "ok" THEN <<DoWrite(w, e.tok, e.col, e.new), {}, Tracked(<<RowOf(w, e.tok)[e.col]>>)>>
        ELSE <<w, {"lookup"}, IF e.res = "none" THEN Tracked(<<e.new>>) ELSE <<>>>>
    ELSE <<w, If(e.res = "ok", "lookup") \cup If(e.res = "panic" /\ e.tok \in w.issued, "lookup"), <<>>>>

\* entity, columns and direct handle shown by one closure call
VisitClauses(w, q, v, cat) ==
    IF v[1] \notin Live(w) THEN {cat, "lookup"}
    ELSE LET a == ArchOf(w, v[1]) IN
         IF a \notin QMatches[q] THEN {"query"}
         ELSE If(QRow(q, a, RowOf(w, v[1])) # v[4], "value") \cup If(BadIssue(w, v[2], v[1]), "direct")
Matching(w, q) == {t \in DOMAIN w.live : w.live[t].a \in QMatches[q]}

Iter(w, e) ==
    LET toks == [i \in 1..Len(e.vis) |-> e.vis[i][1]]
        all  == Matching(w, e.q)
        n    == Cardinality(all)
        want == IF e.pk # 0 /\ e.pk <= n /\ (e.stop = 0 \/ e.pk <= e.stop) THEN e.pk
                ELSE IF e.stop # 0 /\ e.stop <= n THEN e.stop ELSE n
        boom == e.pk # 0 /\ want = e.pk /\ e.pk <= n
        good == {i \in 1..Len(e.vis) : toks[i] \in Live(w)}
        N    == [i \in 1..Len(e.vis) |-> <<toks[i], e.vis[i][2]>>]
        r    == IssueAll(w, N) IN
    <<r[1], r[2] \cup UNION {VisitClauses(w, e.q, e.vis[i], "iter") : i \in 1..Len(e.vis)} \cup
         If(~NoDup(toks) \/ Len(toks) # want \/ ~(Rng(toks) \subseteq all), "iter") \cup
         If((e.res = "panic") # boom, "panic"), <<>>>>

Find(w, e) ==
    LET ok == e.tok \in Matching(w, e.q)
        N  == [i \in 1..Len(e.vis) |-> <<e.vis[i][1], e.vis[i][2]>>] 
        r  == IssueAll(w, N) IN
    IF ok THEN
        <<r[1], r[2] \cup If(e.res = "none", "lookup") \cup If(e.res # IF e.inj THEN "panic" ELSE "ok", "find") \cup
            If(Len(e.vis) # 1, "find") \cup If(\E i \in 1..Len(e.vis) : e.vis[i][1] # e.tok, "lookup") \cup
            UNION {VisitClauses(w, e.q, e.vis[i], "find") : i \in 1..Len(e.vis)}, <<>>>>
    ELSE <<w, If(e.vis # <<>> \/ e.res = "ok", IF e.tok \in Live(w) THEN "query" ELSE "lookup") \cup
              If(e.res = "panic" /\ e.tok \in w.issued, "find") \cup If(e.res = "bad", "find"), <<>>>>

\* one closure call of ecs_iter_destroy after the other
RECURSIVE Sweep(_, _, _)
Sweep(w, e, i) ==
    IF i > Len(e.vis) THEN <<w, {}, <<>>>> ELSE
    LET v   == e.vis[i]
        bad == VisitClauses(w, e.q, v, "idestroy")
        w2  == IF v[1] \in Live(w) THEN DoIssue(w, v[2], v[1]) ELSE w
        lst == i = Len(e.vis)
        \* a counter overflow: the last decision was not carried out
        over == lst /\ e.res = "panic" /\ ~e.inj /\ v[3] \in {"D", "E"}
        hit == v[1] \in Live(w) /\ v[3] \in {"D", "E"} /\ ~over
        row == IF hit THEN Tracked(RowOf(w, v[1])) ELSE <<>>
        r   == Sweep(IF hit THEN DoRemove(w2, v[1]) ELSE w2, e, i + 1) IN
    <<r[1], bad \cup r[2] \cup If(over /\ v[1] \in Live(w) /\ (~Spent(w, ArchOf(w, v[1])) \/ Shape.wrap), "panic")
                \cup If(v[3] \in {"B", "E", "P"} /\ ~lst, "idestroy"), row \o r[3]>>
IterDestroy(w, e) ==
    LET toks == [i \in 1..Len(e.vis) |-> e.vis[i][1]]
        all  == Matching(w, e.q)
        n    == Len(toks)
        lst  == IF n = 0 THEN "C" ELSE e.vis[n][3]
        cut  == lst \in {"B", "E", "P"} \/ (e.res = "panic" /\ lst \in {"D", "E"})
        r    == Sweep(w, e, 1) IN
    <<r[1], r[2] \cup If(~NoDup(toks) \/ ~(Rng(toks) \subseteq all) \/ (~cut /\ Rng(toks) # all), "idestroy")
            \cup If(e.inj /\ ~(lst \in {"D", "E"}), "idestroy")
            \cup If((e.res = "panic") /\ lst \notin {"P", "D", "E"}, "panic")
            \cup If((e.res # "panic") /\ (lst = "P" \/ e.inj), "panic"), r[3]>>

\* clone: e.clones = <<old, new>> for every component cloned
Clone(w, e) ==
    LET olds == [i \in 1..Len(e.clones) |-> e.clones[i][1]]
        news == [i \in 1..Len(e.clones) |-> e.clones[i][2]]
        map(v) == IF v <= 0 THEN v ELSE
                  LET S == {i \in 1..Len(olds) : olds[i] = v} IN IF S = {} THEN -900050 ELSE news[CHOOSE i \in S : TRUE]
        w2   == [w EXCEPT !.live = [t \in DOMAIN w.live |-> [a |-> w.live[t].a,
                                     r |-> [i \in 1..Len(w.live[t].r) |-> map(w.live[t].r[i])]]]] IN
    IF e.res = "ok" THEN <<w2, If(e.inj, "panic") \cup If(~SameBag(olds, AllValues(w)), "clone"), <<>>>>
    ELSE <<w, If(~e.inj, "panic") \cup
              If(~(Rng(olds) \subseteq Rng(AllValues(w))) \/ Zeros(olds) > Zeros(AllValues(w)), "clone"), news>>

Clear(w, e) == [w EXCEPT !.ec = [a \in 1..NA |-> IF e.a \in {0, a} THEN <<>> ELSE @[a]],
                         !.ed = [a \in 1..NA |-> IF e.a \in {0, a} THEN <<>> ELSE @[a]]]

\* e.left removals fit into archetype e.a from now on (many create/destroy cycles have gone by)
FastForward(w, e) ==
    LET w2 == [w EXCEPT !.room[e.a] = e.left, !.dir = Changed(@, e.a, TRUE)] IN
    IF e.cleared THEN Clear(w2, e) ELSE w2

\* handles made up from bits
Forge(w, e) ==
    UNION {LET x == e.acc[i] IN
           If(x[1] \notin Live(w), "forged") \cup
           (IF x[1] \in Live(w) THEN If(x[2] \notin {0, x[1]}, "forged") \cup
                                     If(x[3] # <<>> /\ x[3] # RowOf(w, x[1]), "value") ELSE {})
           : i \in 1..Len(e.acc)} \cup If(e.strict # <<>>, "forged")

Nest(w, e) ==
    LET conflict == Shape.q[e.q].mut /\ Matching(w, e.q) # {} IN If((e.res = "panic") # conflict, "borrow")

-----------------------------------------------------------------------------
(* One event. S: world number -> world *)
ObsOf(e, w)  == LET i == CHOOSE i \in 1..Len(e.O) : e.O[i].w = w IN e.O[i]
CapsOf(e, w) == [a \in 1..NA |-> ObsOf(e, w).A[a].c]
Seen(e)      == {e.O[i].w : i \in 1..Len(e.O)}

\* <<new S, clauses, drops>> before observation
Step(S, e) ==
    CASE e.op = "new" -> \* a new world may take the place of another, which is dropped
           IF e.res = "ok"
           THEN LET c == [a \in 1..NA |-> e.caps[a]] IN
                <<(e.w :> NewWorld(c)) @@ S, {}, IF e.w \in DOMAIN S THEN AllValues(S[e.w]) ELSE <<>>>>
           ELSE <<S, {"panic"}, <<>>>>
      [] e.op = "create"  -> LET r == Create(S[e.w], e, CapsOf(e, e.w)) IN <<[S EXCEPT ![e.w] = r[1]], r[2], r[3]>>
      [] e.op = "destroy" -> LET r == Destroy(S[e.w], e) IN <<[S EXCEPT ![e.w] = r[1]], r[2], r[3]>>
      [] e.op = "write"   -> LET r == Write(S[e.w], e) IN <<[S EXCEPT ![e.w] = r[1]], r[2], r[3]>>
      [] e.op = "iter"    -> LET r == Iter(S[e.w], e) IN <<[S EXCEPT ![e.w] = r[1]], r[2], r[3]>>
      [] e.op = "find"    -> LET r == Find(S[e.w], e) IN <<[S EXCEPT ![e.w] = r[1]], r[2], r[3]>>
      [] e.op = "idestroy" -> LET r == IterDestroy(S[e.w], e) IN <<[S EXCEPT ![e.w] = r[1]], r[2], r[3]>>
      \* a clone may take the place of a world (clone_from), which is dropped
      [] e.op = "clone"   -> LET r == Clone(S[e.w], e) IN
                             <<IF e.res = "ok" THEN (e.to :> r[1]) @@ S ELSE S, r[2],
                               IF e.res = "ok" /\ e.to \in DOMAIN S THEN AllValues(S[e.to]) ELSE r[3]>>
      [] e.op = "dropw"   -> <<Drop1(S, e.w), If((e.res = "panic") # e.inj, "panic"), AllValues(S[e.w])>>
      [] e.op = "clear"   -> <<[S EXCEPT ![e.w] = Clear(@, e)], If(e.res = "panic", "panic"), <<>>>>
      [] e.op = "ff"      -> <<[S EXCEPT ![e.w] = FastForward(@, e)], {}, <<>>>>
      [] e.op = "forge"   -> <<S, Forge(S[e.w], e), <<>>>>
      [] e.op = "nest"    -> <<S, Nest(S[e.w], e), <<>>>>

\* an operation never changes the capacity of another world
CapClause(S, e) == If(\E w \in (Seen(e) \cap DOMAIN S) \ ({e.w} \cup If(e.op = "clone", e.to)) : CapsOf(e, w) # S[w].cap, "cap")

Judge(S, e, light) ==
    LET st == Step(S, e)
        T  == st[1]
        ws == DOMAIN T
        ob == [w \in ws |-> IF w \in Seen(e) THEN Observe(T[w], ObsOf(e, w), light) ELSE <<T[w], {"world"}>>] IN
    [S |-> [w \in ws |-> ob[w][1]],
     v |-> st[2] \cup UNION {ob[w][2] : w \in ws} \cup CapClause(S, e)
           \cup If(Seen(e) # ws, "world")
           \cup If(e.op = "clone" /\ e.res = "ok" /\ e.w \in ws /\ e.to \in Seen(e) /\ CapsOf(e, e.to) # S[e.w].cap, "cap")
           \cup (IF SameBag(e.drop, st[3]) THEN {} ELSE {"drop"})
           \cup If(e.od # <<>>, "drop")]
=============================================================================
