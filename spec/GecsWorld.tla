----------------------------- MODULE GecsWorld -----------------------------
(* Worlds built from the storage algorithm of GecsStore, with the operations and observers of the crate.
   Every operation gives an event record as the harness records it from the real crate, and GecsAbs judges
   it: the invariant says that the algorithm refines the property-level specification, for every behaviour
   within the bounds. With Edges, every transition between two structurally different states is printed;
   lib/model.py turns them into plans that take the real crate through each of them.

   The world is the part of shape_main with archetypes 1 (X) and 2 (X, Y) and the queries over them. *)
EXTENDS GecsStore, SequencesExt
CONSTANTS Worlds,    \* world numbers
          Arches,    \* archetypes in which entities are created
          Caps,      \* initial capacities
          MaxEnt,    \* entities per archetype
          MaxRem,    \* bound on the generation of a storage that removals may bring about
          Ops, Queries, Events, Edges
VARIABLES W, S, known, dknown, nid, ff, bad
vars == <<W, S, known, dknown, nid, ff, bad>>
Abs == INSTANCE GecsAbs

Cols == <<<<"X">>, <<"X", "Y">>>>
TheShape == [arch |-> Cols, wrap |-> Wrapping, events |-> Events, debug |-> Debug,
             q |-> [all |-> [need |-> <<>>, one |-> <<>>, only |-> 0, mut |-> FALSE],
                    x   |-> [need |-> <<"X">>, one |-> <<>>, only |-> 0, mut |-> TRUE],
                    y   |-> [need |-> <<"Y">>, one |-> <<>>, only |-> 0, mut |-> FALSE],
                    xy  |-> [need |-> <<"X", "Y">>, one |-> <<>>, only |-> 2, mut |-> TRUE]]]
NArch == 2
If(c, s) == IF c THEN {s} ELSE {}
Rng(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Matches(q) == Abs!QMatches[q]
Bind(q, a, row) == LET r == Abs!QRow(q, a, row) IN
    IF Flaw = "query_any_column" /\ Len(r) = 1 THEN <<<<r[1][1], row[1]>>>> ELSE r
Toks(st) == Rng(st.ents)
LiveToks(w) == UNION {Toks(W[w][a]) : a \in 1..NArch}

-----------------------------------------------------------------------------
(* What the observers say *)
\* known handles and direct handles that are looked up, kn and dk
Observe(w, ss, kn, dk) ==
    LET now   == UNION {{<<ss[a].ents[n], DirectOf(ss[a], a, n)>> : n \in 1..Size(ss[a])} : a \in 1..NArch}
        ds    == dk \cup {x[2] : x \in now}
        at(t) == Find(ss[t[1]], t[1], t)
        dat(d) == FindDirect(ss[d[1]], d[1], d)
        red(d) == Redirect(ss[d[1]], d[1], d)
        row(a, n) == ss[a].rows[n]
        hit   == {t \in kn : at(t) > 0}
        boom  == {t \in kn : at(t) < 0}
        dhit  == {d \in ds : dat(d) > 0}
        dboom == {d \in ds : dat(d) < 0}
        rhit  == {d \in ds : red(d) # <<>>}
        rget  == {d \in rhit : dat(red(d)) > 0}
        gotr  == {<<ss[d[1]].ents[dat(red(d))], red(d)>> : d \in rget}
        wrong == {t \in kn : \E a \in 1..NArch : a # t[1] /\ Find(ss[a], a, IF Flaw = "forced_destroy" THEN <<a, t[2], t[3]>> ELSE t) > 0}
        group(k, good, bads) == [k |-> k, p |-> "", a |-> SetToSeq(good), x |-> SetToSeq(bads)]
        ev    == [C |-> [a \in 1..NArch |-> ss[a].ec], D |-> [a \in 1..NArch |-> ss[a].ed],
                  wc |-> Flat([a \in 1..NArch |-> ss[a].ec]), wd |-> Flat([a \in 1..NArch |-> ss[a].ed])]
        hint(n) == [i \in 1..2 * n + 3 |-> IF i = 2 * n + 3 THEN 1 ELSE n - (i - 1) \div 2] IN
    [w |-> w, terse |-> FALSE,
     A |-> [a \in 1..NArch |-> [l |-> Size(ss[a]), c |-> ss[a].cap, e |-> Size(ss[a]) = 0,
            R |-> <<[k |-> "row", p |-> "", a |-> [n \in 1..Size(ss[a]) |-> <<ss[a].ents[n], row(a, n)>>], x |-> <<>>]>>]],
     Q |-> SetToSeq({[n |-> q, m |-> "iter", x |-> 0,
            r |-> Flat([a \in 1..NArch |-> IF a \in Matches(q) THEN [n \in 1..Size(ss[a]) |-> <<ss[a].ents[n], Bind(q, a, row(a, n))>>] ELSE <<>>])]
            : q \in DOMAIN TheShape.q}),
     L |-> <<group("is", {<<t, 0, <<>>>> : t \in hit}, boom),
             group("get", {<<t, ss[t[1]].ents[at(t)], row(t[1], at(t))>> : t \in hit}, boom)>>
           \o IF wrong = {} THEN <<>> ELSE <<group("forced", {<<t, 0, <<>>>> : t \in wrong}, {})>>,
     D |-> <<group("is", {<<d, 0, <<>>>> : d \in dhit}, dboom),
             group("get", {<<d, ss[d[1]].ents[dat(d)], row(d[1], dat(d))>> : d \in dhit}, dboom),
             group("is", {<<d, 0, <<>>>> : d \in rhit}, dboom \ rhit),
             group("get", {<<d, ss[d[1]].ents[dat(red(d))], row(d[1], dat(red(d)))>> : d \in rget}, dboom \ rhit)>>,
     N |-> SetToSeq(now \cup gotr),
     V |-> ev @@ [hc |-> hint(Len(ev.wc)), hd |-> hint(Len(ev.wd))]]
AllDirects(ss) == UNION {{DirectOf(ss[a], a, n) : n \in 1..Size(ss[a])} : a \in 1..NArch}

-----------------------------------------------------------------------------
(* Structure of a state: what can matter for its future, without the values *)
Bare(st) == <<st.ver, st.cap, st.head, [i \in 1..st.cap |-> <<st.slots[i].f, st.slots[i].i, st.slots[i].v>>], st.ents, Len(st.ec), Len(st.ed)>>
Structure(WW, fff) == <<[i \in 1..3 |-> IF i - 1 \in DOMAIN WW THEN [a \in 1..NArch |-> Bare(WW[i - 1][a])] ELSE <<>>], fff>>
\* for the proof also: which handles and direct handles exist and whom they stand for
AbsPart == [w \in DOMAIN S |-> [live |-> DOMAIN S[w].live, room |-> S[w].room, issued |-> S[w].issued, dir |-> S[w].dir]]
LeanView == Structure(W, ff)
FullView == <<Structure(W, ff), AbsPart, known, dknown, bad>>

T(t) == "#" \o ToString(t[1]) \o "." \o ToString(t[2]) \o "." \o ToString(t[3])
Bit(b) == IF b THEN "1" ELSE "0"
Opt(k) == IF k < 0 THEN "-" ELSE ToString(k)

\* x, evaluated through and through: TLC cannot write functions to disk that it has not evaluated yet
Force(x) == LET y == TLCEval(x) IN IF ToString(y) = "" THEN y ELSE y

\* The operation with record e (what it did and returned) leads to worlds W2
Do(e, W2, kn, label) ==
    LET dk == dknown \cup UNION {AllDirects(W2[w]) : w \in DOMAIN W2} \cup IF "vis" \in DOMAIN e THEN {v[2] : v \in Rng(e.vis)} ELSE {}
        ev == e @@ [od |-> <<>>, O |-> SetToSeq({Observe(w, W2[w], kn, dk) : w \in DOMAIN W2})]
        j  == Abs!Judge(S, ev, FALSE) IN
    /\ W' = Force(W2) /\ S' = Force(j.S) /\ known' = Force(kn) /\ dknown' = Force(dk)
    /\ bad' = TLCEval(j.v \cup If(\E w \in DOMAIN W2, a \in 1..NArch : Flaw = "" /\ ~Consistent(W2[w][a]), "inconsistent"))
    /\ IF Edges THEN PrintT("EDGE " \o ToString(LeanView) \o " => " \o ToString(Structure(W2, ff')) \o " : " \o label) ELSE TRUE

NewRow(a) == [i \in 1..Len(Cols[a]) |-> nid + i - 1]
New(w) ==
    \E c \in [Arches -> Caps] :
        LET cs == [a \in 1..NArch |-> IF a \in Arches THEN c[a] ELSE 0] IN
        /\ UNCHANGED ff /\ nid' = 1
        /\ Do([op |-> "new", w |-> w, caps |-> cs, res |-> "ok", drop |-> <<>>],
              (w :> [a \in 1..NArch |-> NewStore(cs[a])]) @@ W, known,
              "new " \o ToString(w) \o " " \o ToString(cs[1]) \o "," \o ToString(cs[2]) \o ",0,0,0")

Create(w) == \E a \in Arches, within \in BOOLEAN, boom \in BOOLEAN :
    LET st == W[w][a]
        row == NewRow(a)
        r  == IF boom THEN [res |-> "panic", st |-> st, tok |-> 0, ret |-> <<>>] ELSE Push(st, a, row, within, Events) IN
    /\ boom => "boom" \in Ops
    /\ Size(st) < MaxEnt
    /\ r.res # "panic" \/ boom
    /\ nid' = nid + Len(row) /\ UNCHANGED ff
    /\ Do([op |-> "create", w |-> w, a |-> a, within |-> within, inj |-> boom, row |-> row, res |-> r.res, tok |-> r.tok,
           aid |-> IF r.res = "ok" THEN a ELSE 0, ret |-> r.ret,
           drop |-> IF r.res = "panic" \/ (r.res = "full" /\ r.ret = <<>>) THEN row ELSE <<>>],
          [W EXCEPT ![w][a] = r.st], known \cup If(r.res = "ok", r.tok),
          "cr " \o ToString(w) \o " " \o ToString(a) \o " * " \o Bit(within) \o " " \o Bit(boom)
            \o " = " \o (IF r.res = "ok" THEN T(r.tok) ELSE "-"))

\* removal of the entity of a live handle; by direct handle, or by the handle itself
Destroy(w) == \E t \in LiveToks(w), via \in {"we", "wd", "wa", "wda"}, k \in {-1, 0, 1} :
    LET a  == t[1]
        st == W[w][a]
        n  == IF via \in {"wd", "wda"} THEN FindDirect(st, a, DirectOf(st, a, Find(st, a, t))) ELSE Find(st, a, t)
        unit == via \in {"wa", "wda"} IN
    /\ k >= 0 => "boom" \in Ops /\ unit
    /\ st.ver <= MaxRem \/ S[w].room[a] # Abs!INF
    /\ UNCHANGED <<nid, ff>>
    /\ IF n <= 0 THEN
           Do([op |-> "destroy", w |-> w, a |-> a, via |-> via, tok |-> t, inj |-> FALSE, res |-> IF n = 0 THEN "none" ELSE "panic", ret |-> <<>>, drop |-> <<>>],
              W, known, "-")
       ELSE LET r == TakeOut(st, n, Events)
                boom == r.ok /\ k >= 0 /\ k < Len(r.row) IN
           Do([op |-> "destroy", w |-> w, a |-> a, via |-> via, tok |-> t, inj |-> boom,
               res |-> IF ~r.ok \/ boom THEN "panic" ELSE IF unit THEN "unit" ELSE "some",
               ret |-> IF r.ok /\ ~unit THEN r.row ELSE <<>>,
               drop |-> IF r.ok /\ unit /\ Flaw # "destroy_any_keeps" THEN r.row ELSE <<>>],
              [W EXCEPT ![w][a] = r.st], known,
              "de " \o ToString(w) \o " " \o T(t) \o " " \o (IF via = "we" THEN "G" ELSE IF via = "wd" THEN "H" ELSE via) \o " " \o Opt(k))

\* ecs_iter_destroy!: per archetype from the last row to the first; d: decisions, pk: panic at the pk-th
\* visit, k: panic at the k-th drop of a value from now
RECURSIVE SweepA(_, _, _, _, _)
SweepA(x, a, n, q, d) ==
    \* x: [ws: stores, vis, drop, res, inj, k, pk, stop, ver: storage generation at the start of the archetype]
    IF x.stop \/ n = 0 \/ n = -1 THEN x ELSE
    LET st  == x.ws[a]
        nxt == IF Flaw \in {"sweep_forward", "sweep_forward_ok"} THEN (IF n + 1 <= Size(st) THEN n + 1 ELSE 0) ELSE n - 1
        tok == st.ents[n]
        dir == <<a, n, IF Flaw = "sweep_stale" THEN x.ver ELSE st.ver>>
        dec == IF Len(x.vis) + 1 = x.pk THEN "P" ELSE IF tok \in DOMAIN d THEN d[tok] ELSE "C"
        y   == [x EXCEPT !.vis = Append(@, <<tok, dir, dec, Bind(q, a, st.rows[n])>>)] IN
    CASE dec = "C" -> SweepA(y, a, nxt, q, d)
      [] dec = "P" -> [y EXCEPT !.res = "panic", !.stop = TRUE]
      [] dec = "B" -> IF Flaw = "sweep_break_late" THEN y ELSE [y EXCEPT !.stop = TRUE]
      [] OTHER ->
           LET r   == TakeOut(st, n, Events)
               cnt == Len(r.row)
               hit == x.k >= 0 /\ x.k < cnt
               z   == [y EXCEPT !.ws[a] = r.st, !.drop = IF r.ok THEN @ \o r.row ELSE @,
                                !.k = IF @ < 0 THEN @ ELSE IF hit THEN -1 ELSE @ - cnt] IN
           IF ~r.ok THEN [z EXCEPT !.res = "panic", !.stop = TRUE]
           ELSE IF hit THEN [z EXCEPT !.res = "panic", !.inj = TRUE, !.stop = TRUE]
           ELSE IF dec = "E" THEN [z EXCEPT !.stop = TRUE]
           ELSE SweepA(z, a, IF Flaw = "sweep_forward_ok" THEN (IF n <= Size(r.st) THEN n ELSE 0)
                             ELSE IF Flaw = "sweep_forward" THEN (IF n + 1 <= Size(r.st) THEN n + 1 ELSE 0)
                             ELSE IF Flaw = "sweep_skip" THEN (IF n > 1 THEN n - 2 ELSE 0)
                             ELSE nxt, q, d)
RECURSIVE SweepQ(_, _, _, _)
SweepQ(x, a, q, d) ==
    IF a > NArch \/ x.stop THEN x
    ELSE LET n == Size(x.ws[a])
             x2 == [x EXCEPT !.ver = x.ws[a].ver] IN
         SweepQ(IF a \in Matches(q) /\ n > 0 THEN SweepA(x2, a, IF Flaw \in {"sweep_forward", "sweep_forward_ok"} THEN 1 ELSE n, q, d) ELSE x2,
                IF Flaw = "sweep_last_only" /\ n > 0 THEN NArch + 1 ELSE a + 1, q, d)
Decs(d) == Flat([i \in 1..Cardinality(DOMAIN d) |-> LET s == SetToSeq(DOMAIN d) IN <<" " \o T(s[i]) \o ":" \o d[s[i]]>>])
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN "" ELSE Head(s) \o Cat(Tail(s))
IterDestroy(w) == \E q \in Queries :
    LET all == UNION {Toks(W[w][a]) : a \in Matches(q)} IN
    \E d \in [all -> {"C", "D", "B", "E"}], pk \in 0..(IF "boom" \in Ops THEN Cardinality(all) ELSE 0), k \in (IF "boom" \in Ops THEN {-1, 0, 1, 2} ELSE {-1}) :
    LET x == SweepQ([ws |-> W[w], vis |-> <<>>, drop |-> <<>>, res |-> "ok", inj |-> FALSE, k |-> k, pk |-> pk, stop |-> FALSE, ver |-> 0], 1, q, d)
        seen == {v[1] : v \in Rng(x.vis)}
        told == {v[1] : v \in {u \in Rng(x.vis) : u[3] # "P"}} IN
    /\ all # {}
    \* of the decision functions that only differ in entities not visited, only one
    /\ \A t \in all \ told : d[t] = "C"
    /\ pk > 0 => x.res = "panic" /\ ~x.inj /\ Len(x.vis) = pk /\ k < 0
    /\ k >= 0 => x.inj
    /\ \A a \in 1..NArch : x.ws[a].ver <= MaxRem + 1 \/ S[w].room[a] # Abs!INF
    /\ UNCHANGED <<nid, ff>>
    /\ Do([op |-> "idestroy", w |-> w, q |-> q, pk |-> pk, inj |-> x.inj, res |-> x.res, vis |-> x.vis, drop |-> x.drop],
          [W EXCEPT ![w] = x.ws], known,
          "id " \o ToString(w) \o " " \o q \o " C " \o ToString(pk) \o " " \o Opt(k) \o Cat(Decs([t \in seen |-> d[t]])))

\* ecs_iter!, ecs_iter_borrow!
Iter(w) == \E q \in Queries :
    LET rows == Flat([a \in 1..NArch |-> IF a \in Matches(q) THEN
                    [n \in 1..Size(W[w][a]) |-> <<W[w][a].ents[n], DirectOf(W[w][a], a, n), "C", Bind(q, a, W[w][a].rows[n])>>] ELSE <<>>])
        n    == Len(rows) IN
    \E stop \in 0..n, pk \in 0..n :
        LET upto == IF pk # 0 THEN pk ELSE IF stop # 0 THEN stop ELSE n IN
        /\ stop = 0 \/ pk = 0
        /\ UNCHANGED <<nid, ff>>
        /\ Do([op |-> "iter", w |-> w, q |-> q, stop |-> stop, pk |-> pk, res |-> IF pk # 0 THEN "panic" ELSE "ok", vis |-> SubSeq(rows, 1, upto), drop |-> <<>>],
              W, known, "it " \o ToString(w) \o " " \o q \o " * " \o ToString(stop) \o " " \o ToString(pk))

\* ecs_find!, ecs_find_borrow!
FindOp(w) == \E q \in Queries, t \in known, boom \in BOOLEAN :
    LET a  == t[1]
        n  == Find(W[w][a], a, t)
        ok == n > 0 /\ (a \in Matches(q) \/ Flaw = "find_ignores_query")
        bind == IF a \in Matches(q) THEN Bind(q, a, W[w][a].rows[n]) ELSE <<>> IN
    /\ boom => "boom" \in Ops
    /\ UNCHANGED <<nid, ff>>
    /\ Do([op |-> "find", w |-> w, q |-> q, tok |-> t, inj |-> boom,
           res |-> IF n < 0 /\ a \in Matches(q) THEN "panic" ELSE IF ok THEN IF boom THEN "panic" ELSE "ok" ELSE "none",
           vis |-> IF ok THEN <<<<W[w][a].ents[n], DirectOf(W[w][a], a, n), "C", bind>>>> ELSE <<>>, drop |-> <<>>],
          W, known, "fi " \o ToString(w) \o " " \o T(t) \o " " \o q \o " * " \o Bit(boom))

Write(w) == \E t \in known : \E c \in 1..Len(Cols[t[1]]) :
    LET a  == t[1]
        st == W[w][a]
        n  == Find(st, a, t) IN
    /\ nid' = nid + 1 /\ UNCHANGED ff
    /\ Do([op |-> "write", w |-> w, a |-> a, tok |-> t, col |-> c, new |-> nid, res |-> IF n > 0 THEN "ok" ELSE IF n < 0 THEN "panic" ELSE "none",
           drop |-> IF n > 0 THEN <<st.rows[n][c]>> ELSE <<>>],
          IF n > 0 THEN [W EXCEPT ![w][a].rows[n][c] = nid] ELSE W, known,
          "wr " \o ToString(w) \o " " \o T(t) \o " " \o ToString(c - 1) \o " *")

\* world.clone(): archetype by archetype, row by row, column by column; the k-th clone may panic
Clone(w) == \E to \in Worlds \ DOMAIN W, k \in (IF "boom" \in Ops THEN -1..3 ELSE {-1}) :
    LET olds == Flat(Flat([a \in 1..NArch |-> W[w][a].rows]))
        boom == k >= 0
        cnt  == IF boom THEN k ELSE Len(olds)
        cl   == [i \in 1..cnt |-> <<olds[i], nid + i - 1>>]
        off(a) == IF a = 1 THEN 0 ELSE Len(Flat(W[w][1].rows))
        rows(a) == [n \in 1..Size(W[w][a]) |-> [c \in 1..Len(Cols[a]) |-> nid + off(a) + (n - 1) * Len(Cols[a]) + c - 1]] IN
    /\ \A x \in Worlds : x < to => x \in DOMAIN W
    /\ k < Len(olds)
    /\ nid' = nid + cnt /\ UNCHANGED ff
    /\ Do([op |-> "clone", w |-> w, to |-> to, inj |-> boom, res |-> IF boom THEN "panic" ELSE "ok", clones |-> cl,
           drop |-> IF boom /\ Flaw # "clone_leak" THEN [i \in 1..cnt |-> nid + i - 1] ELSE <<>>],
          IF boom THEN W ELSE (to :> [a \in 1..NArch |-> CloneStore(W[w][a], rows(a))]) @@ W, known,
          "cl " \o ToString(w) \o " " \o ToString(to) \o " " \o Opt(k))

DropWorld(w) == \E k \in (IF "boom" \in Ops THEN -1..2 ELSE {-1}) :
    LET all == Flat(Flat([a \in 1..NArch |-> W[w][a].rows])) IN
    /\ k < Len(all) /\ Cardinality(DOMAIN W) > 1
    /\ UNCHANGED <<nid, ff>>
    /\ Do([op |-> "dropw", w |-> w, inj |-> k >= 0, res |-> IF k >= 0 THEN "panic" ELSE "ok",
           drop |-> IF k >= 0 /\ Flaw = "drop_leak" THEN SubSeq(all, 1, k + 1) ELSE all],
          [x \in DOMAIN W \ {w} |-> W[x]], known, "dw " \o ToString(w) \o " " \o Opt(k))

ClearEvents(w) == \E a \in {0} \cup Arches :
    /\ Events /\ UNCHANGED <<nid, ff>>
    /\ Do([op |-> "clear", w |-> w, a |-> a, res |-> "ok", drop |-> <<>>],
          [W EXCEPT ![w] = [b \in 1..NArch |-> IF a \in {0, b} THEN [@[b] EXCEPT !.ec = <<>>, !.ed = IF Flaw = "clear_created_only" THEN @ ELSE <<>>] ELSE @[b]]],
          known, "ce " \o ToString(w) \o " " \o ToString(a))

\* from now on archetype a is `left` removals away from an overflow; once per behaviour
FastForward(w) == \E a \in Arches, left \in 0..2 :
    LET st == W[w][a]
        n  == MaxGen - st.ver - left IN
    /\ ~ff /\ ff' = TRUE /\ UNCHANGED nid
    /\ Size(st) = 0 /\ st.cap > 0 /\ n > 0
    /\ Do([op |-> "ff", w |-> w, a |-> a, left |-> left, cleared |-> FALSE, drop |-> <<>>],
          [W EXCEPT ![w][a] = FastForwardStore(st, n)], known, "ff " \o ToString(w) \o " " \o ToString(a) \o " " \o ToString(left))

Init == /\ Abs!InitTables(TheShape)
        /\ W = <<>> /\ S = Abs!Empty /\ known = {} /\ dknown = {} /\ nid = 1 /\ ff = FALSE /\ bad = {}
Next == /\ bad = {}
        /\ IF DOMAIN W = {} THEN New(0)
           ELSE \E w \in DOMAIN W :
                  \/ "cr" \in Ops /\ Create(w)
                  \/ "de" \in Ops /\ Destroy(w)
                  \/ "id" \in Ops /\ IterDestroy(w)
                  \/ "it" \in Ops /\ Iter(w)
                  \/ "fi" \in Ops /\ FindOp(w)
                  \/ "wr" \in Ops /\ Write(w)
                  \/ "cl" \in Ops /\ Clone(w)
                  \/ "dw" \in Ops /\ DropWorld(w)
                  \/ "ce" \in Ops /\ ClearEvents(w)
                  \/ "ff" \in Ops /\ FastForward(w)
Spec == Init /\ [][Next]_vars
Refines == bad = {}
=============================================================================
