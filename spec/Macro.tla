-------------------------------- MODULE Macro --------------------------------
(* The faithful model of what the macros do with a declaration and a query: collect the distinct predicates, let the
   compiler evaluate them one by one, number what is enabled, store the numbered world, and bind a query to each
   archetype in turn. Its end state must be what Decl says. Laws: theorems about Decl itself. *)
EXTENDS Decl, FiniteSetsExt
CONSTANTS Profile, Flaw

T == <<"atom", "vt">>
F == <<"atom", "off">>
NoF == <<"not", F>>
Cfgs == CASE Profile = "ids" -> {<<>>, <<F>>}
          [] Profile = "cfg" -> {<<>>, <<T>>, <<F>>, <<NoF, F>>, <<F, NoF>>, <<T, <<"any", <<>>>>>>, <<<<"all", <<T, NoF>>>>, <<"any", <<F, T>>>>>>}
          [] Profile = "nest" -> {<<>>, <<F>>}
          [] OTHER -> {<<>>}
IdsOf == CASE Profile = "ids" -> {-1, 0, 1, 2, 254, 255}
           [] Profile = "nest" -> {-1, 1}
           [] OTHER -> {-1}
CompNames == <<"A", "B", "C">>
ArchNames == <<"X", "Y", "Z", "W">>
Items(names, n) == [1..n -> IdsOf \X Cfgs]
\* component lists in the order of CompNames, any subset
Lists == CASE Profile = "ids" -> {<<>>}
           [] Profile = "nest" -> UNION {{[k \in 1..n |-> [name |-> CompNames[k], id |-> f[k][1], cfg |-> f[k][2]]] : f \in Items(CompNames, n)} : n \in 0..2}
           [] Profile = "cfg" -> UNION {{[k \in 1..n |-> [name |-> CompNames[k], id |-> -1, cfg |-> f[k]]] : f \in [1..n -> Cfgs]} : n \in 0..2}
           [] Profile = "query" -> {SelectSeq([k \in 1..3 |-> [name |-> CompNames[k], id |-> -1, cfg |-> <<>>]], LAMBDA c : c.name \in s) : s \in SUBSET {"A", "B", "C"}}
Archs(k) == {[name |-> ArchNames[k], id |-> i, cfg |-> c, comps |-> l] : i \in IdsOf, c \in Cfgs, l \in Lists}
MaxArch == CASE Profile = "ids" -> 4 [] Profile = "query" -> 2 [] Profile = "nest" -> 2 [] OTHER -> 1
Decls == UNION {{d \in [1..n -> UNION {Archs(k) : k \in 1..n}] : \A k \in 1..n : d[k].name = ArchNames[k]} : n \in 1..MaxArch}
Par(k, names) == {[k |-> k, names |-> names, mut |-> FALSE, cfg |-> c] : c \in {<<>>, <<F>>}}
Params == UNION {Par("comp", <<"A">>), Par("comp", <<"B">>), Par("one", <<"A", "B">>), Par("one", <<"B", "C">>), Par("one", <<"C">>), Par("ent", <<"X">>),
                 Par("dir", <<"Y">>), Par("entw", <<>>), Par("dany", <<>>)}
Queries == IF Profile = "query" THEN UNION {[1..n -> Params] : n \in 0..2} ELSE {<<>>}

VARIABLES decl, query, pc, preds, bools, k, last, ids, data, bound, err
vars == <<decl, query, pc, preds, bools, k, last, ids, data, bound, err>>

Init == /\ decl \in Decls /\ query \in Queries
        /\ pc = "collect" /\ preds = <<>> /\ bools = <<>> /\ k = 1 /\ last = -1 /\ ids = {} /\ data = <<>> /\ bound = <<>> /\ err = ""

Distinct(s) == FoldLeft(LAMBDA acc, x : IF x \in Range1(acc) THEN acc ELSE Append(acc, x), <<>>, s)
Flat(s) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, s)
DeclPreds == Flat([j \in 1..Len(decl) |-> decl[j].cfg \o
                   (IF Flaw = "collect_arch_only" THEN <<>> ELSE Flat([m \in 1..Len(decl[j].comps) |-> decl[j].comps[m].cfg]))])
Ordered(s) == IF Flaw = "no_dedup" THEN s ELSE Distinct(s)
\* the map from the text of a predicate to its value: a later entry replaces an earlier one
Value(p) == bools[Max({j \in 1..Len(preds) : preds[j] = p})]
Known(item) == \A j \in 1..Len(item.cfg) : item.cfg[j] \in Range1(preds)
Enabled(item) == CASE Flaw = "last_cfg" -> item.cfg = <<>> \/ Value(item.cfg[Len(item.cfg)])
                   [] Flaw = "any_cfg" -> item.cfg = <<>> \/ \E j \in 1..Len(item.cfg) : Value(item.cfg[j])
                   [] OTHER -> \A j \in 1..Len(item.cfg) : Value(item.cfg[j])

Collect == /\ pc = "collect"
           /\ preds' = Ordered(DeclPreds) /\ pc' = "chain"
           /\ UNCHANGED <<decl, query, bools, k, last, ids, data, bound, err>>
\* one generated macro for each predicate, defined twice under cfg and not(cfg)
Chain(here, next) ==
    /\ pc = here
    /\ IF Len(bools) < Len(preds)
       THEN bools' = Append(bools, Eval(preds[Len(bools) + 1])) /\ UNCHANGED pc
       ELSE pc' = next /\ UNCHANGED bools
    /\ UNCHANGED <<decl, query, preds, k, last, ids, data, bound, err>>

\* advance_attribute_id: what comes after `prev` for an item, or -2: out of range
Advance(item, prev) == CASE item.id # -1 -> item.id
                         [] Flaw = "next_from_max" /\ prev.ids # {} -> IF Max(prev.ids) = 255 THEN -2 ELSE Max(prev.ids) + 1
                         [] Flaw = "next_from_count" -> Cardinality(prev.ids)
                         [] prev.last # -1 -> IF prev.last = 255 THEN (IF Flaw = "wrap" THEN 0 ELSE -2) ELSE prev.last + 1
                         [] OTHER -> IF Flaw = "start_at_one" THEN 1 ELSE 0
Step(acc, item) ==
    IF acc.err # "" THEN acc ELSE
    IF ~Known(item) THEN [acc EXCEPT !.err = "crash"] ELSE
    IF ~Enabled(item) /\ Flaw # "number_first" THEN acc ELSE
    LET n == Advance(item, acc) IN
    IF n = -2 THEN [acc EXCEPT !.err = "range"] ELSE
    IF n \in acc.ids /\ Flaw # "dup_ok" THEN [acc EXCEPT !.err = "dup"] ELSE
    [acc EXCEPT !.last = n, !.ids = @ \cup {n},
                !.out = IF Enabled(item) THEN Append(@, [name |-> item.name, id |-> n]) ELSE @]
Start == [last |-> -1, ids |-> {}, out |-> <<>>, err |-> ""]
Number ==
    /\ pc = "number"
    /\ IF k > Len(decl) \/ err # ""
       THEN pc' = (IF err = "" THEN "qcollect" ELSE "done") /\ k' = 1 /\ UNCHANGED <<last, ids, data, err>>
       ELSE LET a == decl[k]
                me == Step([last |-> last, ids |-> ids, out |-> <<>>, err |-> ""], a)
                from == IF Flaw = "shared_comp_ids" /\ data # <<>> /\ data[Len(data)].comps # <<>>
                        THEN [Start EXCEPT !.last = data[Len(data)].comps[Len(data[Len(data)].comps)].id] ELSE Start
                cs == FoldLeft(Step, from, a.comps) IN
            /\ k' = k + 1 /\ last' = me.last /\ ids' = me.ids
            /\ IF me.err # "" \/ me.out = <<>>
               THEN err' = me.err /\ UNCHANGED data
               ELSE err' = cs.err /\ data' = Append(data, [name |-> a.name, id |-> me.out[1].id, comps |-> cs.out])
            /\ UNCHANGED pc
    /\ UNCHANGED <<decl, query, preds, bools, bound>>

QCollect == /\ pc = "qcollect"
            /\ preds' = Ordered(Flat([j \in 1..Len(query) |-> query[j].cfg])) /\ bools' = <<>> /\ pc' = "qchain"
            /\ UNCHANGED <<decl, query, k, last, ids, data, bound, err>>
Has(a, c) == \E j \in 1..Len(a.comps) : a.comps[j].name = c
One(a, names) == LET hit == SelectSeq(names, LAMBDA c : Has(a, c)) IN
    CASE Len(hit) = 0 -> "none"
      [] Len(hit) > 1 /\ Flaw # "one_first" -> "ambiguous"
      [] OTHER -> hit[1]
BindOne(p, a) ==   \* "": no match, else what the parameter is bound to
    CASE ~Enabled(p) -> IF Flaw = "disabled_unmatched" THEN "" ELSE "gone"
      [] p.k = "comp" -> IF Has(a, p.names[1]) THEN p.names[1] ELSE ""
      [] p.k = "one"  -> LET o == One(a, p.names) IN IF o = "none" THEN "" ELSE o
      [] p.k \in {"ent", "dir"} -> IF a.name = p.names[1] THEN "T" ELSE ""
      [] OTHER -> "T"
Bind ==
    /\ pc = "bind"
    /\ IF k > Len(data) \/ err # ""
       THEN /\ pc' = "done" /\ err' = IF err = "" /\ bound = <<>> THEN "unmatched" ELSE err
            /\ UNCHANGED <<k, bound>>
       ELSE LET a == data[k]
                b == [j \in 1..Len(query) |-> BindOne(query[j], a)]
                got == SelectSeq(b, LAMBDA x : x # "")
                need == IF Flaw = "match_any" THEN Min({1, Len(query)}) ELSE Len(query) IN
            /\ k' = k + 1
            /\ err' = IF "ambiguous" \in Range1(b) THEN "ambiguous" ELSE ""
            /\ bound' = IF Len(got) >= need THEN Append(bound, <<k, got>>) ELSE bound
            /\ UNCHANGED pc
    /\ UNCHANGED <<decl, query, preds, bools, last, ids, data>>
Next == Collect \/ Chain("chain", "number") \/ Number \/ QCollect \/ Chain("qchain", "bind") \/ Bind
Spec == Init /\ [][Next]_vars

R == Reduce(decl)
Numbered == LET i == Ids(R) IN
    [j \in 1..Len(R) |-> [name |-> R[j].name, id |-> i[j],
                          comps |-> LET c == Ids(R[j].comps) IN [m \in 1..Len(c) |-> [name |-> R[j].comps[m].name, id |-> c[m]]]]]
What(p, a) == LET b == Bound(p, a, 0, 0)[1] IN IF p.k \in {"comp", "one"} THEN b ELSE "T"
Refines ==
    pc = "done" =>
    LET q == ReduceQ(query)
        wok == WorldOk(R, 16) IN
    /\ err # "crash"
    /\ (err \in {"range", "dup"}) = ~wok
    /\ wok => data = Numbered
    /\ wok => (err = "") = QueryOk(q, R)
    /\ err = "" => /\ {b[1] : b \in Range1(bound)} = Matched(q, R)
                   /\ \A b \in Range1(bound) : SelectSeq(b[2], LAMBDA x : x # "gone") = [j \in 1..Len(q) |-> What(q[j], R[b[1]])]
\* the pipeline ends: every state but the end has a step
Ends == pc # "done" => ENABLED Next

Off == [name |-> "Q", id |-> 77, cfg |-> <<T, F>>]
OffA == [name |-> "Q", id |-> 77, cfg |-> <<T, F>>, comps |-> <<[name |-> "A", id |-> -1, cfg |-> <<>>]>>]
OffQ == [k |-> "comp", names |-> <<"Nowhere">>, mut |-> TRUE, cfg |-> <<F>>]
Wild == [k |-> "entw", names |-> <<>>, mut |-> FALSE, cfg |-> <<>>]
Ins(s, j, x) == SubSeq(s, 1, j - 1) \o <<x>> \o SubSeq(s, j, Len(s))
Swap(s, j) == [s EXCEPT ![j] = s[j + 1], ![j + 1] = s[j]]
ClosedIds(s) == \A j \in 1..Len(s) :
    LET e == {m \in 1..j : s[m].id # -1} IN Ids(s)[j] = IF e = {} THEN j - 1 ELSE s[Max(e)].id + (j - Max(e))
NamesAt(q, r) == {r[j].name : j \in Matched(q, r)}
Laws == pc = "collect" =>
    LET q == ReduceQ(query) IN
    /\ ClosedIds(R) /\ \A j \in 1..Len(R) : ClosedIds(R[j].comps)
    \* what is disabled is as if it was not written
    /\ \A j \in 1..(Len(decl) + 1) : Reduce(Ins(decl, j, OffA)) = R
    /\ \A j \in 1..Len(decl), m \in 1..3 : m <= Len(decl[j].comps) + 1 => Reduce([decl EXCEPT ![j].comps = Ins(@, m, Off)]) = R
    /\ \A j \in 1..(Len(query) + 1) : ReduceQ(Ins(query, j, OffQ)) = q
    \* what is enabled is as if it was not annotated, and several attributes are all(..) of them
    /\ Reduce([j \in 1..Len(decl) |-> [decl[j] EXCEPT !.cfg = <<T>> \o @ \o <<NoF>>]]) = R
    /\ Reduce([j \in 1..Len(decl) |-> [decl[j] EXCEPT !.cfg = <<<<"all", @>>>>]]) = R
    /\ Reduce([j \in 1..Len(decl) |-> [decl[j] EXCEPT !.cfg = <<<<"not", <<"any", [m \in 1..Len(@) |-> <<"not", @[m]>>]>>>>>>]]) = R
    \* what is accepted is accepted without its last item
    /\ WorldOk(R, 16) /\ R # <<>> => WorldOk(SubSeq(R, 1, Len(R) - 1), 16)
    \* the order of the parameters, of the names in a OneOf and of the archetypes does not matter
    /\ \A j \in 1..(Len(q) - 1) : Matched(Swap(q, j), R) = Matched(q, R) /\ QueryOk(Swap(q, j), R) = QueryOk(q, R)
    /\ \A j \in 1..(Len(R) - 1) : NamesAt(q, Swap(R, j)) = NamesAt(q, R) /\ QueryOk(q, Swap(R, j)) = QueryOk(q, R)
    /\ LET rev == [j \in 1..Len(q) |-> [q[j] EXCEPT !.names = Reverse(@)]] IN Matched(rev, R) = Matched(q, R) /\ QueryOk(rev, R) = QueryOk(q, R)
    \* a wildcard matches everything; a further parameter only takes away
    /\ Matched(Append(q, Wild), R) = Matched(q, R) /\ QueryOk(Append(q, Wild), R) = QueryOk(q, R)
    /\ \A j \in 1..Len(q) : Matched(q, R) \subseteq Matched(SubSeq(q, 1, j - 1), R)
    /\ \A j \in 1..Len(q) : q[j].k = "comp" => LET o == [q EXCEPT ![j].k = "one"] IN Matched(o, R) = Matched(q, R) /\ QueryOk(o, R) = QueryOk(q, R)
    \* components alone: the archetypes that have all of them
    /\ (\A j \in 1..Len(q) : q[j].k = "comp") => Matched(q, R) = {j \in 1..Len(R) : {q[m].names[1] : m \in 1..Len(q)} \subseteq CompsOf(R[j])}
    \* a single OneOf that is nowhere ambiguous: the union over its names
    /\ (Len(q) = 1 /\ q[1].k = "one" /\ \A j \in 1..Len(R) : ~Ambiguous(q[1], R[j])) =>
           Matched(q, R) = UNION {Matched(<<[q[1] EXCEPT !.k = "comp", !.names = <<n>>]>>, R) : n \in Range1(q[1].names)}
    \* an accepted query binds every parameter to one thing
    /\ QueryOk(q, R) => \A j \in Matched(q, R), m \in 1..Len(q) : q[m].k = "one" => Cardinality(Found(q[m], R[j])) = 1
=============================================================================
