-------------------------------- MODULE Decl --------------------------------
(* The static semantics of an ecs_world! declaration and of the queries against it: which items exist under the
   current configuration, which ids they get, which archetypes a query matches, what each parameter is bound to,
   and which declarations and queries are rejected. Pure operators.

   decl    a sequence of archetypes [name, id, cfg, comps], comps a sequence of [name, id, cfg]; id = -1: none written
   cfg     a sequence of predicates: <<"atom", a>>, <<"not", p>>, <<"all", ps>>, <<"any", ps>>
   query   a sequence of parameters [k, names, mut, cfg], k one of
           comp &C, one &OneOf<..>, ent &Entity<A>, entw &Entity<_>, any &EntityAny,
           dir &EntityDirect<A>, dirw &EntityDirect<_>, dany &EntityDirectAny *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

\* the atoms that are true in the configuration the programs are compiled in
TrueAtoms == {"vt", "vt2", "feature = \"on\"", "unix", "debug_assertions", "true"}

RECURSIVE Eval(_)
Eval(p) == CASE p[1] = "atom" -> p[2] \in TrueAtoms
             [] p[1] = "not"  -> ~Eval(p[2])
             [] p[1] = "all"  -> \A k \in 1..Len(p[2]) : Eval(p[2][k])
             [] p[1] = "any"  -> \E k \in 1..Len(p[2]) : Eval(p[2][k])
On(item) == \A k \in 1..Len(item.cfg) : Eval(item.cfg[k])

Range1(s) == {s[k] : k \in 1..Len(s)}
Plain(item) == [name |-> item.name, id |-> item.id]
\* the declaration as if the disabled items had not been written and the others not been annotated
Reduce(decl) == LET on == SelectSeq(decl, On) IN
    [k \in 1..Len(on) |-> [name |-> on[k].name, id |-> on[k].id,
                           comps |-> LET cs == SelectSeq(on[k].comps, On) IN [j \in 1..Len(cs) |-> Plain(cs[j])]]]
ReduceQ(query) == SelectSeq(query, On)

\* the rule of enum discriminants
RECURSIVE Numbers(_, _)
Numbers(items, k) == IF k = 0 THEN <<>> ELSE
    LET before == Numbers(items, k - 1) IN
    Append(before, IF items[k].id # -1 THEN items[k].id ELSE IF k = 1 THEN 0 ELSE before[k - 1] + 1)
Ids(items) == Numbers(items, Len(items))
IdsOk(items) == LET s == Ids(items) IN
    /\ \A k \in 1..Len(s) : s[k] \in 0..255
    /\ \A j, k \in 1..Len(s) : j # k => s[j] # s[k]

\* r: a reduced declaration
\* max: the number of components an archetype can have, which depends on a crate feature
WorldOk(r, max) == /\ IdsOk(r)
                   /\ \A k \in 1..Len(r) : Len(r[k].comps) <= max
                   /\ \A k \in 1..Len(r) : IdsOk(r[k].comps)
CompsOf(a) == {a.comps[k].name : k \in 1..Len(a.comps)}

Found(p, a) == Range1(p.names) \cap CompsOf(a)
Ambiguous(p, a) == p.k = "one" /\ Cardinality(Found(p, a)) > 1
Binds(p, a) == CASE p.k = "comp" -> p.names[1] \in CompsOf(a)
                 [] p.k = "one"  -> Cardinality(Found(p, a)) = 1
                 [] p.k \in {"ent", "dir"} -> p.names[1] = a.name
                 [] OTHER -> TRUE
Match(q, a) == \A k \in 1..Len(q) : Binds(q[k], a)
Matched(q, r) == {k \in 1..Len(r) : Match(q, r[k])}
QueryOk(q, r) == /\ Matched(q, r) # {}
                 /\ \A k \in 1..Len(q), j \in 1..Len(r) : ~Ambiguous(q[k], r[j])

\* what parameter p is bound to in one closure call on entity n of archetype a with id id
Bound(p, a, id, n) ==
    CASE p.k = "comp" -> <<p.names[1], 0, n>>
      [] p.k = "one"  -> <<CHOOSE c \in Found(p, a) : TRUE, 0, n>>
      [] p.k \in {"ent", "entw"} -> <<"T", id, n>>
      [] p.k = "any"  -> <<"Any", id, n>>
      [] p.k \in {"dir", "dirw"} -> <<"DT", id, n>>
      [] p.k = "dany" -> <<"DAny", id, n>>
Args(q, a, id, n) == [k \in 1..Len(q) |-> Bound(q[k], a, id, n)]
\* the columns of a that the query can write
Writes(q, a) == {Bound(q[k], a, 0, 0)[1] : k \in {j \in 1..Len(q) : q[j].mut}}
=============================================================================
