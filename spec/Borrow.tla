------------------------------- MODULE Borrow -------------------------------
(* Runtime-borrowed access (ecs_find_borrow!, ecs_iter_borrow!, Borrow::component(_mut), borrow_slice(_mut), clone):
   who holds which column of which archetype, and which further access is granted or refused.
   Pure operators, shared by the generator (BorrowGen) and by the judge of recorded runs (BorrowTrace). *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Shape == TLCGet(11)
NA    == Len(Shape.arch)
Rng(s) == {s[i] : i \in 1..Len(s)}
Cols(a) == Rng(Shape.arch[a])
Cell == {<<a, c>> \in (1..NA) \X UNION {Cols(a) : a \in 1..NA} : c \in Cols(a)}

\* q = <<components, OneOf components>>, each a sequence of <<column, mutable>>
OneOf(q, a)   == {p \in Rng(q[2]) : p[1] \in Cols(a)}
Matches(q, a) == /\ \A p \in Rng(q[1]) : p[1] \in Cols(a)
                 /\ q[2] = <<>> \/ Cardinality(OneOf(q, a)) = 1
\* the borrows <<archetype, column, mutable>> of one closure call on an entity of archetype a
Takes(q, a) == {<<a, p[1], p[2]>> : p \in Rng(q[1]) \cup OneOf(q, a)}

Clash(b, c)    == b[1] = c[1] /\ b[2] = c[2] /\ (b[3] \/ c[3])
\* held: the borrows alive, as a set (two equal borrows alive at once can only be shared ones)
Refused(held, want) == \E b \in held, c \in want : Clash(b, c)
\* A snapshot (clone) reads every column
CloneRefused(held)  == \E b \in held : b[3]
=============================================================================
