------------------------------ MODULE LoansGen ------------------------------
(* Lists the programs of Loans with what must become of them. *)
EXTENDS Loans

Form(f, l, x) == LET v == Expect(f, l, x) IN v = "any" \/ PrintT(<<"PROG", <<f, l, x, v>>>>)
Cmp == Plain \cup InQuery

\* the twins are sound by construction; the model has to agree
TwinsSound == /\ \A l \in Cmp, x \in Ops : ~Unsound(OpTwin(l, x))
              /\ \A l \in Plain, m \in Plain : ~Unsound(TwoTwin(l, m))
\* every reference is ended by every structural change of its archetype and by the end of the world
Ended == \A l \in Cmp, x \in {y \in Ops : Struct("Aa") \subseteq Op(y)} : Unsound(OpProg(l, x))
\* nothing that happens to the other archetype ends a reference into this one
Apart == \A l \in Cmp, x \in {"create_b", "destroy_b", "iter_mut_b"} : ~Unsound(OpProg(l, x))
\* an exclusive reference and any other to the same column never coexist, unless both are checked at run time
Exclusive == \A l, m \in Cmp : (\E a \in Loan(l), b \in Loan(m) : a[1] = b[1] /\ a[2] = "w" /\ ~(a[3] /\ b[3])) =>
                (Unsound(TwoProg(l, m)) /\ (Unsound(MixProg(l, m))))

ASSUME Assert(TwinsSound, "twins") /\ Assert(Ended, "ended") /\ Assert(Apart, "apart") /\ Assert(Exclusive, "exclusive")
ASSUME /\ \A l \in Plain, x \in Ops, f \in {"across", "twin", "other"} : Form(f, l, x)
       /\ \A l \in Plain, m \in Plain, f \in {"two", "mix", "twotwin", "twoother"} : Form(f, l, m)
       /\ \A l \in InQuery, x \in Ops \ Final, f \in {"inside", "insideother", "escape", "escapetwin"} : Form(f, l, x)
       /\ \A l \in InQuery, m \in Plain, f \in {"insidetwo", "insidetwoother"} : Form(f, l, m)
       /\ \A l \in Cmp, f \in {"static", "statictwin"} : Form(f, l, "")
       /\ \A l \in EntityRefs, f \in {"write", "writetwin"} : Form(f, l, "")
VARIABLE i
Init == i = 0
Next == UNCHANGED i
=============================================================================
