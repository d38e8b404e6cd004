----------------------------- MODULE BorrowGen -----------------------------
(* Enumerates scripts of nested runtime borrows: for every reachable borrow state up to Depth operations, a
   shortest script that leads to it. The harness tries every possible access in each of these states. *)
EXTENDS Borrow
CONSTANTS Depth, MaxG, MaxF, Gen,
          Empty,    \* the archetypes without entities
          Inside    \* whether scripts go on inside the clone of a component

VARIABLES guards, frames, hist
vars == <<guards, frames, hist>>

Sh == [arch |-> <<<<"X", "Y">>, <<"X">>, <<"Y", "Z", "X">>, <<"W">>>>,
       q |-> << << <<>>, <<>> >>, << << <<"X", FALSE>> >>, <<>> >>, << << <<"X", TRUE>> >>, <<>> >>, << << <<"Y", FALSE>> >>, <<>> >>,
                << << <<"Y", TRUE>> >>, <<>> >>, << << <<"X", FALSE>>, <<"Y", TRUE>> >>, <<>> >>, << << <<"Y", FALSE>>, <<"X", TRUE>> >>, <<>> >>,
                << << <<"X", TRUE>>, <<"Y", TRUE>> >>, <<>> >>, << <<>>, << <<"Z", TRUE>>, <<"W", TRUE>> >> >>,
                << <<>>, << <<"Z", FALSE>>, <<"W", FALSE>> >> >> >>]

None == <<0, "-", FALSE>>
Held == {guards[i] : i \in {i \in 1..MaxG : guards[i] # None}} \cup UNION {frames[i].take : i \in 1..Len(frames)}
M(m) == IF m THEN "m" ELSE "r"
Say(s) == /\ Len(hist) < Depth
          /\ hist' = Append(hist, s)

Init == TLCSet(11, Sh) /\ guards = [i \in 1..MaxG |-> None] /\ frames = <<>> /\ hist = <<>>

Free == CHOOSE i \in 1..MaxG : guards[i] = None /\ \A j \in 1..(i - 1) : guards[j] # None
Acquire == \E cell \in Cell, m \in BOOLEAN, via \in {"s", "c"} :
    /\ \E i \in 1..MaxG : guards[i] = None
    /\ via = "c" => cell[1] \notin Empty
    /\ Say(via \o " " \o ToString(cell[1]) \o " " \o cell[2] \o " " \o M(m) \o " " \o ToString(Free))
    /\ guards' = IF Refused(Held, {<<cell[1], cell[2], m>>}) THEN guards
                 ELSE [guards EXCEPT ![Free] = <<cell[1], cell[2], m>>]
    /\ UNCHANGED frames
Release == \E i \in 1..MaxG : guards[i] # None /\ Say("r " \o ToString(i)) /\ guards' = [guards EXCEPT ![i] = None] /\ UNCHANGED frames

Enter == \E a \in 1..NA, n \in 1..Len(Sh.q), kind \in {"f", "i"} :
    LET q == Sh.q[n]
        ms == {b \in 1..NA : Matches(q, b)}
        ok == a \in ms \ Empty /\ IF kind = "f" THEN ~Refused(Held, Takes(q, a))
                          ELSE \A b \in ms \ Empty : ~Refused(Held, Takes(q, b))
        s == kind \o " " \o ToString(a) \o " " \o ToString(n - 1) IN
    /\ UNCHANGED guards
    /\ kind = "f" => a \notin Empty
    /\ IF ok /\ Len(frames) < MaxF
       THEN Say(s) /\ frames' = Append(frames, [kind |-> kind, take |-> Takes(q, a)])
       ELSE Say(s \o ";x") /\ UNCHANGED frames
\* A clone of the world, the script going on in the clone of a component. What the clone holds then beside that component's
\* column is its own affair; here, the archetype.
EnterClone == \E cell \in Cell :
    /\ Inside /\ cell[1] \notin Empty
    /\ UNCHANGED guards
    /\ LET s == "K " \o ToString(cell[1]) \o " " \o cell[2] IN
       IF ~CloneRefused(Held) /\ Len(frames) < MaxF
       THEN Say(s) /\ frames' = Append(frames, [kind |-> "c", take |-> {<<cell[1], c, FALSE>> : c \in Cols(cell[1])}])
       ELSE Say(s \o ";x") /\ UNCHANGED frames
Leave == \E how \in {"x", "xb", "p"} :
    /\ frames # <<>>
    /\ how = "xb" => frames[Len(frames)].kind = "i"
    /\ Say(how)
    /\ frames' = SubSeq(frames, 1, Len(frames) - 1)
    /\ UNCHANGED guards
Clone == Say("k") /\ UNCHANGED <<guards, frames>>

Next == Acquire \/ Release \/ Enter \/ EnterClone \/ Leave \/ Clone
Spec == Init /\ [][Next]_vars
\* which slot holds a guard does not matter
View == <<[b \in Rng(guards) |-> Cardinality({i \in 1..MaxG : guards[i] = b})], frames>>
Emit == Gen => PrintT(<<"PLAN", hist>>)

\* what the discipline is for: no mutable access ever coexists with another access to the same column
NoAlias == LET hs == [i \in 1..MaxG |-> IF guards[i] = None THEN {} ELSE {guards[i]}] \o [i \in 1..Len(frames) |-> frames[i].take] IN
    \A i, j \in 1..Len(hs) : i # j => \A b \in hs[i], c \in hs[j] : ~Clash(b, c)
=============================================================================
