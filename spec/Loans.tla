------------------------------- MODULE Loans -------------------------------
(* What client programs may do with the references that a world hands out. A program is a sequence of statements over
   one world of two archetypes, Aa(Ca, Cb) and Bb(Ca, Cc):

     <<"acq", i, l>>  obtain reference i by the API call l          <<"op", x>>   call x
     <<"use", i>>     use reference i                               <<"end", i>>  the last use of i is over

   Every reference and every call accesses places: the columns of an archetype, its handles, its event queues, and its
   shape (which everything that points into its storage depends on). An access that conflicts with a live reference
   invalidates it; a later use of that reference would be undefined behaviour, and such a program must not compile.
   Accesses through the runtime-borrowed API are checked when they happen, so two of them never conflict here. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Archs == {"Aa", "Bb"}
Cols(a) == IF a = "Aa" THEN {"Ca", "Cb"} ELSE {"Ca", "Cc"}
Special == {"entities", "events", "shape"}
Places(a) == {<<a, p>> : p \in Cols(a) \cup Special}
Columns(a) == {<<a, p>> : p \in Cols(a)}

\* acc: a set of <<place, mode, dyn>>
R(ps) == {<<p, "r", FALSE>> : p \in ps}
W(ps) == {<<p, "w", FALSE>> : p \in ps}
DR(ps) == {<<p, "r", TRUE>> : p \in ps}
DW(ps) == {<<p, "w", TRUE>> : p \in ps}
Pl(a, p) == {<<a, p>>}
Shape(a) == R(Pl(a, "shape"))
Struct(a) == W(Places(a))
Both(F(_)) == F("Aa") \cup F("Bb")

\* references, all of them into archetype Aa (and column Ca where one is named)
Loan(l) ==
    CASE l \in {"archref_f", "archref_w"} -> Shape("Aa") \cup R(Pl("Aa", "entities")) \cup R(Pl("Aa", "events"))
      [] l \in {"archmut_f", "archmut_w"} -> Struct("Aa")
      [] l \in {"entities_f", "entities_w", "borrow_entity", "slices_entity", "view_entity", "iter_entity", "q_borrow_entity"}
             -> Shape("Aa") \cup R(Pl("Aa", "entities"))
      [] l \in {"slice_f", "slice_w", "slice_elem", "view_comp", "view_into", "iter_item", "iter_item_late"} -> Shape("Aa") \cup R(Pl("Aa", "Ca"))
      [] l \in {"slice_mut_f", "slice_mut_w", "slice_mut_elem", "slices_field", "view_field", "view_comp_mut", "iter_mut_item", "iter_mut_item_late"}
             -> Shape("Aa") \cup W(Pl("Aa", "Ca"))
      [] l \in {"slices_f", "slices_w", "iter_mut_f", "iter_mut_w", "view_f", "view_w", "view_direct", "view_any", "view_dany", "view_w_direct"}
             -> Shape("Aa") \cup R(Pl("Aa", "entities")) \cup W(Columns("Aa"))
      [] l \in {"iter_f", "iter_w"} -> Shape("Aa") \cup R(Pl("Aa", "entities")) \cup R(Columns("Aa"))
      [] l \in {"bslice_f", "bslice_w", "borrow_comp", "borrow_w_comp", "bslice_elem"} -> Shape("Aa") \cup DR(Pl("Aa", "Ca"))
      [] l \in {"bslice_mut_f", "bslice_mut_w", "borrow_comp_mut", "borrow_w_comp_mut"} -> Shape("Aa") \cup DW(Pl("Aa", "Ca"))
      [] l \in {"borrow_f", "borrow_w", "borrow_copy", "borrow_direct", "borrow_any", "borrow_dany", "borrow_w_direct"}
             -> Shape("Aa") \cup R(Pl("Aa", "entities"))
      [] l \in {"created_f", "destroyed_f", "created_item", "created_w", "destroyed_w", "created_w_item"} -> R(Pl("Aa", "events")) \cup Shape("Aa")
      \* the parameters of query closures
      [] l \in {"q_find", "q_iter", "q_iter_destroy", "q_find_any", "q_find_direct", "q_iter_one"} -> Shape("Aa") \cup R(Pl("Aa", "Ca"))
      [] l \in {"q_find_mut", "q_iter_mut", "q_iter_destroy_mut", "q_find_any_mut", "q_find_direct_mut", "q_iter_one_mut"} -> Shape("Aa") \cup W(Pl("Aa", "Ca"))
      [] l \in {"q_find_borrow", "q_iter_borrow"} -> Shape("Aa") \cup DR(Pl("Aa", "Ca"))
      [] l \in {"q_find_borrow_mut", "q_iter_borrow_mut"} -> Shape("Aa") \cup DW(Pl("Aa", "Ca"))
      [] l \in {"q_find_entity", "q_iter_entity"} -> Shape("Aa") \cup R(Pl("Aa", "entities"))
InQuery == {"q_find", "q_iter", "q_iter_destroy", "q_find_any", "q_find_direct", "q_iter_one", "q_find_mut", "q_iter_mut", "q_iter_destroy_mut",
            "q_find_any_mut", "q_find_direct_mut", "q_iter_one_mut", "q_find_borrow", "q_iter_borrow", "q_find_borrow_mut", "q_iter_borrow_mut",
            "q_find_entity", "q_iter_entity", "q_borrow_entity"}
Plain == {"archref_f", "archref_w", "archmut_f", "archmut_w", "entities_f", "entities_w", "borrow_entity", "slices_entity", "view_entity", "iter_entity",
          "slice_f", "slice_w", "slice_elem", "view_comp", "view_into", "iter_item", "iter_item_late", "slice_mut_f", "slice_mut_w", "slice_mut_elem", "slices_field",
          "view_field", "view_comp_mut", "iter_mut_item", "iter_mut_item_late", "slices_f", "slices_w", "iter_mut_f", "iter_mut_w", "view_f", "view_w",
          "view_direct", "view_any", "view_dany", "view_w_direct", "iter_f", "iter_w", "bslice_f", "bslice_w", "borrow_comp", "borrow_w_comp", "bslice_elem",
          "bslice_mut_f", "bslice_mut_w", "borrow_comp_mut", "borrow_w_comp_mut", "borrow_f", "borrow_w", "borrow_copy", "borrow_direct", "borrow_any",
          "borrow_dany", "borrow_w_direct", "created_f", "destroyed_f", "created_item", "created_w", "destroyed_w", "created_w_item"}

\* calls
Op(x) ==
    CASE x \in {"create_w", "create_f", "cwc_w", "cwc_f", "destroy_w", "destroy_w_direct", "destroy_f", "destroy_f_direct", "destroy_f_any", "destroy_f_dany",
                "iter_destroy_one", "assign_f", "swap_f", "take_f"} -> Struct("Aa")
      \* what a dynamic handle or an unrestricted query reaches
      [] x \in {"destroy_w_any", "destroy_w_dany", "iter_destroy", "replace", "drop", "take", "move"} -> Both(Struct)
      [] x = "clear_f" -> W(Pl("Aa", "events"))
      [] x = "clear_w" -> W(Pl("Aa", "events") \cup Pl("Bb", "events"))
      [] x \in {"find_mut", "find_any_mut", "iter_mut", "iter_destroy_mut"} -> Shape("Aa") \cup W(Pl("Aa", "Ca"))
      [] x \in {"find_ref", "iter_ref"} -> Shape("Aa") \cup R(Pl("Aa", "Ca"))
      [] x \in {"find_borrow_mut", "iter_borrow_mut"} -> Shape("Aa") \cup DW(Pl("Aa", "Ca"))
      [] x \in {"find_borrow_ref", "iter_borrow_ref"} -> Shape("Aa") \cup DR(Pl("Aa", "Ca"))
      [] x = "clone" -> R(UNION {Places(a) \ Columns(a) : a \in Archs}) \cup DR(UNION {Columns(a) : a \in Archs})
      [] x \in {"create_b", "destroy_b"} -> Struct("Bb")
      [] x = "iter_mut_b" -> Shape("Bb") \cup W(Pl("Bb", "Ca"))
      [] x = "len" -> Shape("Aa")
Ops == {"create_w", "create_f", "cwc_w", "cwc_f", "destroy_w", "destroy_w_direct", "destroy_f", "destroy_f_direct", "destroy_f_any", "destroy_f_dany",
        "iter_destroy_one", "assign_f", "swap_f", "take_f", "destroy_w_any", "destroy_w_dany", "iter_destroy", "replace", "drop", "take", "move", "clear_f", "clear_w",
        "find_mut", "find_any_mut", "iter_mut", "iter_destroy_mut", "find_ref", "iter_ref", "find_borrow_mut", "iter_borrow_mut", "find_borrow_ref",
        "iter_borrow_ref", "clone", "create_b", "destroy_b", "iter_mut_b", "len"}
\* after these there is no world to speak of
Final == {"drop", "move"}
\* handed the whole world by value, which a closure called many times cannot
NotInClosure == Final \cup {"replace", "take"}

Conflict(m, n) == \E a \in m, b \in n : a[1] = b[1] /\ "w" \in {a[2], b[2]} /\ ~(a[3] /\ b[3])

\* ------------------------------------------------------------------------------------------------- execution
\* live: a function from live references to their accesses; bad: an invalid reference has been used
Init0 == [live |-> {}, gone |-> {}, bad |-> FALSE]
Hit(s, acc) == {p \in s.live : Conflict(Loan(p[2]), acc)}
Step(s, st) ==
    CASE st[1] = "acq" -> LET h == Hit(s, Loan(st[3])) IN [s EXCEPT !.live = (@ \ h) \cup {<<st[2], st[3]>>}, !.gone = @ \cup {p[1] : p \in h}]
      [] st[1] = "op"  -> LET h == Hit(s, Op(st[2])) IN [s EXCEPT !.live = @ \ h, !.gone = @ \cup {p[1] : p \in h}]
      [] st[1] = "use" -> [s EXCEPT !.bad = @ \/ st[2] \in s.gone]
      [] st[1] = "end" -> [s EXCEPT !.live = {p \in @ : p[1] # st[2]}]
RECURSIVE Run(_, _)
Run(s, prog) == IF prog = <<>> THEN s ELSE Run(Step(s, Head(prog)), Tail(prog))
Unsound(prog) == Run(Init0, prog).bad

\* a program with overlapping lifetimes and its twin, in which the first reference is no longer used
OpProg(l, x) == <<<<"acq", 1, l>>, <<"op", x>>, <<"use", 1>>>>
OpTwin(l, x) == <<<<"acq", 1, l>>, <<"use", 1>>, <<"end", 1>>, <<"op", x>>>>
TwoProg(l, m) == <<<<"acq", 1, l>>, <<"acq", 2, m>>, <<"use", 2>>, <<"use", 1>>>>
TwoTwin(l, m) == <<<<"acq", 1, l>>, <<"use", 1>>, <<"end", 1>>, <<"acq", 2, m>>, <<"use", 2>>>>
\* two references used alternately
MixProg(l, m) == <<<<"acq", 1, l>>, <<"acq", 2, m>>, <<"use", 1>>, <<"use", 2>>>>

\* "no": must be rejected; "yes": must be accepted; "any": sound, but the types may well be too coarse to allow it
Verdict(prog, twin) == IF Unsound(prog) THEN "no" ELSE IF twin THEN "yes" ELSE "any"

EntityRefs == {"entities_f", "entities_w", "borrow_entity", "slices_entity", "view_entity", "iter_entity", "created_item", "created_w_item",
               "q_find_entity", "q_iter_entity", "q_borrow_entity"}
Writable(l) == \E a \in Loan(l) : a[1][2] \in {"entities", "events"} /\ a[2] = "w"
\* the forms of programs: what a client writes, and what has to become of it
\*   across   l is obtained, x called, l used          twin      l's last use is before x
\*   other    x is called on another world             two, mix  x is another reference, used before or after l
\*   inside   l is the parameter of a query's closure, x is called in the closure, then l used
\*   escape   l is kept by the closure, used after x   static    l is required to live forever
\*   write    a handle is overwritten through l
Expect(f, l, x) ==
    CASE f = "across" -> Verdict(OpProg(l, x), FALSE)
      [] f = "twin" -> Verdict(OpTwin(l, x), TRUE)
      [] f = "two" -> Verdict(TwoProg(l, x), FALSE)
      [] f = "mix" -> Verdict(MixProg(l, x), FALSE)
      [] f = "twotwin" -> Verdict(TwoTwin(l, x), TRUE)
      [] f = "inside" -> Verdict(OpProg(l, x), FALSE)
      [] f = "escape" -> Verdict(OpProg(l, x), FALSE)
      [] f = "insidetwo" -> Verdict(TwoProg(l, x), FALSE)
      [] f = "static" -> Verdict(OpProg(l, "drop"), FALSE)
      [] f = "write" -> IF Writable(l) THEN "any" ELSE "no"
      [] f \in {"other", "twoother", "insideother", "insidetwoother", "escapetwin", "statictwin", "writetwin"} -> "yes"

\* ------------------------------------------------------------------------------------------------- queries
\* the accesses of a query's parameters on one archetype: a sequence of [col, mut, entity]
Aliased(ps) == \E i, j \in 1..Len(ps) : i # j /\ ps[i].col = ps[j].col /\ ps[i].col # "" /\ (ps[i].mut \/ ps[j].mut)
MutEntity(ps) == \E i \in 1..Len(ps) : ps[i].entity /\ ps[i].mut
\* the runtime-borrowed macros may leave the conflict to run time
QVerdict(ps, checked) == IF MutEntity(ps) THEN "no"
                         ELSE IF Aliased(ps) THEN (IF checked THEN "panic" ELSE "no")
                         ELSE IF \E i, j \in 1..Len(ps) : i # j /\ ps[i].col = ps[j].col /\ ps[i].col # "" THEN "any" ELSE "yes"

\* ------------------------------------------------------------------------------------------------- auto traits
\* kinds of component: Send and Sync, Send only, Sync only, neither
CSend(k) == k \in {"both", "send"}
CSync(k) == k \in {"both", "sync"}
AllSend(cs) == \A i \in 1..Len(cs) : CSend(cs[i])
AllSync(cs) == \A i \in 1..Len(cs) : CSync(cs[i])
\* o: [ty, comps, send, sync, copy]; the clauses it breaks
Auto(o) ==
    CASE o.ty \in {"world"} -> (IF o.sync THEN {"world_sync"} ELSE {}) \cup (IF o.send # AllSend(o.comps) THEN {"world_send"} ELSE {})
      [] o.ty \in {"archetype"} -> (IF o.sync THEN {"archetype_sync"} ELSE {}) \cup (IF o.send /\ ~AllSend(o.comps) THEN {"archetype_send"} ELSE {})
      [] o.ty \in {"entity", "direct", "any", "dany"} -> IF o.send /\ o.sync /\ o.copy THEN {} ELSE {"handle_traits"}
      \* exclusive references into the storage
      [] o.ty \in {"view", "slices", "iter_mut", "slice_mut"} -> (IF o.send /\ ~AllSend(o.comps) THEN {"view_send"} ELSE {}) \cup (IF o.sync /\ ~AllSync(o.comps) THEN {"view_sync"} ELSE {})
      [] o.ty \in {"iter"} -> (IF o.send /\ ~AllSync(o.comps) THEN {"view_send"} ELSE {}) \cup (IF o.sync /\ ~AllSync(o.comps) THEN {"view_sync"} ELSE {})
      \* shared references to something with unsynchronized borrow flags
      [] o.ty \in {"borrow"} -> (IF o.send THEN {"borrow_send"} ELSE {}) \cup (IF o.sync THEN {"borrow_sync"} ELSE {})
      [] o.ty \in {"guard", "guard_mut"} -> IF o.send THEN {"borrow_send"} ELSE {}
      [] OTHER -> {"judge"}
=============================================================================
