----------------------------- MODULE GecsStore -----------------------------
(* The storage algorithm of gecs as the code has it (src/archetype/storage.rs, slot.rs): a sparse array of
   slots - occupied ones point into the dense arrays, free ones form a list - with a generation each, dense
   arrays of handles and rows that are removed from by swapping, and one generation per storage for direct
   handles. Pure functions from stores to stores; GecsWorld builds worlds and operations from them.

   A handle is <<archetype, slot, generation>>, a direct handle <<archetype, dense position, generation of
   the storage>>. Slots and positions count from 1; 0 ends the free list.

   Flaw names a deliberate mistake: "" is the code as it is. With every other value TLC must find a
   behaviour that GecsAbs rejects (lib/model.py runs them all), which is what shows that the judge of the
   recorded traces is able to see such mistakes. The first group are the defects the code once had. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Limit,     \* greatest capacity
          MaxGen,       \* greatest generation
          Wrapping,  \* feature wrapping_version
          Debug,     \* debug assertions are on
          Flaw
Flaws == {"late_overflow", "direct_unchecked", "sweep_stale", "clone_leak", "drop_leak",
          "no_slot_bump", "no_arch_bump", "release_first", "no_fix_last", "column_skew", "grow_all",
          "clone_generations", "clone_head", "clone_fresh_ids", "sweep_forward", "sweep_skip", "sweep_break_late", "sweep_last_only",
          "no_bound", "free_resolves", "direct_bound", "within_grows", "full_drops", "destroy_any_keeps",
          "event_before_overflow", "clear_created_only", "query_any_column", "find_ignores_query", "forced_destroy", "ignore_version"}
\* these are changes that the properties allow: GecsAbs must accept all behaviours
Variants == {"bump_on_create", "grow_by_one", "free_fifo", "sweep_forward_ok"}
ASSUME Flaw \in Flaws \cup Variants \cup {""}

Free(next) == [f |-> TRUE, i |-> next, v |-> 1]
NewStore(cap) ==
    [ver |-> 1, cap |-> cap, head |-> IF cap = 0 THEN 0 ELSE 1,
     slots |-> [i \in 1..cap |-> Free(IF i = cap THEN 0 ELSE i + 1)],
     ents |-> <<>>, rows |-> <<>>, ec |-> <<>>, ed |-> <<>>]
Size(st) == Len(st.ents)

CanNext(v) == v < MaxGen \/ Wrapping
NextV(v)   == IF v < MaxGen THEN v + 1 ELSE 1

-----------------------------------------------------------------------------
CanGrow(st) == st.cap < Limit
Grow(st) ==
    LET want == 2 * (st.cap + 1)
        cap  == IF want > Limit THEN Limit ELSE want
        from == IF Flaw = "grow_all" THEN 0 ELSE Size(st) IN
    [st EXCEPT !.cap = IF Flaw = "grow_by_one" THEN @ + 1 ELSE cap,
               !.head = from + 1,
               !.slots = [i \in 1..cap |-> IF i <= from THEN st.slots[i] ELSE Free(IF i = cap THEN 0 ELSE i + 1)]]

\* [st, tok]; there must be a free slot
ForceCreate(st, a, row, events) ==
    LET s   == st.head
        tok == <<a, s, st.slots[s].v>> IN
    [tok |-> tok,
     st  |-> [st EXCEPT !.head = st.slots[s].i,
                        !.slots[s] = [f |-> FALSE, i |-> Size(st) + 1, v |-> @.v],
                        !.ver = IF Flaw = "bump_on_create" THEN NextV(@) ELSE @,
                        !.ents = Append(@, tok), !.rows = Append(@, row),
                        !.ec = IF events THEN Append(@, tok) ELSE @]]
\* [res, st, tok, ret]
Push(st, a, row, within, events) ==
    IF Size(st) < st.cap THEN [res |-> "ok", ret |-> <<>>] @@ ForceCreate(st, a, row, events)
    ELSE IF within /\ Flaw # "within_grows" THEN [res |-> "full", st |-> st, tok |-> 0, ret |-> IF Flaw = "full_drops" THEN <<>> ELSE row]
    ELSE IF CanGrow(st) THEN [res |-> "ok", ret |-> <<>>] @@ ForceCreate(Grow(st), a, row, events)
    ELSE [res |-> "panic", st |-> st, tok |-> 0, ret |-> <<>>]

-----------------------------------------------------------------------------
\* dense position of a handle; 0: rejected; -1: the lookup panics
Find(st, a, t) ==
    IF Size(st) = 0 \/ t[1] # a THEN 0
    ELSE IF t[2] > st.cap THEN IF Debug THEN -1 ELSE IF Flaw = "no_bound" THEN 1 ELSE 0
    ELSE LET s == st.slots[t[2]] IN
         IF s.v # t[3] /\ Flaw # "ignore_version" THEN 0
         ELSE IF s.f THEN IF Flaw = "free_resolves" THEN 1 ELSE 0 ELSE s.i
FindDirect(st, a, d) ==
    IF Size(st) = 0 \/ d[1] # a THEN 0
    ELSE IF d[3] # st.ver THEN 0
    ELSE IF d[2] > Size(st) THEN IF Debug THEN -1 ELSE IF Flaw = "direct_bound" THEN Size(st) ELSE 0
    ELSE d[2]
DirectOf(st, a, n) == <<a, n, st.ver>>
\* a direct handle made from a direct handle; <<>>: rejected
Redirect(st, a, d) == LET n == FindDirect(st, a, d) IN
    IF Flaw = "direct_unchecked" THEN IF Size(st) = 0 THEN <<>> ELSE <<a, d[2], st.ver>>
    ELSE IF n > 0 THEN DirectOf(st, a, n) ELSE <<>>

SwapRemove(s, n) == LET l == Len(s) IN [i \in 1..l - 1 |-> IF i = n THEN s[l] ELSE s[i]]
\* rows, but with a mistake in the first column of them only
SkewRemove(s, n) == LET l == Len(s) IN
    [i \in 1..l - 1 |-> IF i < n THEN s[i] ELSE [k \in 1..Len(s[i]) |-> IF k = 1 THEN s[i + 1][k] ELSE IF i = n THEN s[l][k] ELSE s[i][k]]]

\* [ok, st, row]: removes the row at position n; not ok: a generation overflow, which panics
TakeOut(st, n, events) ==
    LET tok  == st.ents[n]
        s    == tok[2]
        last == st.ents[Size(st)]
        ok   == CanNext(st.slots[s].v) /\ CanNext(st.ver)
        note(x) == IF events THEN [x EXCEPT !.ed = Append(@, tok)] ELSE x
        \* the dense arrays, the slot of the row that moved, the slot that gets free, the storage's generation
        dense == [st EXCEPT !.ents = SwapRemove(@, n),
                            !.rows = IF Flaw = "column_skew" THEN SkewRemove(@, n) ELSE SwapRemove(@, n)]
        fixed(x) == IF Flaw = "no_fix_last" THEN x ELSE [x EXCEPT !.slots[last[2]] = [f |-> FALSE, i |-> n, v |-> @.v]]
        tail(x) == CHOOSE j \in 1..x.cap : x.slots[j].f /\ x.slots[j].i = 0
        freed(x) == IF Flaw = "free_fifo" /\ x.head # 0
                    THEN [x EXCEPT !.slots[tail(x)].i = s, !.slots[s] = [f |-> TRUE, i |-> 0, v |-> NextV(@.v)]]
                    ELSE
                    [x EXCEPT !.slots[s] = [f |-> TRUE, i |-> st.head, v |-> IF Flaw = "no_slot_bump" THEN @.v ELSE NextV(@.v)],
                              !.head = s]
        done(x) == [x EXCEPT !.ver = IF Flaw = "no_arch_bump" THEN @ ELSE NextV(@)] IN
    IF ~ok THEN [ok |-> FALSE, row |-> <<>>,
                 st |-> IF Flaw = "late_overflow" THEN fixed(dense) ELSE IF Flaw = "event_before_overflow" THEN note(st) ELSE st]
    ELSE [ok |-> TRUE, row |-> st.rows[n],
          st |-> done(note(IF Flaw = "release_first" THEN fixed(freed(dense)) ELSE freed(fixed(dense))))]

-----------------------------------------------------------------------------
\* A clone with rows replaced by what new gives for them
CloneStore(st, rows) ==
    [st EXCEPT !.rows = rows,
               !.ver = IF Flaw = "clone_generations" THEN 1 ELSE @,
               !.head = IF Flaw = "clone_head" /\ Size(st) < st.cap THEN (CHOOSE i \in 1..st.cap : st.slots[i].f /\ \A j \in i + 1..st.cap : ~st.slots[j].f) ELSE @,
               !.slots = IF Flaw = "clone_generations" THEN [i \in 1..st.cap |-> [@[i] EXCEPT !.v = 1]] ELSE @,
               !.ents = IF Flaw = "clone_fresh_ids" THEN [i \in 1..Size(st) |-> <<@[i][1], i, @[i][3]>>] ELSE @]
\* many removals and creations through the free list's head (the verification hook)
FastForwardStore(st, n) == [st EXCEPT !.slots[st.head].v = @ + n, !.ver = @ + n]

\* What the code relies on between operations
Consistent(st) ==
    /\ Len(st.slots) = st.cap /\ Size(st) <= st.cap /\ st.cap <= Limit
    /\ \A n \in 1..Size(st) : LET s == st.slots[st.ents[n][2]] IN ~s.f /\ s.i = n /\ s.v = st.ents[n][3]
    /\ Cardinality({i \in 1..st.cap : ~st.slots[i].f}) = Size(st)
    \* the free list runs through all free slots
    /\ LET RECURSIVE Run(_, _)
           Run(i, seen) == IF i = 0 THEN seen ELSE IF i \in seen \/ ~st.slots[i].f THEN {-1} ELSE Run(st.slots[i].i, seen \cup {i})
       IN Run(st.head, {}) = {i \in 1..st.cap : st.slots[i].f}
=============================================================================
