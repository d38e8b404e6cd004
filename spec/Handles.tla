------------------------------ MODULE Handles ------------------------------
(* What every conversion between the forms of a handle gives: typed and dynamically typed handles, direct
   handles, raw pairs, ids and the generated Select enums. Pure operators, shared by the generator of conversion
   sequences (HandlesGen) and by the judge of recorded ones (HandlesTrace).
   A handle is [form, t, id]: its form, the archetype of its static or selected type (0: none), the id it carries.
   Forms: T Entity<A>, Any EntityAny, DT EntityDirect<A>, DAny EntityDirectAny, Raw (u32, u32), Id ArchetypeId,
   SelA SelectArchetype, SelE SelectEntity, SelD SelectEntityDirect. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* Ids: the archetype ids of the world, in declaration order
Known(Ids, id) == \E k \in 1..Len(Ids) : Ids[k] = id
Which(Ids, id) == CHOOSE k \in 1..Len(Ids) : Ids[k] = id
To(form, t, id) == [res |-> "ok", form |-> form, t |-> t, id |-> id]
Fails(err)      == [res |-> err, form |-> "-", t |-> 0, id |-> -1]

\* forms that carry the full raw value, and forms that lead to an entity
HasRaw  == {"T", "Any", "SelE", "Raw"}
Leads   == {"T", "Any", "SelE", "DT", "DAny", "SelD"}

Vias(form) ==
    CASE form \in {"T", "DT"} -> {"copy", "into_any", "from", "ref", "mut", "sel_e", "sel_e_ref", "sel_a", "id", "direct"}
      [] form = "Any"  -> {"copy", "into_any", "raw", "try", "fany", "unch", "sel_e", "sel_a", "id", "direct"}
      [] form = "DAny" -> {"copy", "into_any", "try", "fany", "unch", "sel_e", "id", "direct"}
      [] form = "Raw"  -> {"from_raw"}
      [] form = "Id"   -> {"sel_a"}
      [] form = "SelA" -> {"id", "copy"}
      [] OTHER         -> {"open", "copy"}
Targeted == {"try", "fany", "unch"}

Conv(Ids, h, via, arg) ==
    LET typed  == IF h.form \in {"Any", "T", "SelE"} THEN "T" ELSE "DT"
        dyn    == IF h.form \in {"Any", "T", "SelE"} THEN "Any" ELSE "DAny"
        select == IF h.form \in {"Any", "T", "SelE"} THEN "SelE" ELSE "SelD"
        known  == Known(Ids, h.id) IN
    CASE via = "copy"                              -> To(h.form, h.t, h.id)
      [] via \in {"into_any", "from", "ref", "mut"} -> To(dyn, 0, h.id)
      [] via = "raw"                               -> To("Raw", 0, h.id)
      [] via = "from_raw"                          -> To("Any", 0, h.id)
      [] via = "id"                                -> To("Id", 0, h.id)
      [] via = "open"                              -> To(typed, h.t, h.id)
      [] via = "direct"                            -> To(IF h.form \in {"Any", "DAny"} THEN "DAny" ELSE "DT", h.t, h.id)
      [] via = "try"  -> IF Ids[arg] = h.id THEN To(typed, arg, h.id) ELSE Fails("InvalidEntityType")
      [] via = "fany" -> IF Ids[arg] = h.id THEN To(typed, arg, h.id) ELSE Fails("panic")
      [] via = "unch" -> To(typed, arg, h.id)
      [] via \in {"sel_e", "sel_e_ref"} -> IF known THEN To(select, Which(Ids, h.id), h.id) ELSE Fails("InvalidEntityType")
      [] via = "sel_a"                  -> IF known THEN To("SelA", Which(Ids, h.id), h.id) ELSE Fails("InvalidEntityType")
=============================================================================
