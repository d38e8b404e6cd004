----------------------------- MODULE HandlesGen -----------------------------
(* Enumerates every sequence of conversions up to Depth from every kind of handle. *)
EXTENDS Handles
CONSTANTS Depth, Gen
VARIABLES h, live, hist
vars == <<h, live, hist>>

Ids == <<3, 4, 255, 0, 1>>
Starts == {<<"A", 1, 3, TRUE>>, <<"B", 2, 4, TRUE>>, <<"C", 3, 255, TRUE>>, <<"D", 4, 0, TRUE>>, <<"E", 5, 1, TRUE>>,
           <<"dB", 2, 4, FALSE>>, <<"dC", 3, 255, FALSE>>}
Foreign == {<<"f2", 0, 2, FALSE>>, <<"f3", 0, 3, FALSE>>, <<"f254", 0, 254, FALSE>>}

Init == \E s \in Starts \cup Foreign :
            /\ h = [form |-> IF s \in Starts THEN "T" ELSE "Any", t |-> s[2], id |-> s[3]]
            /\ live = s[4]
            /\ hist = <<s[1]>>
Ended == h.form = "-"
Next == /\ ~Ended /\ Len(hist) <= Depth
        /\ \E via \in Vias(h.form), arg \in 1..Len(Ids) :
            /\ via \notin Targeted => arg = 1
            /\ via = "unch" => Ids[arg] = h.id       \* documented as the caller's duty
            /\ via = "direct" => live                \* a stale handle has no direct one
            /\ LET c == Conv(Ids, h, via, arg) IN
               /\ h' = [form |-> c.form, t |-> c.t, id |-> c.id]
               /\ hist' = Append(hist, IF via \in Targeted THEN via \o ":" \o ToString(arg) ELSE via)
               /\ UNCHANGED live
Spec == Init /\ [][Next]_vars
Emit == (Gen /\ (Ended \/ Len(hist) = Depth + 1)) => PrintT(<<"PLAN", hist>>)

\* type-faithfulness: no sequence of conversions ends in a typed form of another archetype than the one that made the handle
Faithful == /\ (h.form \in {"T", "DT", "SelE", "SelD", "SelA"}) => (h.t \in 1..Len(Ids) /\ Ids[h.t] = h.id)
            /\ (h.form # "-") => h.id = (CASE hist[1] = "A" -> 3 [] hist[1] \in {"B", "dB"} -> 4 [] hist[1] \in {"C", "dC"} -> 255
                                          [] hist[1] = "D" -> 0 [] hist[1] = "E" -> 1 [] hist[1] = "f2" -> 2
                                          [] hist[1] = "f3" -> 3 [] OTHER -> 254)
=============================================================================
