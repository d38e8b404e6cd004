---------------------------- MODULE DeclClassify ----------------------------
(* Tells for each case whether the specification accepts its declaration and its queries, and what is left of the
   declaration when the disabled items are taken out. *)
EXTENDS Decl, TLCExt, Json, IOUtils
Cases == TLCEval(ndJsonDeserialize(IOEnv.CASES))
VARIABLE i
Init == i = 1
Next == /\ i <= Len(Cases)
        /\ i' = i + 1
        /\ LET r == Reduce(Cases[i].decl)
               ok == WorldOk(r, Cases[i].max)
               qs == Cases[i].queries IN
           /\ PrintT(<<"CASE", ToJson([n |-> Cases[i].n, ok |-> ok, reduced |-> r,
                                       ids |-> IF ok THEN Ids(r) ELSE <<>>,
                                       queries |-> [k \in 1..Len(qs) |-> ok /\ QueryOk(ReduceQ(qs[k]), r)]])>>)
Spec == Init /\ [][Next]_i
=============================================================================
