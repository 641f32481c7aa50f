------------------------------- MODULE MCXecs -------------------------------
\* Model checking Xecs itself: its invariants and action properties, with handles, resources, misuse and all.
EXTENDS Xecs
CONSTANTS Types, Values, MaxId, MaxGroups, Resources

Ids == 1..MaxId + 1
AllGroups == {"F", "P", "N"} \X Types \X Types
Lists(n) == UNION {[1..k -> Values] : k \in {n, n + 1}}
Next ==
    \/ \E t \in Types : Register(t)
    \/ \E g \in AllGroups : (g \in Range(groups) \/ Len(groups) < MaxGroups \/ ~GroupLegal(g)) /\ MakeGroup(g)
    \/ \E t \in Resources, v \in Values : RegisterResource(t, v) \/ WriteResource(t, v)
    \/ NextId <= MaxId /\ hnd = NoHandle /\ (Create \/ HoldNew(NextId))
    \/ \E n \in 0..2 : next + n - 1 <= MaxId /\ OpenBatch(n)
    \/ CloseBatch \/ Release
    \/ \E e \in Ids : Hold(e) \/ Remove(e)
    \/ \E e \in Ids, t \in Types : Detach(e, t) \/ \E v \in Values : Attach(e, t, v) \/ Write(e, t, v)
    \/ hnd.k = "bat" /\ \E t \in Types : \E vs \in Lists(hnd.hi - hnd.lo) : AttachBatch(t, vs)
    \/ NextId <= MaxId /\ \E t \in reg : CreateAndRemove(2, <<t>>)
    \/ next + 1 <= MaxId /\ BatchesAndRemove(2, 1)
    \/ DropWorld
Spec == Init /\ [][Next]_vars

\* Every value that was in the world before a step is still there, handed out, or dropped, and the last two only once (C13).
Values_(c) == {<<t, c[t]>> : t \in DOMAIN c}
Count(t, v) == IF t \in reg THEN Cardinality({e \in DOMAIN comp[t] : comp[t][e] = v}) ELSE 0
Gone(t, v) == Cardinality({d \in out'.d : d[1] = t /\ d[3] = v})
Lost(t, v) == Count(t, v) - (IF t \in reg' THEN Cardinality({e \in DOMAIN comp'[t] : comp'[t][e] = v}) ELSE 0)
Conserved ==
    [][up' => \A t \in Types, v \in Values :
          Lost(t, v) > 0 => \/ Gone(t, v) >= Lost(t, v)                           \* overwritten or removed
                            \/ Lost(t, v) = 1 /\ out'.k = "ok" /\ out'.v = <<v>>  \* detached
      ]_vars
=============================================================================
