------------------------------- MODULE MCImpl -------------------------------
\* Model checking XecsImpl: invariants, refinement of Xecs, and its state graph for the walks.
EXTENDS XecsImpl

\* Sets of groups, named for the configurations.
GNone == {}
GF == {<<"F","A","B">>}
GP == {<<"P","A","B">>}
GN == {<<"N","A","B">>}
GFN == {<<"F","A","B">>, <<"N","A","B">>}
GPN == {<<"P","A","B">>, <<"N","B","A">>}
GPP == {<<"P","A","B">>, <<"P","B","A">>}
GAll == {"F", "P", "N"} \X {"A", "B"} \X {"A", "B"}
GFN3 == {<<"F","A","B">>, <<"N","A","C">>}
GFP3 == {<<"F","A","B">>, <<"P","C","A">>}
GPPP3 == {<<"P","A","B">>, <<"P","B","C">>, <<"P","C","A">>}
GNN3 == {<<"N","A","B">>, <<"N","B","C">>, <<"N","C","A">>}

\* The calls of Xecs that XecsImpl makes.
XNext ==
    \/ X!Create
    \/ \E n \in Batches, t \in Reg \cup {"-"}, v \in Values : X!CreateBatchWith(n, t, v)
    \/ \E e \in 1..MaxId + 1, t \in Types \cup Late : X!Detach(e, t) \/ \E v \in Values : X!Attach(e, t, v)
    \/ \E e \in 1..MaxId + 1 : X!Remove(e)
    \/ \E g \in Groups : X!MakeGroup(g)
    \/ \E t \in Types \cup Late : X!Register(t)
\* Xecs starts empty, here with Types already registered.
XInit == ents = <<>> /\ grp = <<>> /\ Flag(0)[1] = "U" /\ Len(flags) = 1 /\ \A t \in Reg : dense[t] = <<>>
Refines == XInit /\ [][XNext]_(X!vars)
XInv == X!TypeOK /\ X!IdsPartition /\ X!NoGhosts /\ X!OwnedOnce

\* What the iterators of XecsImpl would hand out is what Xecs says a group query yields.
Yield(r) == IF r.g[1] = "N" THEN r.mem.e ELSE SubSeq(dense[r.g[2]], 1, r.len)
YieldOK == \A i \in 1..Len(grp) : LET y == Yield(grp[i]) IN
               /\ Cardinality(Range(y)) = Len(y)
               /\ Range(y) = X!Members(grp[i].g)
               /\ grp[i].g[1] = "F" => \A j \in 1..Len(y) : dense[grp[i].g[3]][j] = y[j]

\* One line per transition: fingerprints of the two states and the call.
EmitEdge == PrintT(<<"E", TLCFP(View), op', TLCFP(View')>>)
\* The starting state's line.
EmitInit == op # <<"init">> \/ PrintT(<<"I", TLCFP(View)>>)
=============================================================================
