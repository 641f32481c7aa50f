------------------------------ MODULE XecsImpl ------------------------------
(***************************************************************************)
(* How xecs keeps the state that Xecs describes: the id manager's flag     *)
(* table with the chain of removed ids threaded through it, one sparse set *)
(* per component type, and per group either a prefix length (owning) or a  *)
(* set of members (non-owning).  Every public call is one action built     *)
(* from the same steps as the code, in the same order.                     *)
(*                                                                         *)
(* TLC checks that it refines Xecs and keeps the invariants below, and     *)
(* prints its state graph, from which the walks that drive the real code   *)
(* are made: two states that Xecs cannot tell apart but the code can are   *)
(* different states here.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt

CONSTANTS
    Types,      \* component types to register
    Late,       \* component types not registered at the start
    Values,     \* values to attach
    MaxId,      \* ids stay below or at this
    Groups,     \* groups that may be made
    MaxGroups,  \* how many of them at once
    Batches,    \* sizes of batches to create
    Misuse      \* include calls that must be refused

VARIABLES
    flags,   \* sequence; flags[i + 1] is entity_flags[i]: <<"U", index>> or <<"A", next id in chain>>
    ents,    \* EntityManager.entities
    dense,   \* type -> SparseSet.entities
    data,    \* type -> SparseSet.data
    span,    \* type -> length of SparseSet.indices
    grp,     \* World.groups: [g, len, mem]
    out,     \* as in Xecs
    op       \* the call made (hidden by the view)

vars == <<flags, ents, dense, data, span, grp, out, op>>
View == <<flags, ents, dense, data, span, grp>>
Reg == DOMAIN dense

Reply(k, v, d) == [k |-> k, v |-> v, d |-> d]
Range(s) == {s[i] : i \in 1..Len(s)}
Max(a, b) == IF a > b THEN a ELSE b
Pos(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x

---------------------------------------------------------------------------
(* The id manager: EntityManager *)

\* has(): flagged as in use and really at the recorded index
Flag(i) == flags[i + 1]
Exists(e) ==
    /\ e < Len(flags) /\ Flag(e)[1] = "U"
    /\ Flag(e)[2] < Len(ents) /\ ents[Flag(e)[2] + 1] = e
\* allocate()
Alloc ==
    IF Flag(0)[1] = "A"
    THEN LET id == Flag(0)[2]
         IN [id |-> id,
             ents |-> Append(ents, id),
             flags |-> [flags EXCEPT ![1] = Flag(id), ![id + 1] = <<"U", Len(ents)>>]]
    ELSE [id |-> Len(flags),
          ents |-> Append(ents, Len(flags)),
          flags |-> Append(flags, <<"U", Len(ents)>>)]
\* allocate_n()
AllocN(n) ==
    [lo |-> Len(flags),
     ents |-> ents \o [i \in 1..n |-> Len(flags) + i - 1],
     flags |-> flags \o [i \in 1..n |-> <<"U", Len(ents) + i - 1>>]]
\* remove(), for an id that exists: swap_remove, then chain the id
Free(e) ==
    LET ix == Flag(e)[2]
        last == ents[Len(ents)]
        moved == [flags EXCEPT ![last + 1] = <<"U", ix>>]
    IN [ents |-> IF ix + 1 = Len(ents) THEN SubSeq(ents, 1, Len(ents) - 1)
                 ELSE [SubSeq(ents, 1, Len(ents) - 1) EXCEPT ![ix + 1] = last],
        flags |-> [moved EXCEPT ![e + 1] = moved[1], ![1] = <<"A", e>>]]

---------------------------------------------------------------------------
(* Sparse sets, as records [e: ids, v: values, n: length of the index table] *)

Set(t) == [e |-> dense[t], v |-> data[t], n |-> span[t]]
In(s, e) == e \in Range(s.e)
Add(s, e, v) ==
    IF In(s, e) THEN [s EXCEPT !.v[Pos(s.e, e)] = v]
    ELSE [e |-> Append(s.e, e), v |-> Append(s.v, v), n |-> Max(s.n, e + 1)]
SwapRemove(s, i) ==
    LET m == Len(s) IN
    IF i = m THEN SubSeq(s, 1, m - 1) ELSE [SubSeq(s, 1, m - 1) EXCEPT ![i] = s[m]]
Del(s, e) ==
    IF ~In(s, e) THEN s
    ELSE LET i == Pos(s.e, e) IN [s EXCEPT !.e = SwapRemove(@, i), !.v = SwapRemove(@, i)]
SwapSeq(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
Swap(s, i, j) == [s EXCEPT !.e = SwapSeq(@, i, j), !.v = SwapSeq(@, i, j)]

---------------------------------------------------------------------------
(* Groups.  A step takes and gives [s: all sparse sets, g: the group] *)

InGroup(x, e) ==
    LET a == x.s[x.g.g[2]]
        b == x.s[x.g.g[3]]
    IN /\ In(a, e) /\ In(b, e)
       /\ CASE x.g.g[1] = "F" -> Pos(a.e, e) <= x.g.len /\ Pos(b.e, e) <= x.g.len
            [] x.g.g[1] = "P" -> Pos(a.e, e) <= x.g.len
            [] x.g.g[1] = "N" -> e \in Range(x.g.mem.e)
\* Move e's entry in the owned storages to position i.
Place(x, e, i) ==
    LET ta == x.g.g[2]
        tb == x.g.g[3]
        s1 == [x.s EXCEPT ![ta] = Swap(@, Pos(@.e, e), i)]
    IN IF x.g.g[1] = "F" THEN [s1 EXCEPT ![tb] = Swap(@, Pos(@.e, e), i)] ELSE s1
GAdd(x, e) ==
    IF ~In(x.s[x.g.g[2]], e) \/ ~In(x.s[x.g.g[3]], e) \/ InGroup(x, e) THEN x
    ELSE IF x.g.g[1] = "N" THEN [x EXCEPT !.g.mem = Add(@, e, 0)]
    ELSE [s |-> Place(x, e, x.g.len + 1), g |-> [x.g EXCEPT !.len = @ + 1]]
GDel(x, e) ==
    IF ~InGroup(x, e) THEN x
    ELSE IF x.g.g[1] = "N" THEN [x EXCEPT !.g.mem = Del(@, e)]
    ELSE [s |-> Place(x, e, x.g.len), g |-> [x.g EXCEPT !.len = @ - 1]]
\* make(): walk over the storage (the shorter one, or always the owned one) and take what is in both
RECURSIVE MakeFrom(_, _, _)
MakeFrom(x, walk, i) ==
    IF i > Len(x.s[walk].e) THEN x
    ELSE LET e == x.s[walk].e[i]
             other == IF walk = x.g.g[2] THEN x.g.g[3] ELSE x.g.g[2]
         IN MakeFrom(IF ~In(x.s[other], e) THEN x
                     ELSE IF x.g.g[1] = "N" THEN [x EXCEPT !.g.mem = Add(@, e, 0)]
                     ELSE [s |-> Place(x, e, x.g.len + 1), g |-> [x.g EXCEPT !.len = @ + 1]],
                     walk, i + 1)
Make(x) ==
    LET a == x.g.g[2]
        b == x.g.g[3]
    IN MakeFrom(x, IF x.g.g[1] = "P" \/ Len(x.s[a].e) < Len(x.s[b].e) THEN a ELSE b, 1)

\* Let the groups i.. that satisfy P take a step for e, one after the other.
RECURSIVE Each(_, _, _, _, _)
Each(w, i, P(_), F(_, _), e) ==
    IF i > Len(w.g) THEN w
    ELSE IF ~P(w.g[i]) THEN Each(w, i + 1, P, F, e)
    ELSE LET x == F([s |-> w.s, g |-> w.g[i]], e)
         IN Each([s |-> x.s, g |-> [w.g EXCEPT ![i] = x.g]], i + 1, P, F, e)
World == [s |-> [t \in Reg |-> Set(t)], g |-> grp]
Becomes(w) ==
    /\ dense' = [t \in DOMAIN w.s |-> w.s[t].e]
    /\ data' = [t \in DOMAIN w.s |-> w.s[t].v]
    /\ span' = [t \in DOMAIN w.s |-> w.s[t].n]
    /\ grp' = w.g
Storages == <<dense, data, span, grp>>

---------------------------------------------------------------------------
(* The calls *)

Register(t) ==
    /\ t \in Late \ Reg
    /\ dense' = dense @@ (t :> <<>>) /\ data' = data @@ (t :> <<>>) /\ span' = span @@ (t :> 0)
    /\ out' = Reply("ok", <<>>, {}) /\ op' = <<"reg", t>>
    /\ UNCHANGED <<flags, ents, grp>>

Create ==
    LET a == Alloc
    IN /\ a.id <= MaxId
       /\ flags' = a.flags /\ ents' = a.ents
       /\ out' = Reply("ok", <<a.id>>, {}) /\ op' = <<"new">>
       /\ UNCHANGED Storages

\* create_entities(n) followed by attaching v to each when t is a type (one handle, one call after the other)
CreateBatch(n, t, v) ==
    LET a == AllocN(n)
        ids == [i \in 1..n |-> a.lo + i - 1]
        RECURSIVE AddAll(_, _)
        AddAll(s, i) == IF i > n THEN s ELSE AddAll(Add(s, ids[i], v), i + 1)
        RECURSIVE JoinAll(_, _)   \* for one group, every entity in turn
        JoinAll(x, i) == IF i > n THEN x ELSE JoinAll(GAdd(x, ids[i]), i + 1)
        w == [s |-> [World.s EXCEPT ![t] = AddAll(@, 1)], g |-> grp]
    IN /\ a.lo + n - 1 <= MaxId
       /\ flags' = a.flags /\ ents' = a.ents
       /\ IF t = "-" THEN UNCHANGED Storages
          ELSE Becomes(Each(w, 1, LAMBDA g : t \in {g.g[2], g.g[3]}, LAMBDA x, e : JoinAll(x, 1), 0))
       /\ out' = Reply("ok", <<a.lo, a.lo + n>>, {}) /\ op' = <<"bat", n, t>>

Attach(e, t, v) ==
    LET w == [s |-> [World.s EXCEPT ![t] = Add(@, e, v)], g |-> grp]
    IN /\ Exists(e) /\ t \in Reg
       /\ Becomes(Each(w, 1, LAMBDA g : t \in {g.g[2], g.g[3]}, GAdd, e))
       /\ out' = Reply("ok", <<>>, IF In(Set(t), e) THEN {<<t, e, Set(t).v[Pos(Set(t).e, e)]>>} ELSE {})
       /\ op' = <<"att", e, t>>
       /\ UNCHANGED <<flags, ents>>

Detach(e, t) ==
    LET w == Each(World, 1, LAMBDA g : t \in {g.g[2], g.g[3]}, GDel, e)
    IN /\ Exists(e) /\ t \in Reg
       /\ Becomes([w EXCEPT !.s[t] = Del(@, e)])
       /\ out' = IF In(Set(t), e) THEN Reply("ok", <<Set(t).v[Pos(Set(t).e, e)]>>, {}) ELSE Reply("none", <<>>, {})
       /\ op' = <<"det", e, t>>
       /\ UNCHANGED <<flags, ents>>

Remove(e) ==
    LET left == Each(World, 1, LAMBDA g : InGroup([s |-> World.s, g |-> g], e), GDel, e)
        f == Free(e)
    IN /\ Exists(e)
       /\ Becomes([left EXCEPT !.s = [t \in Reg |-> Del(left.s[t], e)]])
       /\ flags' = f.flags /\ ents' = f.ents
       /\ out' = Reply("ok", <<>>, {<<t, e, Set(t).v[Pos(Set(t).e, e)]>> : t \in {u \in Reg : In(Set(u), e)}})
       /\ op' = <<"rem", e>>

Owned(g) == CASE g[1] = "F" -> {g[2], g[3]} [] g[1] = "P" -> {g[2]} [] g[1] = "N" -> {}
GroupLegal(g) ==
    /\ \A i \in 1..Len(grp) : grp[i].g # g
    /\ g[2] \in Reg /\ g[3] \in Reg
    /\ g[2] # g[3] \/ Owned(g) = {}
    /\ \A i \in 1..Len(grp) : Owned(grp[i].g) \cap Owned(g) = {}
MakeGroup(g) ==
    LET x == Make([s |-> World.s, g |-> [g |-> g, len |-> 0, mem |-> [e |-> <<>>, v |-> <<>>, n |-> 0]]])
    IN /\ GroupLegal(g) /\ Len(grp) < MaxGroups
       /\ Becomes([s |-> x.s, g |-> Append(grp, x.g)])
       /\ out' = Reply("ok", <<>>, {}) /\ op' = <<"mg", g>>
       /\ UNCHANGED <<flags, ents>>

\* Refused calls.
Refuse(o, d) == out' = Reply("panic", <<>>, d) /\ op' = o /\ UNCHANGED <<flags, ents, dense, data, span, grp>>
Refused ==
    /\ Misuse
    /\ \/ \E e \in 1..MaxId + 1, t \in Reg \cup Late :
            /\ ~Exists(e) \/ t \notin Reg
            /\ \/ \E v \in Values : Refuse(<<"att", e, t>>, {<<t, 0, v>>})
               \/ Refuse(<<"det", e, t>>, {})
       \/ \E e \in 1..MaxId + 1 : ~Exists(e) /\ Refuse(<<"rem", e>>, {})
       \/ \E g \in Groups : ~GroupLegal(g) /\ Refuse(<<"mg", g>>, {})
       \/ \E t \in Reg : Refuse(<<"reg", t>>, {})

Init ==
    /\ flags = << <<"U", 0>> >> /\ ents = <<>>
    /\ dense = [t \in Types |-> <<>>] /\ data = [t \in Types |-> <<>>] /\ span = [t \in Types |-> 0]
    /\ grp = <<>>
    /\ out = Reply("ok", <<>>, {}) /\ op = <<"init">>
Next ==
    \/ Create
    \/ \E n \in Batches, t \in Reg \cup {"-"}, v \in Values : CreateBatch(n, t, v)
    \/ \E e \in 1..MaxId, t \in Reg : Detach(e, t) \/ \E v \in Values : Attach(e, t, v)
    \/ \E e \in 1..MaxId : Remove(e)
    \/ \E g \in Groups : MakeGroup(g)
    \/ \E t \in Late : Register(t)
    \/ Refused
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* Invariants of the implementation's state *)

\* The chain of removed ids: most recent last.
RECURSIVE Chain(_)
Chain(f) == IF f[1] = "U" THEN <<>> ELSE Append(Chain(Flag(f[2])), f[2])
ChainOK == \A i, j \in 1..Len(Chain(Flag(0))) : i # j => Chain(Flag(0))[i] # Chain(Flag(0))[j]
EntsOK == \A i \in 1..Len(ents) : Flag(ents[i]) = <<"U", i - 1>>
SetsOK == \A t \in Reg : /\ Len(dense[t]) = Len(data[t]) /\ Cardinality(Range(dense[t])) = Len(dense[t])
                         /\ \A i \in 1..Len(dense[t]) : dense[t][i] < span[t]
Both(g) == Range(dense[g[2]]) \cap Range(dense[g[3]])
\* Owning groups: exactly the members are packed at the front, in one order when both are owned (C19).
GroupsOK ==
    \A i \in 1..Len(grp) :
        LET r == grp[i]
            g == r.g
        IN CASE g[1] = "N" -> Range(r.mem.e) = Both(g)
             [] g[1] = "P" -> /\ r.len = Cardinality(Both(g))
                              /\ {dense[g[2]][j] : j \in 1..r.len} = Both(g)
             [] g[1] = "F" -> /\ r.len = Cardinality(Both(g))
                              /\ \A j \in 1..r.len : dense[g[2]][j] = dense[g[3]][j]
                              /\ {dense[g[2]][j] : j \in 1..r.len} = Both(g)
ImplInv == ChainOK /\ EntsOK /\ SetsOK /\ GroupsOK

---------------------------------------------------------------------------
(* Refinement: the user's view of this state is a behaviour of Xecs *)
CompOf(t) == [e \in Range(dense[t]) |-> data[t][Pos(dense[t], e)]]
X == INSTANCE Xecs WITH
    reg <- Reg, alive <- {e \in 1..Len(flags) : Exists(e)}, rec <- Chain(Flag(0)), next <- Len(flags),
    comp <- [t \in Reg |-> CompOf(t)], groups <- [i \in 1..Len(grp) |-> grp[i].g],
    res <- <<>>, hnd <- [k |-> "none", lo |-> 0, hi |-> 0], up <- TRUE, out <- out
=============================================================================
