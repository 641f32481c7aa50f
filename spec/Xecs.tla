-------------------------------- MODULE Xecs --------------------------------
(***************************************************************************)
(* What a user of xecs can observe of one World: entity ids, components,   *)
(* groups, queries, resources, handles, and which values have been dropped.*)
(* One named action per public call.  Every call is total: misuse is the   *)
(* "panic" outcome of the same action and leaves the state as it was.      *)
(*                                                                         *)
(* Groups carry no data of their own here: what a group query yields is    *)
(* derived from the components (that is the point of properties C08, C09). *)
(* How the implementation keeps its storages, positions and id chain is in *)
(* XecsImpl, which is checked to refine this module.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SameBag, TLC

VARIABLES
    reg,      \* registered component types
    alive,    \* ids of live entities
    rec,      \* removed ids waiting for reuse, most recent last
    next,     \* the smallest id never used
    comp,     \* component type -> (entity id -> value)
    groups,   \* the groups made, in order: <<kind, a, b>> with kind F(ull), P(artial) or N(on owning)
    res,      \* resource type -> value
    hnd,      \* the handle held by the caller: none, one entity (ent) or a batch (bat) of ids lo..hi-1
    up,       \* the world still exists
    out       \* what the last call did: [k: outcome, v: values returned, d: {<<type, key, value>>} dropped]

state == <<reg, alive, rec, next, comp, groups, res, hnd, up>>
vars == <<reg, alive, rec, next, comp, groups, res, hnd, up, out>>

NoHandle == [k |-> "none", lo |-> 0, hi |-> 0]
Reply(k, v, d) == [k |-> k, v |-> v, d |-> d]
Range(s) == {s[i] : i \in 1..Len(s)}
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Without(f, xs) == [y \in DOMAIN f \ xs |-> f[y]]
Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
Max(a, b) == IF a > b THEN a ELSE b

Init ==
    /\ reg = {} /\ alive = {} /\ rec = <<>> /\ next = 1
    /\ comp = <<>> /\ groups = <<>> /\ res = <<>>
    /\ hnd = NoHandle /\ up = TRUE
    /\ out = Reply("ok", <<>>, {})

---------------------------------------------------------------------------
(* What can be asked *)

Exists(e) == e \in alive
Has(t, e) == e \in DOMAIN comp[t]
Value(t, e) == IF t \in reg /\ Has(t, e) THEN comp[t][e] ELSE -1

\* Query terms: see Catalog.
RECURSIVE Match(_, _), Row(_, _), Cols(_), Legal(_), RowOfTuple(_, _, _), ColsOfTuple(_, _)
Match(q, e) ==
    CASE q.k = "c" -> Has(q.t, e)
      [] q.k = "g" -> Has(q.g[2], e) /\ Has(q.g[3], e)
      [] q.k = "t" -> \A i \in 1..Len(q.s) : Match(q.s[i], e)
      [] q.k = "w" -> Match(q.q, e) /\ ~Match(q.x, e)
Row(q, e) ==
    CASE q.k = "c" -> <<comp[q.t][e]>>
      [] q.k = "g" -> <<comp[q.g[2]][e], comp[q.g[3]][e]>>
      [] q.k = "t" -> RowOfTuple(q.s, e, 1)
      [] q.k = "w" -> Row(q.q, e)
RowOfTuple(s, e, i) == IF i > Len(s) THEN <<>> ELSE Row(s[i], e) \o RowOfTuple(s, e, i + 1)
\* The columns of a row: <<type, mutable>>
Cols(q) ==
    CASE q.k = "c" -> << <<q.t, q.m>> >>
      [] q.k = "g" -> << <<q.g[2], q.m[1]>>, <<q.g[3], q.m[2]>> >>
      [] q.k = "t" -> ColsOfTuple(q.s, 1)
      [] q.k = "w" -> Cols(q.q)
ColsOfTuple(s, i) == IF i > Len(s) THEN <<>> ELSE Cols(s[i]) \o ColsOfTuple(s, i + 1)
\* Everything the query names is registered, and its groups were made.
Legal(q) ==
    CASE q.k = "c" -> q.t \in reg
      [] q.k = "g" -> q.g[2] \in reg /\ q.g[3] \in reg /\ q.g \in Range(groups)
      [] q.k = "t" -> \A i \in 1..Len(q.s) : Legal(q.s[i])
      [] q.k = "w" -> Legal(q.q) /\ Legal(q.x)
Matches(q) == {e \in alive : Match(q, e)}
\* The size of such a query is known exactly.
ExactSize(q) == q.k \in {"c", "g"}

Owned(g) == CASE g[1] = "F" -> {g[2], g[3]} [] g[1] = "P" -> {g[2]} [] g[1] = "N" -> {}
GroupLegal(g) ==
    /\ g[2] \in reg /\ g[3] \in reg
    /\ g \notin Range(groups)
    /\ \A h \in Range(groups) : Owned(h) \cap Owned(g) = {}
    /\ g[1] # "N" => g[2] # g[3]
Members(g) == {e \in alive : Has(g[2], e) /\ Has(g[3], e)}

\* The owned storages start with the group's members, in the same order when both are owned (C19).
\* sa and sb are the values in storage order.
LayoutOK(g, sa, sb) ==
    LET M == Members(g)
        n == Cardinality(M)
        At(i) == IF g[1] = "F" THEN <<sa[i], sb[i]>> ELSE <<sa[i]>>
        Of(e) == IF g[1] = "F" THEN <<comp[g[2]][e], comp[g[3]][e]>> ELSE <<comp[g[2]][e]>>
    IN  /\ Len(sa) = Cardinality(DOMAIN comp[g[2]])
        /\ Len(sb) = Cardinality(DOMAIN comp[g[3]])
        /\ n <= Len(sa) /\ (g[1] = "F" => n <= Len(sb))
        /\ SameBag([i \in 1..n |-> At(i)], M, Of)

---------------------------------------------------------------------------
(* Calls that set up the world *)

Register(t) ==
    /\ up
    /\ IF t \in reg
       THEN /\ out' = Reply("panic", <<>>, {})
            /\ UNCHANGED <<reg, comp>>
       ELSE /\ reg' = reg \cup {t}
            /\ comp' = Put(comp, t, <<>>)
            /\ out' = Reply("ok", <<>>, {})
    /\ UNCHANGED <<alive, rec, next, groups, res, hnd, up>>

MakeGroup(g) ==
    /\ up
    /\ IF GroupLegal(g)
       THEN /\ groups' = Append(groups, g)
            /\ out' = Reply("ok", <<>>, {})
       ELSE /\ UNCHANGED groups
            /\ out' = Reply("panic", <<>>, {})
    /\ UNCHANGED <<reg, alive, rec, next, comp, res, hnd, up>>

RegisterResource(t, v) ==
    /\ up
    /\ res' = Put(res, t, v)
    /\ out' = Reply("ok", <<>>, IF t \in DOMAIN res THEN {<<t, 0, res[t]>>} ELSE {})
    /\ UNCHANGED <<reg, alive, rec, next, comp, groups, hnd, up>>

WriteResource(t, v) ==
    /\ up
    /\ IF t \in DOMAIN res
       THEN /\ res' = Put(res, t, v)
            /\ out' = Reply("ok", <<res[t]>>, {<<t, 0, res[t]>>})
       ELSE /\ UNCHANGED res
            /\ out' = Reply("none", <<>>, {})
    /\ UNCHANGED <<reg, alive, rec, next, comp, groups, hnd, up>>

---------------------------------------------------------------------------
(* Entities *)

\* An id may be handed out only if no live entity has it (C01) ...
CreateAs(id) ==
    /\ up /\ id \notin alive /\ id >= 1
    /\ alive' = alive \cup {id}
    /\ rec' = SelectSeq(rec, LAMBDA x : x # id)
    /\ next' = Max(next, id + 1)
    /\ out' = Reply("ok", <<id>>, {})
    /\ UNCHANGED <<reg, comp, groups, res, up>>
\* ... and it is the most recently removed one, or the next fresh one (C02).
NextId == IF rec # <<>> THEN Last(rec) ELSE next
Create == CreateAs(NextId) /\ UNCHANGED hnd

OpenBatch(n) ==
    /\ up /\ hnd = NoHandle
    /\ alive' = alive \cup (next .. next + n - 1)
    /\ next' = next + n
    /\ hnd' = [k |-> "bat", lo |-> next, hi |-> next + n]
    /\ out' = Reply("ok", <<>>, {})
    /\ UNCHANGED <<reg, rec, comp, groups, res, up>>

CloseBatch ==
    /\ up /\ hnd.k = "bat"
    /\ hnd' = NoHandle
    /\ out' = Reply("ok", <<hnd.lo, hnd.hi>>, {})
    /\ UNCHANGED <<reg, alive, rec, next, comp, groups, res, up>>

\* A batch created, given one list of equal values (unless t is "-") and let go, as one step.
CreateBatchWith(n, t, v) ==
    /\ up /\ hnd = NoHandle
    /\ alive' = alive \cup (next .. next + n - 1)
    /\ next' = next + n
    /\ comp' = IF t = "-" THEN comp
               ELSE [comp EXCEPT ![t] = [e \in DOMAIN @ \cup (next .. next + n - 1) |-> IF e >= next THEN v ELSE @[e]]]
    /\ out' = Reply("ok", <<next, next + n>>, {})
    /\ UNCHANGED <<reg, rec, groups, res, hnd, up>>

\* Taking and giving back an entity handle.
HoldNew(id) == hnd = NoHandle /\ CreateAs(id) /\ hnd' = [k |-> "ent", lo |-> id, hi |-> id + 1]
Hold(e) ==
    /\ up /\ hnd = NoHandle
    /\ IF Exists(e)
       THEN hnd' = [k |-> "ent", lo |-> e, hi |-> e + 1] /\ out' = Reply("ok", <<>>, {})
       ELSE UNCHANGED hnd /\ out' = Reply("none", <<>>, {})
    /\ UNCHANGED <<reg, alive, rec, next, comp, groups, res, up>>
Release ==
    /\ up /\ hnd.k = "ent"
    /\ hnd' = NoHandle
    /\ out' = Reply("ok", <<hnd.lo>>, {})
    /\ UNCHANGED <<reg, alive, rec, next, comp, groups, res, up>>

\* Nobody can remove an entity while a handle is held (C15), so the call is enabled only without one.
Remove(e) ==
    /\ up /\ hnd = NoHandle
    /\ IF Exists(e)
       THEN /\ alive' = alive \ {e}
            /\ rec' = Append(rec, e)
            /\ comp' = [t \in DOMAIN comp |-> Without(comp[t], {e})]
            /\ out' = Reply("ok", <<>>, {<<t, e, comp[t][e]>> : t \in {u \in reg : Has(u, e)}})
       ELSE /\ UNCHANGED <<alive, rec, comp>>
            /\ out' = Reply("panic", <<>>, {})
    /\ UNCHANGED <<reg, next, groups, res, hnd, up>>

---------------------------------------------------------------------------
(* Components *)

Attach(e, t, v) ==
    /\ up
    /\ IF Exists(e) /\ t \in reg
       THEN /\ comp' = [comp EXCEPT ![t] = Put(@, e, v)]
            /\ out' = Reply("ok", <<>>, IF Has(t, e) THEN {<<t, e, comp[t][e]>>} ELSE {})
       ELSE /\ UNCHANGED comp
            /\ out' = Reply("panic", <<>>, {<<t, 0, v>>})
    /\ UNCHANGED <<reg, alive, rec, next, groups, res, hnd, up>>

Detach(e, t) ==
    /\ up
    /\ IF Exists(e) /\ t \in reg
       THEN IF Has(t, e)
            THEN /\ comp' = [comp EXCEPT ![t] = Without(@, {e})]
                 /\ out' = Reply("ok", <<comp[t][e]>>, {})
            ELSE /\ UNCHANGED comp
                 /\ out' = Reply("none", <<>>, {})
       ELSE /\ UNCHANGED comp
            /\ out' = Reply("panic", <<>>, {})
    /\ UNCHANGED <<reg, alive, rec, next, groups, res, hnd, up>>

\* A value written through any write access.
Write(e, t, v) ==
    /\ up
    /\ IF t \in reg /\ Has(t, e)
       THEN /\ comp' = [comp EXCEPT ![t] = Put(@, e, v)]
            /\ out' = Reply("ok", <<comp[t][e]>>, {<<t, e, comp[t][e]>>})
       ELSE /\ UNCHANGED comp
            /\ out' = Reply("none", <<>>, {})
    /\ UNCHANGED <<reg, alive, rec, next, groups, res, hnd, up>>

\* The values of a whole storage written through one write access: those in In get new.
WriteAll(t, In(_), New(_)) ==
    /\ up
    /\ t \in reg
    /\ comp' = [comp EXCEPT ![t] = [e \in DOMAIN @ |-> IF In(e) THEN New(e) ELSE @[e]]]
    /\ out' = Reply("ok", <<>>, {<<t, e, comp[t][e]>> : e \in {x \in DOMAIN comp[t] : In(x)}})
    /\ UNCHANGED <<reg, alive, rec, next, groups, res, hnd, up>>

\* Values written through the rows of a query: new[e] is the sequence of values put into e's row.
WriteRows(q, new) ==
    /\ up /\ Legal(q)
    /\ LET es == DOMAIN new
           cs == Cols(q)
           Upd(t) == {j \in 1..Len(cs) : cs[j] = <<t, 1>>}
       IN /\ comp' = [t \in DOMAIN comp |->
                        IF Upd(t) = {} THEN comp[t]
                        ELSE LET j == CHOOSE j \in Upd(t) : TRUE
                             IN [e \in DOMAIN comp[t] |-> IF e \in es THEN new[e][j] ELSE comp[t][e]]]
          /\ out' = Reply("ok", <<>>, {<<cs[j][1], e, comp[cs[j][1]][e]>> :
                                         <<j, e>> \in {j \in 1..Len(cs) : cs[j][2] = 1} \X es})
    /\ UNCHANGED <<reg, alive, rec, next, groups, res, hnd, up>>

\* Attaching a list to the batch held: the i-th entity gets the i-th value.
\* A refused call consumes the handle.
AttachBatch(t, vs) ==
    /\ up /\ hnd.k = "bat"
    /\ LET n == hnd.hi - hnd.lo
           ids == hnd.lo .. hnd.hi - 1
       IN IF Len(vs) = n /\ t \in reg
          THEN /\ comp' = [comp EXCEPT ![t] =
                             [e \in DOMAIN @ \cup ids |-> IF e \in ids THEN vs[e - hnd.lo + 1] ELSE @[e]]]
               /\ out' = Reply("ok", <<>>, {<<t, e, comp[t][e]>> : e \in ids \cap DOMAIN comp[t]})
               /\ UNCHANGED hnd
          ELSE /\ UNCHANGED comp
               /\ out' = Reply("panic", <<>>, {<<t, i, vs[i]>> : i \in 1..Len(vs)})
               /\ hnd' = NoHandle
    /\ UNCHANGED <<reg, alive, rec, next, groups, res, up>>

\* The same over and over: an entity comes, gets components of the types ts, and goes, k times; the same id each time.
CreateAndRemove(k, ts) ==
    /\ up /\ hnd = NoHandle /\ k > 0
    /\ rec' = IF rec = <<>> THEN <<next>> ELSE rec
    /\ next' = IF rec = <<>> THEN next + 1 ELSE next
    /\ out' = Reply("ok", <<NextId, NextId, k * Len(ts)>>, {})
    /\ UNCHANGED <<reg, alive, comp, groups, res, hnd, up>>
\* k batches of b entities, all removed in turn: never the same id.
BatchesAndRemove(k, b) ==
    /\ up /\ hnd = NoHandle /\ k > 0 /\ b > 0
    /\ rec' = rec \o [i \in 1..k * b |-> next + i - 1]
    /\ next' = next + k * b
    /\ out' = Reply("ok", <<next, next + k * b, k * b>>, {})
    /\ UNCHANGED <<reg, alive, comp, groups, res, hnd, up>>

\* All there is. (As one comprehension: TLC takes quadratic time for unions of large sets.)
Held == {<<p[1], p[2], comp[p[1]][p[2]]>> : p \in {x \in reg \X alive : x[2] \in DOMAIN comp[x[1]]}}

\* Dropping the world drops what is left in it, once.
DropWorld ==
    /\ up /\ hnd = NoHandle
    /\ up' = FALSE
    /\ out' = Reply("ok", <<0>>, Held \cup {<<t, 0, res[t]>> : t \in DOMAIN res})
    /\ UNCHANGED <<reg, alive, rec, next, comp, groups, res, hnd>>

---------------------------------------------------------------------------
(* Properties of the specification itself, checked by TLC in MC* models *)

TypeOK ==
    /\ DOMAIN comp = reg
    /\ \A e \in alive : e >= 1 /\ e < next
    /\ Cardinality(Range(rec)) = Len(rec)
    /\ hnd.k \in {"none", "ent", "bat"}
\* Ids are in use, waiting, or never used; no id is lost (C01, C02).
IdsPartition == alive \cap Range(rec) = {} /\ alive \cup Range(rec) = 1 .. next - 1
\* Only live entities have components (C05).
NoGhosts == \A t \in reg : DOMAIN comp[t] \subseteq alive
\* Held entities stay (C15).
HeldAlive == hnd.k # "none" => (hnd.lo .. hnd.hi - 1) \subseteq alive
\* No storage is owned twice (C09).
OwnedOnce == \A i, j \in 1..Len(groups) : i # j => Owned(groups[i]) \cap Owned(groups[j]) = {} /\ groups[i] # groups[j]
\* A refused call changes nothing but the batch handle it consumed (C14).
RefusalKeepsState ==
    [][out'.k = "panic" => UNCHANGED <<reg, alive, rec, next, comp, groups, res, up>>]_vars
=============================================================================
