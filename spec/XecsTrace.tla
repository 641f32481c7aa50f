------------------------------ MODULE XecsTrace ------------------------------
(***************************************************************************)
(* Validates traces recorded from the real code against Xecs.              *)
(*                                                                         *)
(* The file named by the environment variable TRACE holds one trace per    *)
(* line; each is an initial state here, so all are checked in one run and  *)
(* in parallel.  The specification is deterministic given the calls, so a  *)
(* step never gets stuck: it moves the specification by the recorded call  *)
(* and compares everything recorded.  A disagreement is printed as         *)
(* <<"BAD", trace, event, tags>> and checking goes on, so that one run     *)
(* says everything that is wrong.  The driver counts the states: one per   *)
(* event plus one per trace, or the run is invalid.                        *)
(***************************************************************************)
EXTENDS Xecs, Catalog, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tr, l
tvars == <<vars, tr, l>>

\* The values dropped are those the specification dropped (as a bag of <<type, value>>).
DropOK(d, want) == IF want = {} THEN Len(d) = 0 ELSE SameBag(d, want, LAMBDA x : <<x[1], x[3]>>)

If(c, tag) == IF c THEN {tag} ELSE {}
Judge(tags) == IF tags = {} THEN TRUE ELSE PrintT(<<"BAD", tr, l, tags>>)

\* Compare a call's outcome with the specification's reply.
Answer(ev) ==
    If(ev.k # out'.k, "kind")
    \cup If(ev.k = out'.k /\ ev.v # out'.v, "value")
    \cup If(~DropOK(ev.d, out'.d), "drop")
\* A call that only looks.
Looks(ev, tags) == UNCHANGED vars /\ Judge(tags \cup If(Len(ev.d) > 0, "drop"))

---------------------------------------------------------------------------
(* Rows of a query *)
Rows(ev, q) ==
    LET M == Matches(q)
        rows == ev.rows
        all == [i \in 1..Len(rows) |-> rows[i].r]
        withid == {i \in 1..Len(rows) : rows[i].e # 0}
    IN  If(Len(rows) # Cardinality(M), "rows")
        \cup If(\E i \in withid : rows[i].e \notin M, "foreign")
        \cup If(\E i \in withid : rows[i].e \in M /\ Row(q, rows[i].e) # rows[i].r, "rowvalue")
        \cup If(Cardinality({rows[i].e : i \in withid}) # Cardinality(withid), "repeat")
        \cup If(~SameBag(all, M, LAMBDA e : Row(q, e)), "rows")
Query(ev) ==
    LET q == Q[ev.q]
    IN IF Legal(q) THEN Looks(ev, IF ev.k = "ok" THEN Rows(ev, q) ELSE {"kind"})
       ELSE Looks(ev, If(ev.k # "panic", "kind"))

\* Writing through the rows: each row names its entity, or its old values do.
\* What the rows of a query were replaced by: entity -> written values.
Written(ev, q, M) ==
    LET Of(r) == IF r.e # 0 THEN r.e
                 ELSE IF \E e \in M : Row(q, e) = r.r THEN CHOOSE e \in M : Row(q, e) = r.r ELSE 0
        \* rows of zero-sized components only all look alike
        same == Len(ev.rows) = Cardinality(M) /\ Cardinality({Row(q, e) : e \in M}) < Cardinality(M)
        By(of) == LET es == {of[i] : i \in 1..Len(ev.rows)} \cap M
                  IN [e \in es |-> ev.rows[CHOOSE i \in 1..Len(ev.rows) : of[i] = e].w]
    IN IF same THEN [e \in M |-> ev.rows[1].w] ELSE By(TLCEval([i \in 1..Len(ev.rows) |-> Of(ev.rows[i])]))
QueryWrite(ev) ==
    LET q == Q[ev.q]
        cs == Cols(q)
        shape == \A i \in 1..Len(ev.rows) : Len(ev.rows[i].w) = Len(cs) /\ Len(ev.rows[i].r) = Len(cs)
    IN IF ~Legal(q) THEN Looks(ev, If(ev.k # "panic", "kind"))
       ELSE IF ev.k # "ok" \/ ~shape THEN Looks(ev, {"kind"})
       \* (a variable bound to one value is evaluated once, a definition many times)
       ELSE \E M \in {Matches(q)} : \E new \in {Written(ev, q, M)} :
            /\ WriteRows(q, new)
            /\ Judge(Rows(ev, q)
                     \cup If(\E i \in 1..Len(ev.rows) : \E j \in 1..Len(cs) :
                               cs[j][2] = 0 /\ ev.rows[i].w[j] # ev.rows[i].r[j], "alias")
                     \cup If(~DropOK(ev.d, out'.d), "drop"))
\* A whole storage: every entity that has the component is written, once.
WriteStorage(ev) ==
    IF ev.t \notin reg THEN Looks(ev, If(ev.k # "none", "kind"))
    ELSE IF ev.k # "ok" \/ \E i \in 1..Len(ev.rows) : Len(ev.rows[i].w) # 1 \/ Len(ev.rows[i].r) # 1 THEN Looks(ev, {"kind"})
    ELSE \* ev.at says at which row an id is: looking for it would take quadratic time
         LET f == comp[ev.t]
             n == Len(ev.rows)
             At(e) == IF e <= Len(ev.at) THEN ev.at[e] ELSE 0
             In(e) == At(e) # 0
             New(e) == ev.rows[At(e)].w[1]
         IN /\ WriteAll(ev.t, In, New)
            /\ Judge(If(n # Cardinality(DOMAIN f) \/ \E e \in DOMAIN f : ~In(e) \/ ev.rows[At(e)].e # e, "rows")
                     \cup If(\E e \in DOMAIN f : In(e) /\ ev.rows[At(e)].r[1] # f[e], "rowvalue")
                     \cup If(~DropOK(ev.d, out'.d), "drop"))
\* The same for one row looked up by id.
FromIdWrite(ev) ==
    LET q == Q[ev.q]
    IN IF ~Legal(q) THEN Looks(ev, If(ev.k # "panic", "kind"))
       ELSE IF ev.e \notin Matches(q) THEN Looks(ev, If(ev.k # "ok" \/ ev.rows # <<>>, "rows"))
       ELSE IF ev.k # "ok" \/ Len(ev.rows) # 1 THEN Looks(ev, {"rows"})
       ELSE /\ WriteRows(q, (ev.e :> ev.rows[1].w))
            /\ Judge(If(ev.rows[1].r # Row(q, ev.e), "rowvalue")
                     \cup If(\E j \in 1..Len(Cols(q)) : Cols(q)[j][2] = 0 /\ ev.rows[1].w[j] # ev.rows[1].r[j], "alias")
                     \cup If(~DropOK(ev.d, out'.d), "drop"))

---------------------------------------------------------------------------
(* The iterator protocol: a script of next (n), next_with_id (i), nth (k), from_id (f) and size_hint (h),
   perhaps with count (c), last (l) or fold (z) at its end. *)
RECURSIVE Used(_, _, _)
\* How many rows are used up after the first i steps of S, of N.
Used(S, N, i) ==
    IF i = 0 THEN 0
    ELSE LET u == Used(S, N, i - 1)
             s == S[i]
         IN CASE s.c \in {"n", "i"} -> u + s.p
              [] s.c = "k" -> IF s.p = 1 THEN u + s.a + 1 ELSE N
              [] s.c \in {"c", "l", "z"} -> N
              [] OTHER -> u
Script(ev) ==
    LET q == Q[ev.q]
        M == Matches(q)
        S == ev.s
        N == Cardinality(M)
        used == [i \in 0..Len(S) |-> Used(S, N, i)]
        took == {j \in 1..Len(S) : S[j].c \in {"n", "i", "k", "l"} /\ S[j].p = 1}  \* rows handed out
        ids == {j \in took : S[j].e # 0 \/ S[j].c = "i"}
        bag == Cardinality(took) <= N
               /\ \A j \in took : Cardinality({h \in took : S[h].r = S[j].r}) <= Cardinality({e \in M : Row(q, e) = S[j].r})
        idok == /\ \A j \in ids : S[j].e \in M /\ Row(q, S[j].e) = S[j].r
                /\ Cardinality({S[j].e : j \in ids}) = Cardinality(ids)
        \* "no more rows" is said exactly when too few are left
        ended == \A i \in 1..Len(S) :
                    CASE S[i].c \in {"n", "i", "l"} -> S[i].p = 0 <=> used[i - 1] = N
                      [] S[i].c = "k" -> S[i].p = 1 <=> used[i - 1] + S[i].a + 1 <= N
                      [] S[i].c \in {"c", "z"} -> S[i].lo = N - used[i - 1]
                      [] OTHER -> TRUE
        \* the rest taken at once: with what was taken before (nothing is skipped then) it is everything
        rest == IF "z" \in DOMAIN ev THEN ev.z ELSE <<>>
        before == SelectSeq(S, LAMBDA s : s.c \in {"n", "i"} /\ s.p = 1)
        whole == "z" \in DOMAIN ev =>
                   /\ SameBag([i \in 1..Len(before) |-> before[i].r] \o [i \in 1..Len(rest) |-> rest[i].r], M, LAMBDA e : Row(q, e))
                   /\ ev.m = "w" => /\ \A i \in 1..Len(rest) : rest[i].e \in M /\ Row(q, rest[i].e) = rest[i].r
                                    /\ Cardinality({rest[i].e : i \in 1..Len(rest)} \ {S[j].e : j \in ids}) = Len(rest)
        lookup == \A i \in 1..Len(S) : S[i].c = "f" =>
                    IF S[i].a \in M THEN S[i].p = 1 /\ S[i].r = Row(q, S[i].a) ELSE S[i].p = 0
        hints == \A i \in 1..Len(S) : S[i].c = "h" =>
                    LET left == N - used[i]
                    IN IF ExactSize(q) THEN S[i].lo = left /\ S[i].hi = left
                       ELSE S[i].lo <= left /\ (S[i].hi = -1 \/ left <= S[i].hi)
    IN IF ~Legal(q) THEN Looks(ev, If(ev.k # "panic", "kind"))
       ELSE IF ev.k # "ok" THEN Looks(ev, {"kind"})
       ELSE Looks(ev, If(~bag \/ ~whole, "itrow") \cup If(~idok, "itid") \cup If(~ended, "itend")
                      \cup If(~lookup, "itlookup") \cup If(~hints, "ithint"))

---------------------------------------------------------------------------
(* Looking at one storage in every way; at existence; at layouts; at resources *)
ReadAll(ev) ==
    IF ev.t \notin reg THEN Looks(ev, If(ev.k # "none", "kind"))
    ELSE IF ev.k # "ok" THEN Looks(ev, {"kind"})
    ELSE LET f == comp[ev.t]
         IN Looks(ev, If(\E i \in 1..Len(ev.ids) : ev.v[i] # Value(ev.t, ev.ids[i]), "read")
                      \cup If(ev.n # Cardinality(DOMAIN f), "count")
                      \cup If(~SameBag(ev.s, DOMAIN f, LAMBDA e : f[e]), "slice"))
ReadOne(ev) ==
    IF ev.t \in reg /\ Has(ev.t, ev.e) THEN Looks(ev, If(ev.k # "ok", "kind") \cup If(ev.k = "ok" /\ ev.v # <<comp[ev.t][ev.e]>>, "read"))
    ELSE Looks(ev, If(ev.k # "none", "kind"))
ReadSlice(ev) ==
    IF ev.t \in reg THEN Looks(ev, If(ev.k # "ok", "kind") \cup If(ev.k = "ok" /\ ~SameBag(ev.v, DOMAIN comp[ev.t], LAMBDA e : comp[ev.t][e]), "slice"))
    ELSE Looks(ev, If(ev.k # "none", "kind"))
Existence(ev) ==
    Looks(ev, If(ev.k # "ok", "kind")
              \cup If(ev.k = "ok" /\ \E i \in 1..Len(ev.ids) : ev.v[i] # IF Exists(ev.ids[i]) THEN 1 ELSE 0, "exist"))
Layout(ev) ==
    IF ev.k # "ok" THEN Looks(ev, {"kind"})
    ELSE Looks(ev, If(ev.g \in Range(groups) /\ ~LayoutOK(ev.g, ev.sa, ev.sb), "layout"))
ReadRes(ev) ==
    IF ev.t \in DOMAIN res THEN Looks(ev, If(ev.k # "ok", "kind") \cup If(ev.k = "ok" /\ ev.v # <<res[ev.t]>>, "value"))
    ELSE Looks(ev, If(ev.k # "none", "kind"))
Registered(ev) == Looks(ev, If(ev.k # "ok", "kind") \cup If(ev.k = "ok" /\ ev.v # <<IF ev.t \in reg THEN 1 ELSE 0>>, "value"))
Unlocked(ev) == Looks(ev, If(ev.k # "ok" \/ ev.v # <<>>, "locked"))

\* Creating follows the id the code chose, as long as that id was free.
Creating(ev, Act(_)) ==
    LET given == IF ev.k = "ok" /\ Len(ev.v) = 1 THEN ev.v[1] ELSE NextId
        free == given >= 1 /\ given \notin alive
        id == IF free THEN given ELSE NextId
    IN /\ Act(id)
       /\ Judge(If(ev.k # "ok", "kind") \cup If(~free, "id") \cup If(given # NextId, "lifo") \cup If(Len(ev.d) > 0, "drop"))
Plain(id) == CreateAs(id) /\ UNCHANGED hnd
\* The range of a batch becomes known when its handle is given back.
Closing(ev) ==
    /\ CloseBatch
    /\ LET mine == hnd.lo .. hnd.hi - 1
           got == IF Len(ev.v) = 2 THEN ev.v[1] .. ev.v[2] - 1 ELSE {}
           none == mine = {} /\ Len(ev.v) = 2 /\ got = {}   \* any empty range will do for no entities
           told == IF none THEN [ev EXCEPT !.v = <<hnd.lo, hnd.hi>>] ELSE ev
       IN Judge(Answer(told) \cup If((got \cap alive) \ mine # {}, "id"))

\* The same many times.
Cycle(ev) ==
    /\ CreateAndRemove(ev.n, ev.ts)
    /\ Judge(IF ev.k # "ok" THEN {"kind"}
             ELSE If(ev.v[1] # NextId \/ ev.v[2] # NextId, "lifo") \cup If({ev.v[1], ev.v[2]} \cap alive # {}, "id")
                  \cup If(ev.v[3] # out'.v[3] \/ Len(ev.d) > 0, "drop"))
Cycles(ev) ==
    CASE ev.o = "cyn" -> Cycle(ev)
      [] ev.o = "cyb" -> BatchesAndRemove(ev.n, ev.b) /\ Judge(Answer(ev))
      \* the entity has no component of the type, before and after
      [] ev.o = "cyd" -> Looks(ev, If(ev.k # "ok", "kind") \cup If(ev.k = "ok" /\ ev.v # <<ev.n>>, "value"))
      [] ev.o = "cyq" -> IF ~Legal(Q[ev.q]) THEN Looks(ev, If(ev.k # "panic", "kind"))
                         ELSE \E n \in {Cardinality(Matches(Q[ev.q]))} : Looks(ev, If(ev.k # "ok" \/ ev.v # <<n, n>>, "rows"))

Step(ev) ==
    CASE ev.o \in {"ha", "hd", "hw", "hc"} /\ hnd.k # "ent" -> Looks(ev, If(ev.k # "nohandle", "kind"))
      [] ev.o \in {"ba", "bc"} /\ hnd.k # "bat" -> Looks(ev, If(ev.k # "nohandle", "kind"))
      [] ev.o = "reg" -> Register(ev.t) /\ Judge(Answer(ev))
      [] ev.o = "new" -> Creating(ev, Plain)
      [] ev.o = "att" -> Attach(ev.e, ev.t, ev.x) /\ Judge(Answer(ev))
      [] ev.o = "det" -> Detach(ev.e, ev.t) /\ Judge(Answer(ev))
      [] ev.o = "rem" -> Remove(ev.e) /\ Judge(Answer(ev))
      [] ev.o = "wr"  -> Write(ev.e, ev.t, ev.x) /\ Judge(Answer(ev))
      [] ev.o = "wa"  -> WriteStorage(ev)
      [] ev.o = "bo"  -> OpenBatch(ev.n) /\ Judge(Answer(ev))
      [] ev.o = "ba"  -> AttachBatch(ev.t, ev.xs) /\ Judge(Answer(ev))
      [] ev.o = "bc"  -> Closing(ev)
      [] ev.o = "ho"  -> IF ev.e = 0 THEN Creating([ev EXCEPT !.v = <<>>], HoldNew) ELSE Hold(ev.e) /\ Judge(Answer(ev))
      [] ev.o = "ha"  -> /\ Attach(hnd.lo, ev.t, ev.x) /\ Judge(Answer(ev))
      [] ev.o = "hd"  -> /\ Detach(hnd.lo, ev.t) /\ Judge(Answer(ev))
      [] ev.o = "hw"  -> /\ Write(hnd.lo, ev.t, ev.x) /\ Judge(Answer(ev))
      [] ev.o = "hx"  -> /\ Release /\ Judge({})   \* the handle was consumed by a refused call
      [] ev.o = "hc"  -> /\ Release
                          /\ Judge(Answer(ev) \cup If(Len(ev.v) = 1 /\ ev.v[1] \in alive \ {hnd.lo}, "id"))
      [] ev.o = "mg"  -> MakeGroup(ev.g) /\ Judge(Answer(ev))
      [] ev.o = "rr"  -> RegisterResource(ev.t, ev.x) /\ Judge(Answer(ev))
      [] ev.o = "rw"  -> WriteResource(ev.t, ev.x) /\ Judge(Answer(ev))
      [] ev.o = "rg"  -> ReadRes(ev)
      [] ev.o = "hr"  -> Registered(ev)
      [] ev.o \in {"ex", "xe"} -> Existence(ev)
      [] ev.o = "cr"  -> ReadOne(ev)
      [] ev.o = "sl"  -> ReadSlice(ev)
      [] ev.o = "rd"  -> ReadAll(ev)
      [] ev.o = "lay" -> Layout(ev)
      [] ev.o = "lk"  -> Unlocked(ev)
      [] ev.o = "q"   -> Query(ev)
      [] ev.o = "qw"  -> QueryWrite(ev)
      [] ev.o = "qf"  -> FromIdWrite(ev)
      [] ev.o = "it"  -> Script(ev)
      [] ev.o \in {"cyn", "cyb", "cyd", "cyq"} -> Cycles(ev)
      [] ev.o = "o2"  -> UNCHANGED vars   \* something done to another world: none of this one's business
      [] ev.o = "fg"  -> Looks(ev, If(ev.k # "ok", "kind"))   \* groups over types that are not looked at
      [] ev.o = "mv"  -> Looks(ev, If(ev.k # "ok", "kind"))   \* moved in memory
      [] ev.o = "dw"  -> DropWorld /\ Judge(Answer(ev))

TraceInit == Init /\ tr \in 1..Len(Traces) /\ l = 1
TraceNext ==
    /\ l <= Len(Traces[tr].ev)
    /\ Step(Traces[tr].ev[l])
    /\ l' = l + 1
    /\ tr' = tr
TraceSpec == TraceInit /\ [][TraceNext]_tvars
\* What every state of every recorded run must satisfy besides.
TraceInv == TypeOK /\ NoGhosts /\ HeldAlive
=============================================================================
