----------------------------- MODULE GroupProof -----------------------------
(***************************************************************************)
(* Two storages and a full-owning group over them, for any number of       *)
(* entities: what XecsImpl says about sparse sets (ids and values side by  *)
(* side, removal by swapping the last one in) and the packed prefix, step  *)
(* by step in the order of the code.  TLC checks this up to MaxId; here    *)
(* tlapm proves without bounds that each storage gives every entity its    *)
(* own value (C03), and that between calls the first g places of both      *)
(* storages hold the same entities in the same order, exactly those that   *)
(* have both components (C08, C19), whether the group was there first or   *)
(* is made later (C09).                                                    *)
(***************************************************************************)
EXTENDS Integers, TLAPS

CONSTANT Val

VARIABLES
    ha, pa, da, na, xa, va,  \* a storage: who has one (a set), place of each, ids and number of places, values; va: the value of each
    hb, pb, db, nb, xb, vb,
    made, g,                 \* is there a group, and its length
    pc, cur, tgt, i          \* in the middle of which call, for which entity, from which storages it goes; where make() is

varsA == <<ha, pa, da, na, xa, va>>
varsB == <<hb, pb, db, nb, xb, vb>>
vars == <<varsA, varsB, made, g, pc, cur, tgt, i>>

\* A storage is in order.
Con(h, p, d, n, x, v) ==
    /\ \A j \in Nat : j < n => d[j] \in h /\ p[d[j]] = j
    /\ \A e \in h : p[e] < n /\ d[p[e]] = e /\ x[p[e]] = v[e]
Typ(h, p, d, n, x, v) ==
    /\ h \in SUBSET Nat /\ p \in [Nat -> Nat] /\ d \in [Nat -> Nat] /\ n \in Nat
    /\ x \in [Nat -> Val] /\ v \in [Nat -> Val]
\* swap_by_index()
Swapped(s, j, k) == [[s EXCEPT ![j] = s[k]] EXCEPT ![k] = s[j]]
Places(p, d, j, k) == [[p EXCEPT ![d[j]] = k] EXCEPT ![d[k]] = j]
SwapA(j, k) == da' = Swapped(da, j, k) /\ xa' = Swapped(xa, j, k) /\ pa' = Places(pa, da, j, k) /\ UNCHANGED <<ha, na, va>>
SwapB(j, k) == db' = Swapped(db, j, k) /\ xb' = Swapped(xb, j, k) /\ pb' = Places(pb, db, j, k) /\ UNCHANGED <<hb, nb, vb>>
\* remove()
DropA(e) ==
    /\ ha' = ha \ {e} /\ na' = na - 1
    /\ pa' = [pa EXCEPT ![da[na - 1]] = pa[e]]
    /\ da' = [da EXCEPT ![pa[e]] = da[na - 1]]
    /\ xa' = [xa EXCEPT ![pa[e]] = xa[na - 1]]
    /\ va' = va
DropB(e) ==
    /\ hb' = hb \ {e} /\ nb' = nb - 1
    /\ pb' = [pb EXCEPT ![db[nb - 1]] = pb[e]]
    /\ db' = [db EXCEPT ![pb[e]] = db[nb - 1]]
    /\ xb' = [xb EXCEPT ![pb[e]] = xb[nb - 1]]
    /\ vb' = vb
\* add()
PutA(e, w) ==
    /\ va' = [va EXCEPT ![e] = w]
    /\ IF e \in ha THEN xa' = [xa EXCEPT ![pa[e]] = w] /\ UNCHANGED <<ha, pa, da, na>>
       ELSE /\ ha' = ha \cup {e} /\ na' = na + 1
            /\ pa' = [pa EXCEPT ![e] = na] /\ da' = [da EXCEPT ![na] = e] /\ xa' = [xa EXCEPT ![na] = w]
PutB(e, w) ==
    /\ vb' = [vb EXCEPT ![e] = w]
    /\ IF e \in hb THEN xb' = [xb EXCEPT ![pb[e]] = w] /\ UNCHANGED <<hb, pb, db, nb>>
       ELSE /\ hb' = hb \cup {e} /\ nb' = nb + 1
            /\ pb' = [pb EXCEPT ![e] = nb] /\ db' = [db EXCEPT ![nb] = e] /\ xb' = [xb EXCEPT ![nb] = w]

InGroup(e) == e \in ha /\ e \in hb /\ pa[e] < g /\ pb[e] < g

\* attach: the value goes in, then the group sees whether the entity is a member now
AttachA(e, w) == /\ pc = "idle" /\ PutA(e, w) /\ UNCHANGED varsB
                 /\ pc' = (IF made THEN "come" ELSE "idle") /\ cur' = e /\ UNCHANGED <<made, g, tgt, i>>
AttachB(e, w) == /\ pc = "idle" /\ PutB(e, w) /\ UNCHANGED varsA
                 /\ pc' = (IF made THEN "come" ELSE "idle") /\ cur' = e /\ UNCHANGED <<made, g, tgt, i>>
Come == /\ pc = "come"
        /\ IF cur \in ha /\ cur \in hb /\ ~InGroup(cur) THEN SwapA(pa[cur], g) /\ pc' = "come2"
           ELSE pc' = "idle" /\ UNCHANGED varsA
        /\ UNCHANGED <<varsB, made, g, cur, tgt, i>>
Come2 == /\ pc = "come2" /\ SwapB(pb[cur], g) /\ g' = g + 1 /\ pc' = "idle"
         /\ UNCHANGED <<varsA, made, cur, tgt, i>>
\* detach, or removal of the entity: the group lets it go, then the storages
Leave(e, T) ==
    /\ pc = "idle" /\ ("A" \in T => e \in ha) /\ ("B" \in T => e \in hb) /\ T \in SUBSET {"A", "B"}
    /\ cur' = e /\ tgt' = T
    /\ IF made /\ T # {} /\ InGroup(e) THEN g' = g - 1 /\ SwapA(pa[e], g - 1) /\ pc' = "go"
       ELSE pc' = "gone" /\ g' = g /\ UNCHANGED varsA
    /\ UNCHANGED <<varsB, made, i>>
Go == /\ pc = "go" /\ SwapB(pb[cur], g) /\ pc' = "gone"
      /\ UNCHANGED <<varsA, made, g, cur, tgt, i>>
Gone == /\ pc = "gone" /\ pc' = "goneb"
        /\ IF "A" \in tgt THEN DropA(cur) ELSE UNCHANGED varsA
        /\ UNCHANGED <<varsB, made, g, cur, tgt, i>>
GoneB == /\ pc = "goneb" /\ pc' = "idle"
         /\ IF "B" \in tgt THEN DropB(cur) ELSE UNCHANGED varsB
         /\ UNCHANGED <<varsA, made, g, cur, tgt, i>>
\* make_group: over one of the storages
MakeA == /\ pc = "idle" /\ ~made /\ pc' = "overa" /\ i' = 0 /\ UNCHANGED <<varsA, varsB, made, g, cur, tgt>>
MakeB == /\ pc = "idle" /\ ~made /\ pc' = "overb" /\ i' = 0 /\ UNCHANGED <<varsA, varsB, made, g, cur, tgt>>
OverA == /\ pc = "overa"
         /\ IF i < na
            THEN /\ i' = i + 1 /\ pc' = pc /\ made' = made
                 /\ IF da[i] \in hb THEN SwapA(i, g) /\ SwapB(pb[da[i]], g) /\ g' = g + 1
                    ELSE UNCHANGED <<varsA, varsB, g>>
            ELSE pc' = "idle" /\ made' = TRUE /\ UNCHANGED <<varsA, varsB, g, i>>
         /\ UNCHANGED <<cur, tgt>>
OverB == /\ pc = "overb"
         /\ IF i < nb
            THEN /\ i' = i + 1 /\ pc' = pc /\ made' = made
                 /\ IF db[i] \in ha THEN SwapA(pa[db[i]], g) /\ SwapB(i, g) /\ g' = g + 1
                    ELSE UNCHANGED <<varsA, varsB, g>>
            ELSE pc' = "idle" /\ made' = TRUE /\ UNCHANGED <<varsA, varsB, g, i>>
         /\ UNCHANGED <<cur, tgt>>

Init == /\ ha = {} /\ na = 0 /\ hb = {} /\ nb = 0
        /\ Typ(ha, pa, da, na, xa, va) /\ Typ(hb, pb, db, nb, xb, vb)
        /\ made = FALSE /\ g = 0 /\ pc = "idle" /\ cur = 0 /\ tgt = {} /\ i = 0
Next == \/ \E e \in Nat : \E w \in Val : AttachA(e, w) \/ AttachB(e, w)
        \/ Come \/ Come2
        \/ \E e \in Nat : \E T \in SUBSET {"A", "B"} : Leave(e, T)
        \/ Go \/ Gone \/ GoneB
        \/ MakeA \/ MakeB \/ OverA \/ OverB
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
States == {"idle", "come", "come2", "go", "gone", "goneb", "overa", "overb"}
TypeOK ==
    /\ Typ(ha, pa, da, na, xa, va) /\ Typ(hb, pb, db, nb, xb, vb)
    /\ made \in BOOLEAN /\ g \in Nat /\ pc \in States /\ cur \in Nat /\ tgt \in SUBSET {"A", "B"} /\ i \in Nat
ConA == Con(ha, pa, da, na, xa, va)
ConB == Con(hb, pb, db, nb, xb, vb)
Prefix == g <= na /\ g <= nb /\ \A j \in Nat : j < g => da[j] = db[j]
\* Who has both is within the prefix, but for e.
But(e) == \A m \in ha : m \in hb /\ m # e => pa[m] < g
Whole == \A m \in ha : m \in hb => pa[m] < g
At(c) ==
    CASE c = "idle" -> Prefix /\ (made => Whole)
      [] c = "come" -> made /\ Prefix /\ But(cur)
      [] c = "come2" -> made /\ Prefix /\ But(cur) /\ cur \in ha /\ cur \in hb /\ pa[cur] = g /\ pb[cur] >= g
      [] c = "go" -> /\ made /\ But(cur) /\ cur \in ha /\ cur \in hb /\ tgt # {}
                     /\ g < na /\ g < nb /\ pa[cur] = g /\ pb[cur] <= g
                     /\ \A j \in Nat : j < g => (IF j = pb[cur] THEN da[j] = db[g] ELSE da[j] = db[j])
      [] c = "gone" -> /\ Prefix /\ ("A" \in tgt => cur \in ha) /\ ("B" \in tgt => cur \in hb)
                       /\ (made => But(cur)) /\ (made /\ tgt = {} => Whole)
                       /\ (tgt # {} => (cur \in ha => pa[cur] >= g) /\ (cur \in hb => pb[cur] >= g))
      [] c = "goneb" -> /\ Prefix /\ ("B" \in tgt => cur \in hb) /\ (made => But(cur))
                        /\ (made /\ ~("B" \in tgt) => Whole)
                        /\ ("B" \in tgt => pb[cur] >= g)
      [] c = "overa" -> ~made /\ Prefix /\ i <= na /\ g <= i /\ \A m \in ha : m \in hb /\ pa[m] < i => pa[m] < g
      [] c = "overb" -> ~made /\ Prefix /\ i <= nb /\ g <= i /\ \A m \in ha : m \in hb /\ pb[m] < i => pb[m] < g
Inv == TypeOK /\ ConA /\ ConB /\ At(pc) /\ (~made /\ ~(pc \in {"overa", "overb"}) => g = 0)

---------------------------------------------------------------------------
(* One storage *)

LEMMA SwapKeeps ==
    ASSUME NEW h, NEW p, NEW d, NEW n, NEW x, NEW v, Typ(h, p, d, n, x, v), Con(h, p, d, n, x, v),
           NEW j \in Nat, NEW k \in Nat, j < n, k < n
    PROVE  /\ Typ(h, Places(p, d, j, k), Swapped(d, j, k), n, Swapped(x, j, k), v)
           /\ Con(h, Places(p, d, j, k), Swapped(d, j, k), n, Swapped(x, j, k), v)
  <1> DEFINE p2 == Places(p, d, j, k)
             d2 == Swapped(d, j, k)
             x2 == Swapped(x, j, k)
  <1>0. d[j] \in h /\ d[k] \in h /\ p[d[j]] = j /\ p[d[k]] = k /\ d[j] \in Nat /\ d[k] \in Nat BY DEF Typ, Con
  <1>1. Typ(h, p2, d2, n, x2, v) BY <1>0 DEF Typ, Places, Swapped
  <1>2. \A m \in Nat : d2[m] = IF m = k THEN d[j] ELSE IF m = j THEN d[k] ELSE d[m] BY DEF Typ, Swapped
  <1>3. \A m \in Nat : x2[m] = IF m = k THEN x[j] ELSE IF m = j THEN x[k] ELSE x[m] BY DEF Typ, Swapped
  <1>4. \A e \in Nat : p2[e] = IF e = d[k] THEN j ELSE IF e = d[j] THEN k ELSE p[e] BY <1>0 DEF Typ, Places
  <1>5. \A m \in Nat : m < n => d2[m] \in h /\ p2[d2[m]] = m BY <1>0, <1>2, <1>4 DEF Typ, Con
  <1>6. \A e \in h : p2[e] < n /\ d2[p2[e]] = e /\ x2[p2[e]] = v[e] BY <1>0, <1>2, <1>3, <1>4 DEF Typ, Con
  <1> QED BY <1>1, <1>5, <1>6 DEF Con

LEMMA DropKeeps ==
    ASSUME NEW h, NEW p, NEW d, NEW n, NEW x, NEW v, Typ(h, p, d, n, x, v), Con(h, p, d, n, x, v), NEW e \in h
    PROVE  /\ n > 0 /\ n - 1 \in Nat /\ d[n - 1] \in h /\ p[d[n - 1]] = n - 1
           /\ Typ(h \ {e}, [p EXCEPT ![d[n - 1]] = p[e]], [d EXCEPT ![p[e]] = d[n - 1]], n - 1, [x EXCEPT ![p[e]] = x[n - 1]], v)
           /\ Con(h \ {e}, [p EXCEPT ![d[n - 1]] = p[e]], [d EXCEPT ![p[e]] = d[n - 1]], n - 1, [x EXCEPT ![p[e]] = x[n - 1]], v)
  <1> DEFINE p2 == [p EXCEPT ![d[n - 1]] = p[e]]
             d2 == [d EXCEPT ![p[e]] = d[n - 1]]
             x2 == [x EXCEPT ![p[e]] = x[n - 1]]
  <1>0. e \in Nat /\ p[e] \in Nat /\ p[e] < n /\ d[p[e]] = e /\ n > 0 /\ n - 1 \in Nat BY DEF Typ, Con
  <1>00. d[n - 1] \in h /\ p[d[n - 1]] = n - 1 /\ d[n - 1] \in Nat BY <1>0 DEF Typ, Con
  <1>1. Typ(h \ {e}, p2, d2, n - 1, x2, v) BY <1>0, <1>00 DEF Typ
  <1>2. \A m \in Nat : d2[m] = IF m = p[e] THEN d[n - 1] ELSE d[m] BY <1>0 DEF Typ
  <1>3. \A m \in Nat : x2[m] = IF m = p[e] THEN x[n - 1] ELSE x[m] BY <1>0 DEF Typ
  <1>4. \A m \in Nat : p2[m] = IF m = d[n - 1] THEN p[e] ELSE p[m] BY <1>00 DEF Typ
  <1>5. \A m \in Nat : m < n - 1 => d2[m] \in h \ {e} /\ p2[d2[m]] = m BY <1>0, <1>00, <1>2, <1>4 DEF Typ, Con
  <1>6. \A m \in h \ {e} : p2[m] < n - 1 /\ d2[p2[m]] = m /\ x2[p2[m]] = v[m]
    <2> TAKE m \in h \ {e}
    <2>1. m \in Nat /\ p[m] \in Nat /\ p[m] < n /\ d[p[m]] = m /\ x[p[m]] = v[m] /\ p[m] # p[e] BY <1>0 DEF Typ, Con
    <2>2. CASE m = d[n - 1] BY <2>1, <2>2, <1>0, <1>00, <1>2, <1>3, <1>4 DEF Typ
    <2>3. CASE m # d[n - 1]
      <3>1. p[m] # n - 1 BY <2>1, <2>3
      <3> QED BY <2>1, <2>3, <3>1, <1>0, <1>00, <1>2, <1>3, <1>4 DEF Typ
    <2> QED BY <2>2, <2>3
  <1> QED BY <1>0, <1>00, <1>1, <1>5, <1>6 DEF Con

LEMMA PushKeeps ==
    ASSUME NEW h, NEW p, NEW d, NEW n, NEW x, NEW v, Typ(h, p, d, n, x, v), Con(h, p, d, n, x, v),
           NEW e \in Nat, e \notin h, NEW w \in Val
    PROVE  /\ Typ(h \cup {e}, [p EXCEPT ![e] = n], [d EXCEPT ![n] = e], n + 1, [x EXCEPT ![n] = w], [v EXCEPT ![e] = w])
           /\ Con(h \cup {e}, [p EXCEPT ![e] = n], [d EXCEPT ![n] = e], n + 1, [x EXCEPT ![n] = w], [v EXCEPT ![e] = w])
  <1> DEFINE p2 == [p EXCEPT ![e] = n]
             d2 == [d EXCEPT ![n] = e]
             x2 == [x EXCEPT ![n] = w]
             v2 == [v EXCEPT ![e] = w]
  <1>1. Typ(h \cup {e}, p2, d2, n + 1, x2, v2) BY DEF Typ
  <1>2. \A m \in Nat : d2[m] = IF m = n THEN e ELSE d[m] BY DEF Typ
  <1>3. \A m \in Nat : x2[m] = IF m = n THEN w ELSE x[m] BY DEF Typ
  <1>4. \A m \in Nat : p2[m] = IF m = e THEN n ELSE p[m] BY DEF Typ
  <1>5. \A m \in Nat : v2[m] = IF m = e THEN w ELSE v[m] BY DEF Typ
  <1>6. \A m \in Nat : m < n + 1 => d2[m] \in h \cup {e} /\ p2[d2[m]] = m
    <2> SUFFICES ASSUME NEW m \in Nat, m < n + 1 PROVE d2[m] \in h \cup {e} /\ p2[d2[m]] = m OBVIOUS
    <2>1. CASE m = n BY <2>1, <1>2, <1>4
    <2>2. CASE m # n
      <3>1. m < n /\ d[m] \in h /\ p[d[m]] = m /\ d[m] # e /\ d[m] \in Nat BY <2>2 DEF Typ, Con
      <3> QED BY <3>1, <2>2, <1>2, <1>4
    <2> QED BY <2>1, <2>2
  <1>7. \A m \in h \cup {e} : p2[m] < n + 1 /\ d2[p2[m]] = m /\ x2[p2[m]] = v2[m]
    <2> SUFFICES ASSUME NEW m \in h \cup {e} PROVE p2[m] < n + 1 /\ d2[p2[m]] = m /\ x2[p2[m]] = v2[m] OBVIOUS
    <2>0. n \in Nat /\ m \in Nat BY DEF Typ
    <2>1. CASE m = e BY <2>0, <2>1, <1>2, <1>3, <1>4, <1>5
    <2>2. CASE m # e
      <3>1. m \in h /\ p[m] \in Nat /\ p[m] < n /\ d[p[m]] = m /\ x[p[m]] = v[m] BY <2>2 DEF Typ, Con
      <3> QED BY <2>0, <2>2, <3>1, <1>2, <1>3, <1>4, <1>5
    <2> QED BY <2>1, <2>2
  <1> QED BY <1>1, <1>6, <1>7 DEF Con

LEMMA OverKeeps ==
    ASSUME NEW h, NEW p, NEW d, NEW n, NEW x, NEW v, Typ(h, p, d, n, x, v), Con(h, p, d, n, x, v),
           NEW e \in h, NEW w \in Val
    PROVE  /\ Typ(h, p, d, n, [x EXCEPT ![p[e]] = w], [v EXCEPT ![e] = w])
           /\ Con(h, p, d, n, [x EXCEPT ![p[e]] = w], [v EXCEPT ![e] = w])
  BY DEF Typ, Con

---------------------------------------------------------------------------
(* The steps *)

Rest == made \in BOOLEAN /\ g \in Nat /\ pc \in States /\ cur \in Nat /\ tgt \in SUBSET {"A", "B"} /\ i \in Nat
TA == Typ(ha, pa, da, na, xa, va)
TB == Typ(hb, pb, db, nb, xb, vb)
OkA == TA /\ ConA
OkB == TB /\ ConB
Zero == ~made /\ ~(pc \in {"overa", "overb"}) => g = 0

LEMMA SameA == ASSUME OkA, UNCHANGED varsA PROVE OkA' BY DEF OkA, TA, ConA, varsA
LEMMA SameB == ASSUME OkB, UNCHANGED varsB PROVE OkB' BY DEF OkB, TB, ConB, varsB

LEMMA SwapAOk ==
    ASSUME OkA, NEW j \in Nat, NEW k \in Nat, j < na, k < na, SwapA(j, k)
    PROVE  /\ OkA' /\ ha' = ha /\ na' = na
           /\ \A m \in Nat : da'[m] = IF m = k THEN da[j] ELSE IF m = j THEN da[k] ELSE da[m]
           /\ \A e \in Nat : pa'[e] = IF e = da[k] THEN j ELSE IF e = da[j] THEN k ELSE pa[e]
  <1>1. OkA'
    <2> USE DEF OkA, TA, ConA
    <2>1. ha' = ha /\ na' = na /\ va' = va /\ pa' = Places(pa, da, j, k) /\ da' = Swapped(da, j, k) /\ xa' = Swapped(xa, j, k)
      BY DEF SwapA
    <2> HIDE DEF OkA, TA, ConA
    <2>2. Typ(ha, pa, da, na, xa, va) /\ Con(ha, pa, da, na, xa, va) BY DEF OkA, TA, ConA
    <2>3. /\ Typ(ha, Places(pa, da, j, k), Swapped(da, j, k), na, Swapped(xa, j, k), va)
          /\ Con(ha, Places(pa, da, j, k), Swapped(da, j, k), na, Swapped(xa, j, k), va) BY <2>2, SwapKeeps
    <2>4. Typ(ha', pa', da', na', xa', va') /\ Con(ha', pa', da', na', xa', va') BY <2>1, <2>3
    <2> QED BY <2>4 DEF OkA, TA, ConA
  <1>2. da[j] \in Nat /\ da[k] \in Nat /\ pa \in [Nat -> Nat] /\ da \in [Nat -> Nat] BY DEF OkA, TA, Typ
  <1> QED BY <1>1, <1>2 DEF SwapA, Swapped, Places
LEMMA SwapBOk ==
    ASSUME OkB, NEW j \in Nat, NEW k \in Nat, j < nb, k < nb, SwapB(j, k)
    PROVE  /\ OkB' /\ hb' = hb /\ nb' = nb
           /\ \A m \in Nat : db'[m] = IF m = k THEN db[j] ELSE IF m = j THEN db[k] ELSE db[m]
           /\ \A e \in Nat : pb'[e] = IF e = db[k] THEN j ELSE IF e = db[j] THEN k ELSE pb[e]
  <1>1. OkB'
    <2>1. hb' = hb /\ nb' = nb /\ vb' = vb /\ pb' = Places(pb, db, j, k) /\ db' = Swapped(db, j, k) /\ xb' = Swapped(xb, j, k)
      BY DEF SwapB
    <2>2. Typ(hb, pb, db, nb, xb, vb) /\ Con(hb, pb, db, nb, xb, vb) BY DEF OkB, TB, ConB
    <2>3. /\ Typ(hb, Places(pb, db, j, k), Swapped(db, j, k), nb, Swapped(xb, j, k), vb)
          /\ Con(hb, Places(pb, db, j, k), Swapped(db, j, k), nb, Swapped(xb, j, k), vb) BY <2>2, SwapKeeps
    <2>4. Typ(hb', pb', db', nb', xb', vb') /\ Con(hb', pb', db', nb', xb', vb') BY <2>1, <2>3
    <2> QED BY <2>4 DEF OkB, TB, ConB
  <1>2. db[j] \in Nat /\ db[k] \in Nat /\ pb \in [Nat -> Nat] /\ db \in [Nat -> Nat] BY DEF OkB, TB, Typ
  <1> QED BY <1>1, <1>2 DEF SwapB, Swapped, Places

LEMMA DropAOk ==
    ASSUME OkA, NEW e \in ha, DropA(e)
    PROVE  /\ OkA' /\ ha' = ha \ {e} /\ na' = na - 1 /\ na > 0
           /\ da[na - 1] \in ha /\ pa[da[na - 1]] = na - 1
           /\ \A m \in Nat : da'[m] = IF m = pa[e] THEN da[na - 1] ELSE da[m]
           /\ \A m \in Nat : pa'[m] = IF m = da[na - 1] THEN pa[e] ELSE pa[m]
  <1>1. Typ(ha, pa, da, na, xa, va) /\ Con(ha, pa, da, na, xa, va) BY DEF OkA, TA, ConA
  <1>2. /\ na > 0 /\ na - 1 \in Nat /\ da[na - 1] \in ha /\ pa[da[na - 1]] = na - 1
        /\ Typ(ha \ {e}, [pa EXCEPT ![da[na - 1]] = pa[e]], [da EXCEPT ![pa[e]] = da[na - 1]], na - 1, [xa EXCEPT ![pa[e]] = xa[na - 1]], va)
        /\ Con(ha \ {e}, [pa EXCEPT ![da[na - 1]] = pa[e]], [da EXCEPT ![pa[e]] = da[na - 1]], na - 1, [xa EXCEPT ![pa[e]] = xa[na - 1]], va)
    BY <1>1, DropKeeps
  <1>3. Typ(ha', pa', da', na', xa', va') /\ Con(ha', pa', da', na', xa', va') BY <1>2 DEF DropA
  <1>4. OkA' BY <1>3 DEF OkA, TA, ConA
  <1>5. pa \in [Nat -> Nat] /\ da \in [Nat -> Nat] /\ ha \in SUBSET Nat BY <1>1 DEF Typ
  <1> QED BY <1>2, <1>4, <1>5 DEF DropA
LEMMA DropBOk ==
    ASSUME OkB, NEW e \in hb, DropB(e)
    PROVE  /\ OkB' /\ hb' = hb \ {e} /\ nb' = nb - 1 /\ nb > 0
           /\ db[nb - 1] \in hb /\ pb[db[nb - 1]] = nb - 1
           /\ \A m \in Nat : db'[m] = IF m = pb[e] THEN db[nb - 1] ELSE db[m]
           /\ \A m \in Nat : pb'[m] = IF m = db[nb - 1] THEN pb[e] ELSE pb[m]
  <1>1. Typ(hb, pb, db, nb, xb, vb) /\ Con(hb, pb, db, nb, xb, vb) BY DEF OkB, TB, ConB
  <1>2. /\ nb > 0 /\ nb - 1 \in Nat /\ db[nb - 1] \in hb /\ pb[db[nb - 1]] = nb - 1
        /\ Typ(hb \ {e}, [pb EXCEPT ![db[nb - 1]] = pb[e]], [db EXCEPT ![pb[e]] = db[nb - 1]], nb - 1, [xb EXCEPT ![pb[e]] = xb[nb - 1]], vb)
        /\ Con(hb \ {e}, [pb EXCEPT ![db[nb - 1]] = pb[e]], [db EXCEPT ![pb[e]] = db[nb - 1]], nb - 1, [xb EXCEPT ![pb[e]] = xb[nb - 1]], vb)
    BY <1>1, DropKeeps
  <1>3. Typ(hb', pb', db', nb', xb', vb') /\ Con(hb', pb', db', nb', xb', vb') BY <1>2 DEF DropB
  <1>4. OkB' BY <1>3 DEF OkB, TB, ConB
  <1>5. pb \in [Nat -> Nat] /\ db \in [Nat -> Nat] /\ hb \in SUBSET Nat BY <1>1 DEF Typ
  <1> QED BY <1>2, <1>4, <1>5 DEF DropB

LEMMA PutAOk ==
    ASSUME OkA, NEW e \in Nat, NEW w \in Val, PutA(e, w)
    PROVE  /\ OkA' /\ ha' = ha \cup {e} /\ na' >= na
           /\ \A m \in Nat : m < na => da'[m] = da[m]
           /\ \A m \in ha : pa'[m] = pa[m]
           /\ e \notin ha => pa'[e] = na /\ na' = na + 1
           /\ e \in ha => UNCHANGED <<ha, pa, da, na>>
  <1>1. Typ(ha, pa, da, na, xa, va) /\ Con(ha, pa, da, na, xa, va) BY DEF OkA, TA, ConA
  <1>5. pa \in [Nat -> Nat] /\ da \in [Nat -> Nat] /\ ha \in SUBSET Nat /\ na \in Nat BY <1>1 DEF Typ
  <1>2. CASE e \in ha
    <2>1. Typ(ha, pa, da, na, [xa EXCEPT ![pa[e]] = w], [va EXCEPT ![e] = w]) /\ Con(ha, pa, da, na, [xa EXCEPT ![pa[e]] = w], [va EXCEPT ![e] = w])
      BY <1>1, <1>2, OverKeeps
    <2>2. Typ(ha', pa', da', na', xa', va') /\ Con(ha', pa', da', na', xa', va') BY <2>1, <1>2 DEF PutA
    <2>3. OkA' BY <2>2 DEF OkA, TA, ConA
    <2> QED BY <2>3, <1>2, <1>5 DEF PutA
  <1>3. CASE e \notin ha
    <2>1. /\ Typ(ha \cup {e}, [pa EXCEPT ![e] = na], [da EXCEPT ![na] = e], na + 1, [xa EXCEPT ![na] = w], [va EXCEPT ![e] = w])
          /\ Con(ha \cup {e}, [pa EXCEPT ![e] = na], [da EXCEPT ![na] = e], na + 1, [xa EXCEPT ![na] = w], [va EXCEPT ![e] = w])
      BY <1>1, <1>3, PushKeeps
    <2>2. Typ(ha', pa', da', na', xa', va') /\ Con(ha', pa', da', na', xa', va') BY <2>1, <1>3 DEF PutA
    <2>3. OkA' BY <2>2 DEF OkA, TA, ConA
    <2> QED BY <2>3, <1>3, <1>5 DEF PutA
  <1> QED BY <1>2, <1>3
LEMMA PutBOk ==
    ASSUME OkB, NEW e \in Nat, NEW w \in Val, PutB(e, w)
    PROVE  /\ OkB' /\ hb' = hb \cup {e} /\ nb' >= nb
           /\ \A m \in Nat : m < nb => db'[m] = db[m]
           /\ \A m \in hb : pb'[m] = pb[m]
           /\ e \notin hb => pb'[e] = nb /\ nb' = nb + 1
           /\ e \in hb => UNCHANGED <<hb, pb, db, nb>>
  <1>1. Typ(hb, pb, db, nb, xb, vb) /\ Con(hb, pb, db, nb, xb, vb) BY DEF OkB, TB, ConB
  <1>5. pb \in [Nat -> Nat] /\ db \in [Nat -> Nat] /\ hb \in SUBSET Nat /\ nb \in Nat BY <1>1 DEF Typ
  <1>2. CASE e \in hb
    <2>1. Typ(hb, pb, db, nb, [xb EXCEPT ![pb[e]] = w], [vb EXCEPT ![e] = w]) /\ Con(hb, pb, db, nb, [xb EXCEPT ![pb[e]] = w], [vb EXCEPT ![e] = w])
      BY <1>1, <1>2, OverKeeps
    <2>2. Typ(hb', pb', db', nb', xb', vb') /\ Con(hb', pb', db', nb', xb', vb') BY <2>1, <1>2 DEF PutB
    <2>3. OkB' BY <2>2 DEF OkB, TB, ConB
    <2> QED BY <2>3, <1>2, <1>5 DEF PutB
  <1>3. CASE e \notin hb
    <2>1. /\ Typ(hb \cup {e}, [pb EXCEPT ![e] = nb], [db EXCEPT ![nb] = e], nb + 1, [xb EXCEPT ![nb] = w], [vb EXCEPT ![e] = w])
          /\ Con(hb \cup {e}, [pb EXCEPT ![e] = nb], [db EXCEPT ![nb] = e], nb + 1, [xb EXCEPT ![nb] = w], [vb EXCEPT ![e] = w])
      BY <1>1, <1>3, PushKeeps
    <2>2. Typ(hb', pb', db', nb', xb', vb') /\ Con(hb', pb', db', nb', xb', vb') BY <2>1, <1>3 DEF PutB
    <2>3. OkB' BY <2>2 DEF OkB, TB, ConB
    <2> QED BY <2>3, <1>3, <1>5 DEF PutB
  <1> QED BY <1>2, <1>3

\* What the storages' order means, for use below.
LEMMA FactsA == ASSUME OkA PROVE /\ na \in Nat /\ ha \in SUBSET Nat
                                 /\ \A m \in ha : m \in Nat /\ pa[m] \in Nat /\ pa[m] < na /\ da[pa[m]] = m
                                 /\ \A j \in Nat : j < na => da[j] \in ha /\ pa[da[j]] = j
  BY DEF OkA, TA, ConA, Typ, Con
LEMMA FactsB == ASSUME OkB PROVE /\ nb \in Nat /\ hb \in SUBSET Nat
                                 /\ \A m \in hb : m \in Nat /\ pb[m] \in Nat /\ pb[m] < nb /\ db[pb[m]] = m
                                 /\ \A j \in Nat : j < nb => db[j] \in hb /\ pb[db[j]] = j
  BY DEF OkB, TB, ConB, Typ, Con
\* In the prefix of one, in the prefix of the other, at the same place.
LEMMA Both == ASSUME OkA, OkB, Prefix, g \in Nat
              PROVE  /\ \A m \in ha : pa[m] < g => m \in hb /\ pb[m] = pa[m]
                     /\ \A m \in hb : pb[m] < g => m \in ha /\ pa[m] = pb[m]
  BY FactsA, FactsB DEF Prefix

Good == OkA /\ OkB /\ Rest /\ At(pc) /\ Zero
Facts == /\ na \in Nat /\ ha \in SUBSET Nat
         /\ \A m \in ha : m \in Nat /\ pa[m] \in Nat /\ pa[m] < na /\ da[pa[m]] = m
         /\ \A j \in Nat : j < na => da[j] \in ha /\ pa[da[j]] = j
         /\ nb \in Nat /\ hb \in SUBSET Nat
         /\ \A m \in hb : m \in Nat /\ pb[m] \in Nat /\ pb[m] < nb /\ db[pb[m]] = m
         /\ \A j \in Nat : j < nb => db[j] \in hb /\ pb[db[j]] = j
LEMMA AllFacts == ASSUME OkA, OkB PROVE Facts BY FactsA, FactsB DEF Facts
Meet == /\ \A m \in ha : pa[m] < g => m \in hb /\ pb[m] = pa[m]
        /\ \A m \in hb : pb[m] < g => m \in ha /\ pa[m] = pb[m]

LEMMA StepAttachA == ASSUME Good, NEW e \in Nat, NEW w \in Val, AttachA(e, w) PROVE Good'
  <1>0. OkA /\ OkB /\ pc = "idle" /\ Rest /\ Zero /\ Prefix /\ (made => Whole) BY DEF Good, AttachA, At
  <1>1. OkA' /\ ha' = ha \cup {e} /\ na' >= na /\ (\A m \in Nat : m < na => da'[m] = da[m]) /\ (\A m \in ha : pa'[m] = pa[m])
        /\ (e \notin ha => pa'[e] = na /\ na' = na + 1)
    BY <1>0, PutAOk DEF AttachA
  <1>2. OkB' BY <1>0, SameB DEF AttachA
  <1>3. Rest' BY <1>0 DEF AttachA, Rest, States
  <1>4. UNCHANGED <<hb, pb, db, nb, made, g>> /\ cur' = e /\ pc' = (IF made THEN "come" ELSE "idle") BY DEF AttachA, varsB
  <1>5. Zero' BY <1>0, <1>4 DEF Zero
  <1>55. na' \in Nat BY <1>1 DEF OkA, OkB, TA, TB, Typ
  <1>6. Prefix'
    <2>1. Facts /\ g \in Nat BY <1>0, AllFacts DEF Rest
    <2>2. g <= na' /\ g <= nb' BY <1>0, <1>1, <1>4, <1>55, <2>1 DEF Prefix, Facts
    <2>3. ASSUME NEW j \in Nat, j < g PROVE da'[j] = db'[j]
      <3>1. j < na /\ j < nb /\ da[j] = db[j] BY <1>0, <2>1, <2>3 DEF Prefix, Facts
      <3> QED BY <3>1, <1>1, <1>4
    <2> QED BY <2>2, <2>3, <1>4 DEF Prefix
  <1>7. made => But(cur)' BY <1>0, <1>1, <1>4 DEF Whole, But
  <1>8. At(pc)' BY <1>4, <1>6, <1>7 DEF At
  <1> QED BY <1>1, <1>2, <1>3, <1>5, <1>8 DEF Good

LEMMA StepAttachB == ASSUME Good, NEW e \in Nat, NEW w \in Val, AttachB(e, w) PROVE Good'
  <1>0. OkA /\ OkB /\ pc = "idle" /\ Rest /\ Zero /\ Prefix /\ (made => Whole) BY DEF Good, AttachB, At
  <1>1. OkB' /\ hb' = hb \cup {e} /\ nb' >= nb /\ (\A m \in Nat : m < nb => db'[m] = db[m]) /\ (\A m \in hb : pb'[m] = pb[m])
    BY <1>0, PutBOk DEF AttachB
  <1>2. OkA' BY <1>0, SameA DEF AttachB
  <1>3. Rest' BY <1>0 DEF AttachB, Rest, States
  <1>4. UNCHANGED <<ha, pa, da, na, made, g>> /\ cur' = e /\ pc' = (IF made THEN "come" ELSE "idle") BY DEF AttachB, varsA
  <1>5. Zero' BY <1>0, <1>4 DEF Zero
  <1>55. nb' \in Nat BY <1>1 DEF OkA, OkB, TA, TB, Typ
  <1>6. Prefix'
    <2>1. Facts /\ g \in Nat BY <1>0, AllFacts DEF Rest
    <2>2. g <= na' /\ g <= nb' BY <1>0, <1>1, <1>4, <1>55, <2>1 DEF Prefix, Facts
    <2>3. ASSUME NEW j \in Nat, j < g PROVE da'[j] = db'[j]
      <3>1. j < na /\ j < nb /\ da[j] = db[j] BY <1>0, <2>1, <2>3 DEF Prefix, Facts
      <3> QED BY <3>1, <1>1, <1>4
    <2> QED BY <2>2, <2>3, <1>4 DEF Prefix
  <1>7. made => But(cur)' BY <1>0, <1>1, <1>4 DEF Whole, But
  <1>8. At(pc)' BY <1>4, <1>6, <1>7 DEF At
  <1> QED BY <1>1, <1>2, <1>3, <1>5, <1>8 DEF Good

LEMMA StepCome == ASSUME Good, Come PROVE Good'
  <1>0. OkA /\ OkB /\ pc = "come" /\ Rest /\ Zero /\ made /\ Prefix /\ But(cur) /\ g \in Nat /\ cur \in Nat BY DEF Good, Come, At, Rest
  <1>1. Facts BY <1>0, AllFacts
  <1>2. Meet BY <1>0, Both DEF Meet
  <1>3. OkB' /\ UNCHANGED <<hb, pb, db, nb, made, g, cur, tgt, i>> BY <1>0, SameB DEF Come, varsB
  <1>4. CASE cur \in ha /\ cur \in hb /\ ~InGroup(cur)
    <2>1. SwapA(pa[cur], g) /\ pc' = "come2" BY <1>4 DEF Come
    <2>2. pa[cur] >= g /\ pb[cur] >= g BY <1>0, <1>1, <1>2, <1>4 DEF InGroup, Meet, Facts
    <2>3. pa[cur] \in Nat /\ pa[cur] < na /\ g < na BY <1>0, <1>1, <1>4, <2>2 DEF Facts
    <2>4. /\ OkA' /\ ha' = ha /\ na' = na
          /\ \A m \in Nat : da'[m] = IF m = g THEN da[pa[cur]] ELSE IF m = pa[cur] THEN da[g] ELSE da[m]
          /\ \A e \in Nat : pa'[e] = IF e = da[g] THEN pa[cur] ELSE IF e = da[pa[cur]] THEN g ELSE pa[e]
      BY <1>0, <2>1, <2>3, SwapAOk
    <2>5. da[pa[cur]] = cur /\ da[g] \in ha /\ pa[da[g]] = g BY <1>0, <1>1, <1>4, <2>3 DEF Facts
    <2>6. Prefix' BY <1>0, <1>1, <1>3, <2>2, <2>3, <2>4 DEF Prefix, Facts
    <2>7. But(cur)' BY <1>0, <1>1, <1>3, <2>2, <2>3, <2>4, <2>5 DEF But, Facts
    <2>8. pa'[cur] = g BY <1>0, <2>4, <2>5
    <2>9. At(pc)' BY <1>0, <1>3, <1>4, <2>1, <2>2, <2>4, <2>6, <2>7, <2>8 DEF At
    <2>10. Rest' /\ Zero' BY <1>0, <1>3, <2>1 DEF Rest, Zero, States
    <2> QED BY <1>3, <2>4, <2>9, <2>10 DEF Good
  <1>5. CASE ~(cur \in ha /\ cur \in hb /\ ~InGroup(cur))
    <2>1. UNCHANGED varsA /\ pc' = "idle" BY <1>5 DEF Come
    <2>2. OkA' /\ UNCHANGED <<ha, pa, da, na>> BY <1>0, <2>1, SameA DEF varsA
    <2>3. Whole BY <1>0, <1>5 DEF Whole, But, InGroup
    <2>4. Prefix' /\ Whole' BY <1>0, <1>3, <2>2, <2>3 DEF Prefix, Whole
    <2>5. At(pc)' BY <2>1, <2>4 DEF At
    <2>6. Rest' /\ Zero' BY <1>0, <1>3, <2>1 DEF Rest, Zero, States
    <2> QED BY <1>3, <2>2, <2>5, <2>6 DEF Good
  <1> QED BY <1>4, <1>5

LEMMA StepCome2 == ASSUME Good, Come2 PROVE Good'
  <1>0. /\ OkA /\ OkB /\ pc = "come2" /\ Rest /\ Zero /\ made /\ Prefix /\ But(cur) /\ g \in Nat /\ cur \in Nat
        /\ cur \in ha /\ cur \in hb /\ pa[cur] = g /\ pb[cur] >= g BY DEF Good, Come2, At, Rest
  <1>1. Facts BY <1>0, AllFacts
  <1>3. OkA' /\ UNCHANGED <<ha, pa, da, na, made, cur, tgt, i>> /\ g' = g + 1 /\ pc' = "idle" /\ SwapB(pb[cur], g) BY <1>0, SameA DEF Come2, varsA
  <1>4. pb[cur] \in Nat /\ pb[cur] < nb /\ g < nb /\ g < na BY <1>0, <1>1 DEF Facts
  <1>5. /\ OkB' /\ hb' = hb /\ nb' = nb
        /\ \A m \in Nat : db'[m] = IF m = g THEN db[pb[cur]] ELSE IF m = pb[cur] THEN db[g] ELSE db[m]
    BY <1>0, <1>3, <1>4, SwapBOk
  <1>6. db[pb[cur]] = cur /\ da[g] = cur BY <1>0, <1>1 DEF Facts
  <1>7. Prefix' BY <1>0, <1>1, <1>3, <1>4, <1>5, <1>6 DEF Prefix, Facts
  <1>8. Whole' BY <1>0, <1>1, <1>3, <1>5 DEF Whole, But, Facts
  <1>9. At(pc)' BY <1>3, <1>7, <1>8 DEF At
  <1>10. Rest' /\ Zero' BY <1>0, <1>3 DEF Rest, Zero, States
  <1> QED BY <1>3, <1>5, <1>9, <1>10 DEF Good

LEMMA StepLeave == ASSUME Good, NEW e \in Nat, NEW T \in SUBSET {"A", "B"}, Leave(e, T) PROVE Good'
  <1>0. /\ OkA /\ OkB /\ pc = "idle" /\ Rest /\ Zero /\ Prefix /\ (made => Whole) /\ g \in Nat
        /\ cur' = e /\ tgt' = T /\ ("A" \in T => e \in ha) /\ ("B" \in T => e \in hb) BY DEF Good, Leave, At, Rest
  <1>1. Facts BY <1>0, AllFacts
  <1>2. Meet BY <1>0, Both DEF Meet
  <1>3. OkB' /\ UNCHANGED <<hb, pb, db, nb, made, i>> BY <1>0, SameB DEF Leave, varsB
  <1>4. CASE made /\ T # {} /\ InGroup(e)
    <2>1. g' = g - 1 /\ SwapA(pa[e], g - 1) /\ pc' = "go" BY <1>4 DEF Leave
    <2>2. e \in ha /\ e \in hb /\ pa[e] \in Nat /\ pa[e] < g /\ pb[e] = pa[e] /\ g - 1 \in Nat /\ g - 1 < na /\ pa[e] < na /\ g - 1 < nb
      BY <1>0, <1>1, <1>2, <1>4 DEF InGroup, Facts, Meet, Prefix
    <2>3. /\ OkA' /\ ha' = ha /\ na' = na
          /\ \A m \in Nat : da'[m] = IF m = g - 1 THEN da[pa[e]] ELSE IF m = pa[e] THEN da[g - 1] ELSE da[m]
          /\ \A m \in Nat : pa'[m] = IF m = da[g - 1] THEN pa[e] ELSE IF m = da[pa[e]] THEN g - 1 ELSE pa[m]
      BY <1>0, <2>1, <2>2, SwapAOk
    <2>4. da[pa[e]] = e /\ da[g - 1] \in ha /\ pa[da[g - 1]] = g - 1 /\ da[g - 1] = db[g - 1] BY <1>0, <1>1, <2>2 DEF Facts, Prefix
    <2>5. pa'[e] = g - 1 BY <2>2, <2>3, <2>4
    <2>6. But(cur)' 
      <3> SUFFICES ASSUME NEW m \in ha, m \in hb, m # e PROVE pa'[m] < g - 1 BY <1>0, <1>3, <2>1, <2>3 DEF But
      <3>1. m \in Nat /\ pa[m] \in Nat /\ pa[m] < g BY <1>0, <1>1, <1>4 DEF Whole, Facts
      <3>2. CASE m = da[g - 1]
        <4>1. pa'[m] = pa[e] BY <2>3, <3>1, <3>2
        <4>2. pa[e] # g - 1 BY <2>4, <3>2
        <4> QED BY <4>1, <4>2, <2>2, <1>0
      <3>3. CASE m # da[g - 1]
        <4>1. pa'[m] = pa[m] BY <2>3, <2>4, <3>1, <3>3
        <4>2. pa[m] # g - 1 BY <1>1, <3>3 DEF Facts
        <4> QED BY <4>1, <4>2, <3>1, <1>0
      <3> QED BY <3>2, <3>3
    <2>7. \A j \in Nat : j < g - 1 => (IF j = pb[e] THEN da'[j] = db[g - 1] ELSE da'[j] = db[j])
      BY <1>0, <2>2, <2>3, <2>4 DEF Prefix
    <2>8. At(pc)' BY <1>0, <1>3, <1>4, <2>1, <2>2, <2>3, <2>5, <2>6, <2>7 DEF At
    <2>9. Rest' /\ Zero' BY <1>0, <1>3, <1>4, <2>1, <2>2 DEF Rest, Zero, States
    <2> QED BY <1>3, <2>3, <2>8, <2>9 DEF Good
  <1>5. CASE ~(made /\ T # {} /\ InGroup(e))
    <2>1. UNCHANGED varsA /\ pc' = "gone" /\ g' = g BY <1>5 DEF Leave
    <2>2. OkA' /\ UNCHANGED <<ha, pa, da, na>> BY <1>0, <2>1, SameA DEF varsA
    <2>3. Prefix' BY <1>0, <1>3, <2>1, <2>2 DEF Prefix
    <2>4. made => But(cur)' /\ Whole' BY <1>0, <1>3, <2>1, <2>2 DEF But, Whole
    <2>5. T # {} => (e \in ha => pa[e] >= g) /\ (e \in hb => pb[e] >= g)
      <3>1. CASE made
        <4> SUFFICES ASSUME T # {} PROVE (e \in ha => pa[e] >= g) /\ (e \in hb => pb[e] >= g) OBVIOUS
        <4>1. ~InGroup(e) BY <1>5, <3>1
        <4> QED BY <4>1, <1>0, <1>1, <1>2 DEF InGroup, Meet, Facts
      <3>2. CASE ~made BY <1>0, <1>1, <3>2 DEF Zero, Facts
      <3> QED BY <3>1, <3>2
    <2>6. At(pc)' BY <1>0, <1>3, <2>1, <2>2, <2>3, <2>4, <2>5 DEF At
    <2>7. Rest' /\ Zero' BY <1>0, <1>3, <2>1 DEF Rest, Zero, States
    <2> QED BY <1>3, <2>2, <2>6, <2>7 DEF Good
  <1> QED BY <1>4, <1>5

LEMMA StepGo == ASSUME Good, Go PROVE Good'
  <1>0. /\ OkA /\ OkB /\ pc = "go" /\ Rest /\ Zero /\ made /\ But(cur) /\ g \in Nat /\ cur \in Nat /\ tgt # {}
        /\ cur \in ha /\ cur \in hb /\ g < na /\ g < nb /\ pa[cur] = g /\ pb[cur] <= g
        /\ \A j \in Nat : j < g => (IF j = pb[cur] THEN da[j] = db[g] ELSE da[j] = db[j]) BY DEF Good, Go, At, Rest
  <1>1. Facts BY <1>0, AllFacts
  <1>3. OkA' /\ UNCHANGED <<ha, pa, da, na, made, g, cur, tgt, i>> /\ pc' = "gone" /\ SwapB(pb[cur], g) BY <1>0, SameA DEF Go, varsA
  <1>4. pb[cur] \in Nat /\ pb[cur] < nb /\ db[pb[cur]] = cur BY <1>0, <1>1 DEF Facts
  <1>5. /\ OkB' /\ hb' = hb /\ nb' = nb
        /\ \A m \in Nat : db'[m] = IF m = g THEN db[pb[cur]] ELSE IF m = pb[cur] THEN db[g] ELSE db[m]
        /\ \A m \in Nat : pb'[m] = IF m = db[g] THEN pb[cur] ELSE IF m = db[pb[cur]] THEN g ELSE pb[m]
    BY <1>0, <1>3, <1>4, SwapBOk
  <1>6. pb'[cur] = g
    <2>1. CASE cur = db[g] BY <2>1, <1>0, <1>1, <1>4, <1>5 DEF Facts
    <2>2. CASE cur # db[g] BY <2>2, <1>0, <1>4, <1>5
    <2> QED BY <2>1, <2>2
  <1>7. Prefix' BY <1>0, <1>1, <1>3, <1>4, <1>5 DEF Prefix, Facts
  <1>8. But(cur)' BY <1>0, <1>3, <1>5 DEF But
  <1>9. At(pc)' BY <1>0, <1>3, <1>5, <1>6, <1>7, <1>8 DEF At
  <1>10. Rest' /\ Zero' BY <1>0, <1>3 DEF Rest, Zero, States
  <1> QED BY <1>3, <1>5, <1>9, <1>10 DEF Good

LEMMA StepGone == ASSUME Good, Gone PROVE Good'
  <1>0. /\ OkA /\ OkB /\ pc = "gone" /\ Rest /\ Zero /\ Prefix /\ g \in Nat /\ cur \in Nat
        /\ ("A" \in tgt => cur \in ha) /\ ("B" \in tgt => cur \in hb) /\ (made => But(cur)) /\ (made /\ tgt = {} => Whole)
        /\ (tgt # {} => (cur \in ha => pa[cur] >= g) /\ (cur \in hb => pb[cur] >= g)) BY DEF Good, Gone, At, Rest
  <1>1. Facts BY <1>0, AllFacts
  <1>3. OkB' /\ UNCHANGED <<hb, pb, db, nb, made, g, cur, tgt, i>> /\ pc' = "goneb" BY <1>0, SameB DEF Gone, varsB
  <1>4. Rest' /\ Zero' BY <1>0, <1>3 DEF Rest, Zero, States
  <1>5. CASE "A" \in tgt
    <2>1. DropA(cur) /\ cur \in ha /\ pa[cur] >= g /\ pa[cur] \in Nat /\ pa[cur] < na BY <1>0, <1>1, <1>5 DEF Gone, Facts
    <2>2. /\ OkA' /\ ha' = ha \ {cur} /\ na' = na - 1 /\ na > 0
          /\ da[na - 1] \in ha /\ pa[da[na - 1]] = na - 1
          /\ \A m \in Nat : da'[m] = IF m = pa[cur] THEN da[na - 1] ELSE da[m]
          /\ \A m \in Nat : pa'[m] = IF m = da[na - 1] THEN pa[cur] ELSE pa[m]
      BY <1>0, <2>1, DropAOk
    <2>3. Prefix' BY <1>0, <1>1, <1>3, <2>1, <2>2 DEF Prefix, Facts
    <2>4. made => Whole'
      <3> SUFFICES ASSUME made, NEW m \in ha, m # cur, m \in hb PROVE pa'[m] < g BY <1>3, <2>2 DEF Whole
      <3>1. m \in Nat /\ pa[m] < g /\ pa[m] \in Nat BY <1>0, <1>1 DEF But, Facts
      <3>2. m # da[na - 1] BY <3>1, <2>1, <2>2, <1>0, <1>1 DEF Facts
      <3> QED BY <3>1, <3>2, <2>2
    <2>5. made => But(cur)' BY <2>4 DEF Whole, But
    <2>6. At(pc)' BY <1>0, <1>3, <1>5, <2>3, <2>4, <2>5 DEF At
    <2> QED BY <1>3, <1>4, <2>2, <2>6 DEF Good
  <1>6. CASE "A" \notin tgt
    <2>1. UNCHANGED varsA BY <1>6 DEF Gone
    <2>2. OkA' /\ UNCHANGED <<ha, pa, da, na>> BY <1>0, <2>1, SameA DEF varsA
    <2>3. Prefix' /\ (made => But(cur)') BY <1>0, <1>3, <2>2 DEF Prefix, But
    <2>4. made /\ "B" \notin tgt => Whole'
      <3> SUFFICES ASSUME made, "B" \notin tgt PROVE Whole' OBVIOUS
      <3>1. tgt = {} BY <1>0, <1>6 DEF Rest
      <3> QED BY <3>1, <1>0, <1>3, <2>2 DEF Whole
    <2>5. "B" \in tgt => pb[cur] >= g BY <1>0
    <2>6. At(pc)' BY <1>0, <1>3, <2>2, <2>3, <2>4, <2>5 DEF At
    <2> QED BY <1>3, <1>4, <2>2, <2>6 DEF Good
  <1> QED BY <1>5, <1>6

LEMMA StepGoneB == ASSUME Good, GoneB PROVE Good'
  <1>0. /\ OkA /\ OkB /\ pc = "goneb" /\ Rest /\ Zero /\ Prefix /\ g \in Nat /\ cur \in Nat
        /\ ("B" \in tgt => cur \in hb) /\ (made => But(cur)) /\ (made /\ ~("B" \in tgt) => Whole)
        /\ ("B" \in tgt => pb[cur] >= g) BY DEF Good, GoneB, At, Rest
  <1>1. Facts BY <1>0, AllFacts
  <1>3. OkA' /\ UNCHANGED <<ha, pa, da, na, made, g, cur, tgt, i>> /\ pc' = "idle" BY <1>0, SameA DEF GoneB, varsA
  <1>4. Rest' /\ Zero' BY <1>0, <1>3 DEF Rest, Zero, States
  <1>5. CASE "B" \in tgt
    <2>1. DropB(cur) /\ cur \in hb /\ pb[cur] >= g /\ pb[cur] \in Nat /\ pb[cur] < nb BY <1>0, <1>1, <1>5 DEF GoneB, Facts
    <2>2. /\ OkB' /\ hb' = hb \ {cur} /\ nb' = nb - 1 /\ nb > 0
          /\ \A m \in Nat : db'[m] = IF m = pb[cur] THEN db[nb - 1] ELSE db[m]
      BY <1>0, <2>1, DropBOk
    <2>3. Prefix' BY <1>0, <1>1, <1>3, <2>1, <2>2 DEF Prefix, Facts
    <2>4. made => Whole' BY <1>0, <1>3, <2>2 DEF But, Whole
    <2>6. At(pc)' BY <1>3, <2>3, <2>4 DEF At
    <2> QED BY <1>3, <1>4, <2>2, <2>6 DEF Good
  <1>6. CASE "B" \notin tgt
    <2>1. UNCHANGED varsB BY <1>6 DEF GoneB
    <2>2. OkB' /\ UNCHANGED <<hb, pb, db, nb>> BY <1>0, <2>1, SameB DEF varsB
    <2>3. Prefix' /\ (made => Whole') BY <1>0, <1>3, <1>6, <2>2 DEF Prefix, Whole
    <2>6. At(pc)' BY <1>3, <2>3 DEF At
    <2> QED BY <1>3, <1>4, <2>2, <2>6 DEF Good
  <1> QED BY <1>5, <1>6

LEMMA StepMake == ASSUME Good, MakeA \/ MakeB PROVE Good'
  <1>0. /\ OkA /\ OkB /\ Rest /\ Zero /\ Prefix /\ g = 0 /\ ~made /\ i' = 0 /\ pc' \in {"overa", "overb"}
        /\ UNCHANGED <<varsA, varsB, made, g, cur, tgt>> BY DEF Good, MakeA, MakeB, At, Rest, Zero
  <1>1. OkA' /\ OkB' /\ UNCHANGED <<ha, pa, da, na, hb, pb, db, nb>> BY <1>0, SameA, SameB DEF varsA, varsB
  <1>2. Facts BY <1>0, AllFacts
  <1>3. Rest' /\ Zero' /\ Prefix' BY <1>0, <1>1 DEF Rest, Zero, Prefix, States
  <1>4. At(pc)' BY <1>0, <1>1, <1>2, <1>3 DEF At, Facts
  <1> QED BY <1>1, <1>3, <1>4 DEF Good

LEMMA StepOverA == ASSUME Good, OverA PROVE Good'
  <1>0. /\ OkA /\ OkB /\ pc = "overa" /\ Rest /\ ~made /\ Prefix /\ i <= na /\ g <= i /\ g \in Nat /\ i \in Nat
        /\ \A m \in ha : m \in hb /\ pa[m] < i => pa[m] < g
        /\ UNCHANGED <<cur, tgt>> BY DEF Good, OverA, At, Rest
  <1>1. Facts BY <1>0, AllFacts
  <1>2. Meet BY <1>0, Both DEF Meet
  <1>3. CASE i < na /\ da[i] \in hb
    <2>1. i' = i + 1 /\ pc' = pc /\ made' = made /\ SwapA(i, g) /\ SwapB(pb[da[i]], g) /\ g' = g + 1 BY <1>3 DEF OverA
    <2>2. da[i] \in ha /\ pa[da[i]] = i /\ pb[da[i]] \in Nat /\ pb[da[i]] < nb /\ pb[da[i]] >= g BY <1>0, <1>1, <1>2, <1>3 DEF Facts, Meet
    <2>3. g < na /\ g < nb BY <1>0, <1>1, <1>3, <2>2 DEF Facts
    <2>4. /\ OkA' /\ ha' = ha /\ na' = na
          /\ \A m \in Nat : da'[m] = IF m = g THEN da[i] ELSE IF m = i THEN da[g] ELSE da[m]
          /\ \A e \in Nat : pa'[e] = IF e = da[g] THEN i ELSE IF e = da[i] THEN g ELSE pa[e]
      BY <1>0, <1>3, <2>1, <2>3, SwapAOk
    <2>5. /\ OkB' /\ hb' = hb /\ nb' = nb
          /\ \A m \in Nat : db'[m] = IF m = g THEN db[pb[da[i]]] ELSE IF m = pb[da[i]] THEN db[g] ELSE db[m]
      BY <1>0, <2>1, <2>2, <2>3, SwapBOk
    <2>6. db[pb[da[i]]] = da[i] BY <1>1, <1>3 DEF Facts
    <2>7. Prefix' BY <1>0, <1>1, <2>1, <2>2, <2>3, <2>4, <2>5, <2>6 DEF Prefix, Facts
    <2>8. \A m \in ha : m \in hb /\ pa'[m] < i + 1 => pa'[m] < g + 1
      <3> SUFFICES ASSUME NEW m \in ha, m \in hb, pa'[m] < i + 1 PROVE pa'[m] < g + 1 OBVIOUS
      <3>0. m \in Nat /\ pa[m] \in Nat /\ da[g] \in ha /\ pa[da[g]] = g BY <1>0, <1>1, <2>3 DEF Facts
      <3>1. CASE m = da[i]
        <4>1. CASE da[g] = da[i]
          <5>1. g = i BY <4>1, <2>2, <3>0
          <5> QED BY <5>1, <3>0, <3>1, <4>1, <2>4, <1>0
        <4>2. CASE da[g] # da[i] BY <4>2, <3>0, <3>1, <2>4, <1>0
        <4> QED BY <4>1, <4>2
      <3>2. CASE m # da[i] /\ m = da[g]
        <4>1. pa[m] = g /\ g # i BY <3>0, <3>2
        <4>2. g < i BY <4>1, <1>0
        <4> QED BY <4>1, <4>2, <1>0
      <3>3. CASE m # da[i] /\ m # da[g]
        <4>1. pa'[m] = pa[m] /\ pa[m] # i BY <3>0, <3>3, <2>4, <1>1 DEF Facts
        <4>2. pa[m] < i BY <4>1, <3>0, <1>0
        <4> QED BY <4>1, <4>2, <1>0, <3>0
      <3> QED BY <3>1, <3>2, <3>3
    <2>9. At(pc)' BY <1>0, <1>3, <2>1, <2>3, <2>4, <2>5, <2>7, <2>8, <1>1 DEF At, Facts
    <2>10. Rest' /\ Zero' BY <1>0, <2>1 DEF Rest, Zero
    <2> QED BY <2>4, <2>5, <2>9, <2>10 DEF Good
  <1>4. CASE i < na /\ da[i] \notin hb
    <2>1. i' = i + 1 /\ pc' = pc /\ made' = made /\ UNCHANGED <<varsA, varsB, g>> BY <1>4 DEF OverA
    <2>2. OkA' /\ OkB' /\ UNCHANGED <<ha, pa, da, na, hb, pb, db, nb>> BY <1>0, <2>1, SameA, SameB DEF varsA, varsB
    <2>3. \A m \in ha : m \in hb /\ pa[m] < i + 1 => pa[m] < g
      <3> SUFFICES ASSUME NEW m \in ha, m \in hb, pa[m] < i + 1 PROVE pa[m] < g OBVIOUS
      <3>1. pa[m] # i /\ pa[m] \in Nat BY <1>1, <1>4 DEF Facts
      <3> QED BY <3>1, <1>0
    <2>4. Prefix' BY <1>0, <2>1, <2>2 DEF Prefix
    <2>5. i + 1 <= na /\ g <= i + 1 BY <1>0, <1>1, <1>4 DEF Facts
    <2>6. At(pc)' BY <1>0, <2>1, <2>2, <2>3, <2>4, <2>5 DEF At
    <2>7. Rest' /\ Zero' BY <1>0, <2>1 DEF Rest, Zero
    <2> QED BY <2>2, <2>6, <2>7 DEF Good
  <1>5. CASE ~(i < na)
    <2>1. pc' = "idle" /\ made' = TRUE /\ UNCHANGED <<varsA, varsB, g, i>> BY <1>5 DEF OverA
    <2>2. OkA' /\ OkB' /\ UNCHANGED <<ha, pa, da, na, hb, pb, db, nb>> BY <1>0, <2>1, SameA, SameB DEF varsA, varsB
    <2>3. i = na BY <1>0, <1>1, <1>5 DEF Facts
    <2>4. Whole BY <1>0, <1>1, <2>3 DEF Whole, Facts
    <2>5. Prefix' /\ Whole' BY <1>0, <2>1, <2>2, <2>4 DEF Prefix, Whole
    <2>6. At(pc)' BY <2>1, <2>5 DEF At
    <2>7. Rest' /\ Zero' BY <1>0, <2>1 DEF Rest, Zero, States
    <2> QED BY <2>2, <2>6, <2>7 DEF Good
  <1> QED BY <1>3, <1>4, <1>5

LEMMA StepOverB == ASSUME Good, OverB PROVE Good'
  <1>0. /\ OkB /\ OkA /\ pc = "overb" /\ Rest /\ ~made /\ Prefix /\ i <= nb /\ g <= i /\ g \in Nat /\ i \in Nat
        /\ \A m \in hb : m \in ha /\ pb[m] < i => pb[m] < g
        /\ UNCHANGED <<cur, tgt>> BY DEF Good, OverB, At, Rest
  <1>1. Facts BY <1>0, AllFacts
  <1>2. Meet BY <1>0, Both DEF Meet
  <1>3. CASE i < nb /\ db[i] \in ha
    <2>1. i' = i + 1 /\ pc' = pc /\ made' = made /\ SwapB(i, g) /\ SwapA(pa[db[i]], g) /\ g' = g + 1 BY <1>3 DEF OverB
    <2>2. db[i] \in hb /\ pb[db[i]] = i /\ pa[db[i]] \in Nat /\ pa[db[i]] < na /\ pa[db[i]] >= g BY <1>0, <1>1, <1>2, <1>3 DEF Facts, Meet
    <2>3. g < nb /\ g < na BY <1>0, <1>1, <1>3, <2>2 DEF Facts
    <2>4. /\ OkB' /\ hb' = hb /\ nb' = nb
          /\ \A m \in Nat : db'[m] = IF m = g THEN db[i] ELSE IF m = i THEN db[g] ELSE db[m]
          /\ \A e \in Nat : pb'[e] = IF e = db[g] THEN i ELSE IF e = db[i] THEN g ELSE pb[e]
      BY <1>0, <1>3, <2>1, <2>3, SwapBOk
    <2>5. /\ OkA' /\ ha' = ha /\ na' = na
          /\ \A m \in Nat : da'[m] = IF m = g THEN da[pa[db[i]]] ELSE IF m = pa[db[i]] THEN da[g] ELSE da[m]
      BY <1>0, <2>1, <2>2, <2>3, SwapAOk
    <2>6. da[pa[db[i]]] = db[i] BY <1>1, <1>3 DEF Facts
    <2>7. Prefix' BY <1>0, <1>1, <2>1, <2>2, <2>3, <2>4, <2>5, <2>6 DEF Prefix, Facts
    <2>8. \A m \in hb : m \in ha /\ pb'[m] < i + 1 => pb'[m] < g + 1
      <3> SUFFICES ASSUME NEW m \in hb, m \in ha, pb'[m] < i + 1 PROVE pb'[m] < g + 1 OBVIOUS
      <3>0. m \in Nat /\ pb[m] \in Nat /\ db[g] \in hb /\ pb[db[g]] = g BY <1>0, <1>1, <2>3 DEF Facts
      <3>1. CASE m = db[i]
        <4>1. CASE db[g] = db[i]
          <5>1. g = i BY <4>1, <2>2, <3>0
          <5> QED BY <5>1, <3>0, <3>1, <4>1, <2>4, <1>0
        <4>2. CASE db[g] # db[i] BY <4>2, <3>0, <3>1, <2>4, <1>0
        <4> QED BY <4>1, <4>2
      <3>2. CASE m # db[i] /\ m = db[g]
        <4>1. pb[m] = g /\ g # i BY <3>0, <3>2
        <4>2. g < i BY <4>1, <1>0
        <4> QED BY <4>1, <4>2, <1>0
      <3>3. CASE m # db[i] /\ m # db[g]
        <4>1. pb'[m] = pb[m] /\ pb[m] # i BY <3>0, <3>3, <2>4, <1>1 DEF Facts
        <4>2. pb[m] < i BY <4>1, <3>0, <1>0
        <4> QED BY <4>1, <4>2, <1>0, <3>0
      <3> QED BY <3>1, <3>2, <3>3
    <2>9. At(pc)' BY <1>0, <1>3, <2>1, <2>3, <2>4, <2>5, <2>7, <2>8, <1>1 DEF At, Facts
    <2>10. Rest' /\ Zero' BY <1>0, <2>1 DEF Rest, Zero
    <2> QED BY <2>4, <2>5, <2>9, <2>10 DEF Good
  <1>4. CASE i < nb /\ db[i] \notin ha
    <2>1. i' = i + 1 /\ pc' = pc /\ made' = made /\ UNCHANGED <<varsB, varsA, g>> BY <1>4 DEF OverB
    <2>2. OkB' /\ OkA' /\ UNCHANGED <<hb, pb, db, nb, ha, pa, da, na>> BY <1>0, <2>1, SameB, SameA DEF varsB, varsA
    <2>3. \A m \in hb : m \in ha /\ pb[m] < i + 1 => pb[m] < g
      <3> SUFFICES ASSUME NEW m \in hb, m \in ha, pb[m] < i + 1 PROVE pb[m] < g OBVIOUS
      <3>1. pb[m] # i /\ pb[m] \in Nat BY <1>1, <1>4 DEF Facts
      <3> QED BY <3>1, <1>0
    <2>4. Prefix' BY <1>0, <2>1, <2>2 DEF Prefix
    <2>5. i + 1 <= nb /\ g <= i + 1 BY <1>0, <1>1, <1>4 DEF Facts
    <2>6. At(pc)' BY <1>0, <2>1, <2>2, <2>3, <2>4, <2>5 DEF At
    <2>7. Rest' /\ Zero' BY <1>0, <2>1 DEF Rest, Zero
    <2> QED BY <2>2, <2>6, <2>7 DEF Good
  <1>5. CASE ~(i < nb)
    <2>1. pc' = "idle" /\ made' = TRUE /\ UNCHANGED <<varsB, varsA, g, i>> BY <1>5 DEF OverB
    <2>2. OkB' /\ OkA' /\ UNCHANGED <<hb, pb, db, nb, ha, pa, da, na>> BY <1>0, <2>1, SameB, SameA DEF varsB, varsA
    <2>3. i = nb BY <1>0, <1>1, <1>5 DEF Facts
    <2>4. Whole
      <3> SUFFICES ASSUME NEW m \in ha, m \in hb PROVE pa[m] < g BY DEF Whole
      <3>1. pb[m] \in Nat /\ pb[m] < nb BY <1>1 DEF Facts
      <3>2. pb[m] < g BY <3>1, <1>0, <2>3
      <3> QED BY <3>2, <1>2 DEF Meet
    <2>5. Prefix' /\ Whole' BY <1>0, <2>1, <2>2, <2>4 DEF Prefix, Whole
    <2>6. At(pc)' BY <2>1, <2>5 DEF At
    <2>7. Rest' /\ Zero' BY <1>0, <2>1 DEF Rest, Zero, States
    <2> QED BY <2>2, <2>6, <2>7 DEF Good
  <1> QED BY <1>3, <1>4, <1>5

---------------------------------------------------------------------------
LEMMA First == Init => Good
  <1> SUFFICES ASSUME Init PROVE Good OBVIOUS
  <1>1. OkA /\ OkB BY DEF Init, OkA, OkB, TA, TB, ConA, ConB, Con, Typ
  <1>2. Rest /\ Zero BY DEF Init, Rest, Zero, States
  <1>3. At(pc) BY DEF Init, At, Prefix
  <1> QED BY <1>1, <1>2, <1>3 DEF Good

LEMMA Still == ASSUME Good, UNCHANGED vars PROVE Good'
  <1>1. OkA' /\ OkB' BY SameA, SameB DEF Good, vars
  <1>2. UNCHANGED <<ha, pa, da, na, hb, pb, db, nb, made, g, pc, cur, tgt, i>> BY DEF vars, varsA, varsB
  <1>3. Rest' /\ Zero' BY <1>2 DEF Good, Rest, Zero
  <1>4. At(pc)' BY <1>2 DEF Good, At, Prefix, But, Whole
  <1> QED BY <1>1, <1>3, <1>4 DEF Good

LEMMA Step == ASSUME Good, [Next]_vars PROVE Good'
  <1>1. CASE UNCHANGED vars BY <1>1, Still
  <1>2. ASSUME NEW e \in Nat, NEW w \in Val, AttachA(e, w) PROVE Good' BY <1>2, StepAttachA
  <1>3. ASSUME NEW e \in Nat, NEW w \in Val, AttachB(e, w) PROVE Good' BY <1>3, StepAttachB
  <1>4. CASE Come BY <1>4, StepCome
  <1>5. CASE Come2 BY <1>5, StepCome2
  <1>6. ASSUME NEW e \in Nat, NEW T \in SUBSET {"A", "B"}, Leave(e, T) PROVE Good' BY <1>6, StepLeave
  <1>7. CASE Go BY <1>7, StepGo
  <1>8. CASE Gone BY <1>8, StepGone
  <1>9. CASE GoneB BY <1>9, StepGoneB
  <1>10. CASE MakeA \/ MakeB BY <1>10, StepMake
  <1>11. CASE OverA BY <1>11, StepOverA
  <1>12. CASE OverB BY <1>12, StepOverB
  <1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6, <1>7, <1>8, <1>9, <1>10, <1>11, <1>12 DEF Next

\* C03: each storage has one value for each of its entities, its own, and as many as it has entities.
Own == /\ \A e \in ha : pa[e] < na /\ da[pa[e]] = e /\ xa[pa[e]] = va[e]
       /\ \A e \in hb : pb[e] < nb /\ db[pb[e]] = e /\ xb[pb[e]] = vb[e]
       /\ \A j \in Nat : j < na => da[j] \in ha /\ pa[da[j]] = j
       /\ \A j \in Nat : j < nb => db[j] \in hb /\ pb[db[j]] = j
\* C08, C09, C19: between calls the group's prefix is the entities that have both, the same at each place,
\* and the values at those places are theirs.
Packed == pc = "idle" /\ made =>
    /\ g <= na /\ g <= nb
    /\ \A j \in Nat : j < g => /\ da[j] \in ha /\ da[j] \in hb /\ db[j] = da[j]
                               /\ xa[j] = va[da[j]] /\ xb[j] = vb[da[j]]
    /\ \A e \in ha : e \in hb => \E j \in Nat : j < g /\ da[j] = e /\ db[j] = e

LEMMA Means == ASSUME Good PROVE Own /\ Packed
  <1>1. OkA /\ OkB /\ Rest /\ At(pc) BY DEF Good
  <1>2. Facts BY <1>1, AllFacts
  <1>3. Own BY <1>1, <1>2 DEF OkA, OkB, ConA, ConB, Con, Own, Facts
  <1>4. ASSUME pc = "idle", made PROVE Packed
    <2>1. Prefix /\ Whole /\ g \in Nat BY <1>1, <1>4 DEF At, Rest
    <2>2. g <= na /\ g <= nb BY <2>1 DEF Prefix
    <2>3. ASSUME NEW j \in Nat, j < g
          PROVE da[j] \in ha /\ da[j] \in hb /\ db[j] = da[j] /\ xa[j] = va[da[j]] /\ xb[j] = vb[da[j]]
      <3>1. j < na /\ j < nb /\ da[j] = db[j] BY <2>1, <2>2, <2>3, <1>2 DEF Prefix, Facts
      <3>2. da[j] \in ha /\ pa[da[j]] = j /\ db[j] \in hb /\ pb[db[j]] = j BY <3>1, <1>2 DEF Facts
      <3> QED BY <3>1, <3>2, <1>3 DEF Own
    <2>4. ASSUME NEW e \in ha, e \in hb PROVE \E j \in Nat : j < g /\ da[j] = e /\ db[j] = e
      <3>1. pa[e] \in Nat /\ pa[e] < g /\ da[pa[e]] = e BY <2>1, <2>4, <1>2 DEF Whole, Facts
      <3>2. da[pa[e]] = db[pa[e]] BY <3>1, <2>1 DEF Prefix
      <3> QED BY <3>1, <3>2
    <2> QED BY <2>2, <2>3, <2>4 DEF Packed
  <1> QED BY <1>3, <1>4 DEF Packed

THEOREM Safe == Spec => [](Own /\ Packed)
  <1>1. Init => Good BY First
  <1>2. Good /\ [Next]_vars => Good' BY Step
  <1>3. Good => Own /\ Packed BY Means
  <1> QED BY <1>1, <1>2, <1>3, PTL DEF Spec

=============================================================================
