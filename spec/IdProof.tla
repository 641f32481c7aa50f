------------------------------ MODULE IdProof ------------------------------
(***************************************************************************)
(* The id manager for any number of entities: what XecsImpl says about its *)
(* table of flags (dense array, chain of removed ids), next to what Xecs   *)
(* says (the ids alive, the stack of removed ones).  TLC checks the former *)
(* against the latter up to MaxId; here tlapm proves it without bounds:    *)
(* existence checks tell the truth, a single id comes from the top of the  *)
(* stack, fresh ids only when the stack is empty or for a batch, and no    *)
(* living id is handed out.                                                *)
(***************************************************************************)
EXTENDS Integers, TLAPS

VARIABLES
    n,      \* length of entity_flags: the next fresh id
    link,   \* id -> is it flagged Available?
    at,     \* id -> index in entities, or next id in the chain
    cnt,    \* length of entities
    dense,  \* entities
    alive, depth, stack,   \* as in Xecs; the stack of removed ids is stack[1..depth]
    got     \* what the last call handed out: first id and how many

vars == <<n, link, at, cnt, dense, alive, depth, stack, got>>
Id == Nat \ {0}

Exists(e) == e < n /\ ~link[e] /\ at[e] < cnt /\ dense[at[e]] = e

Init ==
    /\ n = 1 /\ link = [i \in Nat |-> FALSE] /\ at = [i \in Nat |-> 0]
    /\ cnt = 0 /\ dense = [i \in Nat |-> 0]
    /\ alive = {} /\ depth = 0 /\ stack = [i \in Nat |-> 0]
    /\ got = <<1, 0>>

\* allocate(), with an id to take from the chain
Reuse ==
    /\ link[0]
    /\ link' = [[link EXCEPT ![0] = link[at[0]]] EXCEPT ![at[0]] = FALSE]
    /\ at' = [[at EXCEPT ![0] = at[at[0]]] EXCEPT ![at[0]] = cnt]
    /\ dense' = [dense EXCEPT ![cnt] = at[0]]
    /\ cnt' = cnt + 1
    /\ n' = n
    /\ got' = <<at[0], 1>>
    /\ alive' = alive \cup {at[0]}
    /\ depth' = depth - 1
    /\ stack' = stack
\* allocate_n(m), and allocate() without one
Fresh(m) ==
    /\ link' = [i \in Nat |-> IF n <= i /\ i < n + m THEN FALSE ELSE link[i]]
    /\ at' = [i \in Nat |-> IF n <= i /\ i < n + m THEN cnt + (i - n) ELSE at[i]]
    /\ dense' = [j \in Nat |-> IF cnt <= j /\ j < cnt + m THEN n + (j - cnt) ELSE dense[j]]
    /\ cnt' = cnt + m
    /\ n' = n + m
    /\ got' = <<n, m>>
    /\ alive' = alive \cup (n .. n + m - 1)
    /\ UNCHANGED <<depth, stack>>
Create == Reuse \/ (~link[0] /\ Fresh(1))
\* remove(e)
Remove(e) ==
    /\ Exists(e)
    /\ dense' = [dense EXCEPT ![at[e]] = dense[cnt - 1]]
    /\ cnt' = cnt - 1
    /\ link' = [[link EXCEPT ![e] = link[0]] EXCEPT ![0] = TRUE]
    /\ at' = [[[at EXCEPT ![dense[cnt - 1]] = at[e]] EXCEPT ![e] = at[0]] EXCEPT ![0] = e]
    /\ n' = n
    /\ got' = <<1, 0>>
    /\ alive' = alive \ {e}
    /\ depth' = depth + 1
    /\ stack' = [stack EXCEPT ![depth + 1] = e]

Next == Create \/ (\E m \in Nat : Fresh(m)) \/ (\E e \in Id : Remove(e))
Spec == Init /\ [][Next]_vars

TypeOK ==
    /\ n \in Id /\ cnt \in Nat /\ depth \in Nat
    /\ link \in [Nat -> BOOLEAN] /\ at \in [Nat -> Nat]
    /\ dense \in [Nat -> Nat] /\ stack \in [Nat -> Nat]
    /\ alive \in SUBSET Id
Dense == \A j \in Nat : j < cnt => dense[j] \in alive /\ at[dense[j]] = j
Alive == \A e \in alive : e < n /\ ~link[e] /\ at[e] < cnt /\ dense[at[e]] = e
Head == (link[0] <=> depth > 0) /\ (depth > 0 => at[0] = stack[depth])
Gone == \A k \in Nat : 1 <= k /\ k <= depth => stack[k] \in Id /\ stack[k] < n /\ stack[k] \notin alive
Chain == \A k \in Nat : 1 <= k /\ k <= depth =>
            IF k = 1 THEN ~link[stack[k]] ELSE link[stack[k]] /\ at[stack[k]] = stack[k - 1]
Once == \A k, l \in Nat : 1 <= k /\ k <= depth /\ 1 <= l /\ l <= depth /\ stack[k] = stack[l] => k = l
All == \A e \in Id : e < n => e \in alive \/ \E k \in Nat : 1 <= k /\ k <= depth /\ stack[k] = e
Inv == TypeOK /\ Dense /\ Alive /\ Head /\ Gone /\ Chain /\ Once /\ All

\* What a user may rely on
Truth == \A e \in Id : Exists(e) <=> e \in alive
LEMMA Truthful == Inv => Truth
  BY DEF Inv, TypeOK, Dense, Alive, Truth, Exists, Id

LEMMA InitInv == Init => Inv
<1> SUFFICES ASSUME Init PROVE Inv OBVIOUS
<1>1. TypeOK BY DEF Init, TypeOK, Id
<1>2. Dense /\ Alive /\ Gone /\ Chain /\ Once BY DEF Init, Dense, Alive, Gone, Chain, Once
<1>3. Head BY DEF Init, Head
<1>4. All BY DEF Init, All, Id
<1> QED BY <1>1, <1>2, <1>3, <1>4 DEF Inv

LEMMA ReuseInv == Inv /\ Reuse => Inv'
<1> SUFFICES ASSUME Inv, Reuse PROVE Inv' OBVIOUS
<1> DEFINE h == at[0]
<1>0. depth > 0 /\ h = stack[depth] /\ h \in Id /\ h < n /\ h \notin alive /\ h \in Nat /\ h # 0
  BY DEF Inv, TypeOK, Head, Gone, Reuse, Id
<1>a. TypeOK /\ Dense /\ Alive /\ Head /\ Gone /\ Chain /\ Once /\ All BY DEF Inv
<1>b. \A x \in Nat : at'[x] = IF x = h THEN cnt ELSE IF x = 0 THEN at[h] ELSE at[x]
  BY <1>0 DEF Inv, TypeOK, Reuse
<1>c. \A x \in Nat : link'[x] = IF x = h THEN FALSE ELSE IF x = 0 THEN link[h] ELSE link[x]
  BY <1>0 DEF Inv, TypeOK, Reuse
<1>d. \A x \in Nat : dense'[x] = IF x = cnt THEN h ELSE dense[x]
  BY <1>0 DEF Inv, TypeOK, Reuse
<1>e. n' = n /\ cnt' = cnt + 1 /\ alive' = alive \cup {h} /\ depth' = depth - 1 /\ stack' = stack
  BY DEF Reuse
<1>1. TypeOK' BY <1>0 DEF Inv, TypeOK, Reuse, Id
<1> HIDE DEF h
<1>2. Dense' BY <1>0, <1>a, <1>b, <1>d, <1>e DEF TypeOK, Dense, Alive, Id
<1>3. Alive'
  <2> SUFFICES ASSUME NEW e \in alive' PROVE (e < n /\ ~link[e] /\ at[e] < cnt /\ dense[at[e]] = e)'
    BY DEF Alive
  <2>1. e \in Nat /\ e # 0 /\ cnt \in Nat BY <1>0, <1>a, <1>e DEF TypeOK, Id
  <2>2. CASE e = h BY <2>1, <2>2, <1>0, <1>b, <1>c, <1>d, <1>e
  <2>3. CASE e # h
    <3>1. e \in alive /\ at[e] \in Nat BY <2>1, <2>3, <1>a, <1>e DEF TypeOK
    <3>2. e < n /\ ~link[e] /\ at[e] < cnt /\ dense[at[e]] = e BY <3>1, <1>a DEF Alive
    <3>3. at'[e] = at[e] /\ ~link'[e] BY <2>1, <2>3, <3>2, <1>b, <1>c
    <3>4. dense'[at[e]] = e BY <3>1, <3>2, <2>1, <1>d
    <3> QED BY <3>1, <3>2, <3>3, <3>4, <2>1, <1>e
  <2> QED BY <2>2, <2>3
<1>4. Once' BY <1>a, <1>e DEF TypeOK, Once
<1>5. Gone' BY <1>0, <1>a, <1>e DEF TypeOK, Gone, Once, Id
<1>6. Head'
  <2>1. CASE depth = 1
    <3>1. ~link[h] BY <2>1, <1>0, <1>a DEF Chain
    <3> QED BY <3>1, <2>1, <1>0, <1>c, <1>e DEF Head
  <2>2. CASE depth # 1
    <3>1. depth \in Nat /\ depth > 1 BY <2>2, <1>0, <1>a DEF TypeOK
    <3>2. link[h] /\ at[h] = stack[depth - 1] BY <3>1, <1>0, <1>a DEF Chain
    <3> QED BY <3>1, <3>2, <1>0, <1>b, <1>c, <1>e DEF Head
  <2> QED BY <2>1, <2>2
<1>7. Chain'
  <2> SUFFICES ASSUME NEW k \in Nat, 1 <= k, k <= depth'
               PROVE (IF k = 1 THEN ~link[stack[k]] ELSE link[stack[k]] /\ at[stack[k]] = stack[k - 1])'
    BY DEF Chain
  <2>1. k < depth /\ depth \in Nat BY <1>a, <1>e DEF TypeOK
  <2>2. stack[k] \in Nat /\ stack[k] # 0 /\ stack[k] # h BY <2>1, <1>0, <1>a DEF TypeOK, Gone, Once, Id
  <2>3. link'[stack[k]] = link[stack[k]] /\ at'[stack[k]] = at[stack[k]] BY <2>2, <1>b, <1>c
  <2> QED BY <2>1, <2>3, <1>a, <1>e DEF Chain
<1>8. All' BY <1>0, <1>a, <1>e DEF TypeOK, All, Id
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6, <1>7, <1>8 DEF Inv

LEMMA FreshInv == ASSUME NEW m \in Nat PROVE Inv /\ Fresh(m) => Inv'
<1> SUFFICES ASSUME Inv, Fresh(m) PROVE Inv' OBVIOUS
<1>a. TypeOK /\ Dense /\ Alive BY DEF Inv
<1>n. n \in Nat /\ cnt \in Nat /\ n > 0 BY <1>a DEF TypeOK, Id
<1>b. \A x \in Nat : at'[x] = IF n <= x /\ x < n + m THEN cnt + (x - n) ELSE at[x]
  BY DEF Fresh
<1>c. \A x \in Nat : link'[x] = IF n <= x /\ x < n + m THEN FALSE ELSE link[x]
  BY DEF Fresh
<1>d. \A x \in Nat : dense'[x] = IF cnt <= x /\ x < cnt + m THEN n + (x - cnt) ELSE dense[x]
  BY DEF Fresh
<1>e. n' = n + m /\ cnt' = cnt + m /\ alive' = alive \cup (n .. n + m - 1) /\ depth' = depth /\ stack' = stack
  BY DEF Fresh
<1>1. TypeOK'
  <2>1. at' \in [Nat -> Nat]
    <3>1. \A x \in Nat : (IF n <= x /\ x < n + m THEN cnt + (x - n) ELSE at[x]) \in Nat BY <1>a, <1>n DEF TypeOK
    <3> QED BY <3>1 DEF Fresh
  <2>2. link' \in [Nat -> BOOLEAN]
    <3>1. \A x \in Nat : (IF n <= x /\ x < n + m THEN FALSE ELSE link[x]) \in BOOLEAN BY <1>a DEF TypeOK
    <3> QED BY <3>1 DEF Fresh
  <2>3. dense' \in [Nat -> Nat]
    <3>1. \A x \in Nat : (IF cnt <= x /\ x < cnt + m THEN n + (x - cnt) ELSE dense[x]) \in Nat BY <1>a, <1>n DEF TypeOK
    <3> QED BY <3>1 DEF Fresh
  <2>4. alive' \in SUBSET Id BY <1>a, <1>e, <1>n DEF TypeOK, Id
  <2>5. n' \in Id /\ cnt' \in Nat /\ depth' \in Nat /\ stack' \in [Nat -> Nat] BY <1>a, <1>e, <1>n DEF TypeOK, Id
  <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5 DEF TypeOK
<1>2. Dense' BY DEF Inv, TypeOK, Dense, Alive, Fresh, Id
<1>3. Alive'
  <2> SUFFICES ASSUME NEW x \in alive' PROVE (x < n /\ ~link[x] /\ at[x] < cnt /\ dense[at[x]] = x)'
    BY DEF Alive
  <2>1. CASE x \in alive
    <3>1. x \in Nat /\ at[x] \in Nat /\ x < n /\ ~link[x] /\ at[x] < cnt /\ dense[at[x]] = x
      BY <2>1, <1>a DEF Alive, TypeOK, Id
    <3> QED BY <3>1, <1>n, <1>b, <1>c, <1>d, <1>e
  <2>2. CASE x \in n .. n + m - 1
    <3>1. x \in Nat /\ n <= x /\ x < n + m BY <2>2, <1>n
    <3>2. at'[x] = cnt + (x - n) /\ ~link'[x] BY <3>1, <1>b, <1>c
    <3>3. at'[x] \in Nat /\ cnt <= at'[x] /\ at'[x] < cnt + m BY <3>1, <3>2, <1>n
    <3>4. dense'[at'[x]] = n + (at'[x] - cnt) BY <3>3, <1>d
    <3> QED BY <3>1, <3>2, <3>3, <3>4, <1>n, <1>e
  <2> QED BY <2>1, <2>2, <1>e
<1>4. Once' BY DEF Inv, TypeOK, Once, Fresh, Id
<1>5. Gone' BY DEF Inv, TypeOK, Gone, Fresh, Id
<1>6. Head' BY DEF Inv, TypeOK, Head, Fresh, Id
<1>7. Chain' BY DEF Inv, TypeOK, Chain, Gone, Fresh, Id
<1>8. All' BY DEF Inv, TypeOK, All, Fresh, Id
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6, <1>7, <1>8 DEF Inv

LEMMA RemoveInv == ASSUME NEW e \in Id PROVE Inv /\ Remove(e) => Inv'
<1> SUFFICES ASSUME Inv, Remove(e) PROVE Inv' OBVIOUS
<1> DEFINE last == dense[cnt - 1]
           ix == at[e]
<1>0. /\ e \in alive /\ ix \in Nat /\ ix < cnt /\ cnt - 1 \in Nat /\ cnt > 0 /\ cnt \in Nat
      /\ last \in alive /\ at[last] = cnt - 1 /\ last \in Nat /\ last # 0 /\ e \in Nat /\ e # 0
      /\ dense[ix] = e
  <2>1. e \in alive BY Truthful DEF Truth, Remove
  <2>2. e \in Nat /\ e # 0 /\ at[e] \in Nat /\ at[e] < cnt /\ dense[at[e]] = e /\ cnt \in Nat
    BY <2>1 DEF Inv, TypeOK, Alive, Id
  <2>3. cnt - 1 \in Nat /\ cnt - 1 < cnt /\ cnt > 0 BY <2>2
  <2>4. last \in alive /\ at[last] = cnt - 1 BY <2>3 DEF Inv, Dense
  <2>5. last \in Nat /\ last # 0 BY <2>4 DEF Inv, TypeOK, Id
  <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5
<1>a. TypeOK /\ Dense /\ Alive /\ Head /\ Gone /\ Chain /\ Once /\ All BY DEF Inv
<1>b. \A x \in Nat : at'[x] = IF x = 0 THEN e ELSE IF x = e THEN at[0] ELSE IF x = last THEN ix ELSE at[x]
  <2>1. at \in [Nat -> Nat] BY <1>a DEF TypeOK
  <2> QED BY <1>0, <2>1 DEF Remove
<1>c. \A x \in Nat : link'[x] = IF x = 0 THEN TRUE ELSE IF x = e THEN link[0] ELSE link[x]
  <2>1. link \in [Nat -> BOOLEAN] BY <1>a DEF TypeOK
  <2> QED BY <1>0, <2>1 DEF Remove
<1>d. \A x \in Nat : dense'[x] = IF x = ix THEN last ELSE dense[x]
  BY <1>0, <1>a DEF TypeOK, Remove
<1>e. n' = n /\ cnt' = cnt - 1 /\ alive' = alive \ {e} /\ depth' = depth + 1
  BY DEF Remove
<1>f. \A k \in Nat : stack'[k] = IF k = depth + 1 THEN e ELSE stack[k]
  BY <1>0, <1>a DEF TypeOK, Remove
<1>1. TypeOK'
  <2>1. at' \in [Nat -> Nat] BY <1>0, <1>a DEF TypeOK, Remove
  <2>2. link' \in [Nat -> BOOLEAN] BY <1>0, <1>a DEF TypeOK, Remove
  <2>3. dense' \in [Nat -> Nat] /\ stack' \in [Nat -> Nat] BY <1>0, <1>a DEF TypeOK, Remove
  <2>4. n' \in Id /\ cnt' \in Nat /\ depth' \in Nat /\ alive' \in SUBSET Id BY <1>0, <1>a, <1>e DEF TypeOK
  <2> QED BY <2>1, <2>2, <2>3, <2>4 DEF TypeOK
<1> HIDE DEF last, ix
<1>2. Dense'
  <2> SUFFICES ASSUME NEW j \in Nat, j < cnt - 1 PROVE (dense[j] \in alive /\ at[dense[j]] = j)'
    BY <1>e DEF Dense
  <2>1. dense[j] \in alive /\ at[dense[j]] = j /\ dense[j] \in Nat /\ dense[j] # 0 BY <1>0, <1>a DEF Dense, TypeOK, Id
  <2>2. CASE j = ix
    <3>1. dense'[j] = last BY <2>2, <1>d
    <3>2. last # e BY <2>2, <1>0, <2>1
    <3> QED BY <3>1, <3>2, <2>2, <1>0, <1>b, <1>e
  <2>3. CASE j # ix
    <3>1. dense'[j] = dense[j] BY <2>3, <1>d
    <3>2. dense[j] # e /\ dense[j] # last BY <2>1, <2>3, <1>0 DEF ix
    <3> QED BY <3>1, <3>2, <2>1, <1>0, <1>b, <1>e
  <2> QED BY <2>2, <2>3
<1>3. Alive'
  <2> SUFFICES ASSUME NEW x \in alive' PROVE (x < n /\ ~link[x] /\ at[x] < cnt /\ dense[at[x]] = x)'
    BY DEF Alive
  <2>1. /\ x \in alive /\ x # e /\ x \in Nat /\ x # 0 /\ at[x] \in Nat
        /\ x < n /\ ~link[x] /\ at[x] < cnt /\ dense[at[x]] = x
    BY <1>a, <1>e DEF Alive, TypeOK, Id
  <2>2. ~link'[x] BY <2>1, <1>c
  <2>3. CASE x = last
    <3>1. at'[x] = ix BY <2>1, <2>3, <1>b
    <3>2. ix # cnt - 1
      BY <2>1, <2>3, <1>0 DEF last
    <3> QED BY <3>1, <3>2, <2>1, <2>2, <2>3, <1>0, <1>d, <1>e
  <2>4. CASE x # last
    <3>1. at'[x] = at[x] BY <2>1, <2>4, <1>b
    <3>2. at[x] # ix BY <2>1, <1>0
    <3>3. at[x] # cnt - 1 BY <2>1, <2>4 DEF last
    <3> QED BY <3>1, <3>2, <3>3, <2>1, <2>2, <1>0, <1>d, <1>e
  <2> QED BY <2>3, <2>4
<1>4. Once'
  <2> SUFFICES ASSUME NEW k \in Nat, NEW l \in Nat, 1 <= k, k <= depth + 1, 1 <= l, l <= depth + 1, stack'[k] = stack'[l]
               PROVE k = l
    BY <1>e DEF Once
  <2>0. depth \in Nat BY <1>a DEF TypeOK
  <2>1. CASE k = depth + 1 /\ l = depth + 1 BY <2>1
  <2>2. CASE k = depth + 1 /\ l # depth + 1
    <3>1. l <= depth /\ stack[l] = e BY <2>0, <2>2, <1>f
    <3> QED BY <3>1, <1>0, <1>a DEF Gone
  <2>3. CASE k # depth + 1 /\ l = depth + 1
    <3>1. k <= depth /\ stack[k] = e BY <2>0, <2>3, <1>f
    <3> QED BY <3>1, <1>0, <1>a DEF Gone
  <2>4. CASE k # depth + 1 /\ l # depth + 1
    <3>1. k <= depth /\ l <= depth /\ stack[k] = stack[l] BY <2>0, <2>4, <1>f
    <3> QED BY <3>1, <1>a DEF Once
  <2> QED BY <2>1, <2>2, <2>3, <2>4
<1>5. Gone' BY <1>0, <1>a, <1>e, <1>f DEF TypeOK, Gone, Alive, Id
<1>6. Head' BY <1>0, <1>a, <1>b, <1>c, <1>e, <1>f DEF TypeOK, Head
<1>7. Chain'
  <2> SUFFICES ASSUME NEW k \in Nat, 1 <= k, k <= depth + 1
               PROVE (IF k = 1 THEN ~link[stack[k]] ELSE link[stack[k]] /\ at[stack[k]] = stack[k - 1])'
    BY <1>e DEF Chain
  <2>0. depth \in Nat BY <1>a DEF TypeOK
  <2>1. CASE k = depth + 1
    <3>1. stack'[k] = e /\ link'[e] = link[0] /\ at'[e] = at[0] BY <2>1, <1>0, <1>b, <1>c, <1>f
    <3>2. k > 1 => k - 1 = depth /\ depth > 0 /\ stack'[k - 1] = stack[depth] BY <2>0, <2>1, <1>f
    <3> QED BY <3>1, <3>2, <2>0, <2>1, <1>a DEF Head
  <2>2. CASE k # depth + 1
    <3>1. k <= depth /\ stack'[k] = stack[k] BY <2>0, <2>2, <1>f
    <3>2. stack[k] \in Nat /\ stack[k] # 0 /\ stack[k] # e /\ stack[k] # last BY <3>1, <1>0, <1>a DEF Gone, TypeOK, Id
    <3>3. link'[stack[k]] = link[stack[k]] /\ at'[stack[k]] = at[stack[k]] BY <3>2, <1>b, <1>c
    <3>4. k > 1 => stack'[k - 1] = stack[k - 1] BY <3>1, <2>0, <1>f
    <3> QED BY <3>1, <3>3, <3>4, <1>a DEF Chain
  <2> QED BY <2>1, <2>2
<1>8. All'
  <2> SUFFICES ASSUME NEW x \in Id, x < n
               PROVE (x \in alive \/ \E k \in Nat : 1 <= k /\ k <= depth /\ stack[k] = x)'
    BY <1>e DEF All
  <2>0. depth \in Nat BY <1>a DEF TypeOK
  <2>1. CASE x = e
    <3>1. depth + 1 \in Nat /\ 1 <= depth + 1 /\ depth + 1 <= depth' /\ stack'[depth + 1] = x BY <2>0, <2>1, <1>e, <1>f
    <3> QED BY <3>1
  <2>2. CASE x # e /\ x \in alive BY <2>2, <1>e
  <2>3. CASE x \notin alive
    <3>1. PICK k \in Nat : 1 <= k /\ k <= depth /\ stack[k] = x BY <2>3, <1>a DEF All
    <3>2. k <= depth' /\ stack'[k] = x BY <3>1, <2>0, <1>e, <1>f
    <3> QED BY <3>1, <3>2
  <2> QED BY <2>1, <2>2, <2>3
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6, <1>7, <1>8 DEF Inv

THEOREM Invariant == Spec => []Inv
<1>1. Inv /\ [Next]_vars => Inv'
  <2> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv' OBVIOUS
  <2>1. CASE Create BY <2>1, ReuseInv, FreshInv DEF Create
  <2>2. CASE \E m \in Nat : Fresh(m) BY <2>2, FreshInv
  <2>3. CASE \E e \in Id : Remove(e) BY <2>3, RemoveInv
  <2>4. CASE UNCHANGED vars
    BY <2>4 DEF vars, Inv, TypeOK, Dense, Alive, Head, Gone, Chain, Once, All
  <2> QED BY <2>1, <2>2, <2>3, <2>4 DEF Next
<1> QED BY <1>1, InitInv, PTL DEF Spec

\* C01: existence checks tell the truth, after any history
THEOREM ExistenceIsTrue == Spec => []Truth
  BY Invariant, Truthful, PTL
\* C01, C02: one id comes from the top of the stack and was not alive, or is fresh because the stack is empty
THEOREM SingleId ==
    Inv /\ Create => /\ got'[1] \notin alive /\ got'[2] = 1
                     /\ IF depth > 0 THEN got'[1] = stack[depth] /\ depth' = depth - 1
                        ELSE got'[1] = n /\ depth' = 0
  BY DEF Inv, TypeOK, Head, Gone, Alive, Create, Reuse, Fresh, Id
\* C02: a batch is fresh and leaves the stack alone
THEOREM BatchIds ==
    ASSUME NEW m \in Nat
    PROVE Inv /\ Fresh(m) => /\ got' = <<n, m>> /\ depth' = depth /\ stack' = stack
                             /\ \A i \in Nat : n <= i => i \notin alive /\ \A k \in Nat : 1 <= k /\ k <= depth => stack[k] # i
  BY DEF Inv, TypeOK, Alive, Gone, Fresh, Id
\* C02: a removed id is the next to be handed out
THEOREM RemovedIsNext ==
    ASSUME NEW e \in Id
    PROVE Inv /\ Remove(e) => depth' = depth + 1 /\ stack'[depth'] = e /\ \A k \in Nat : k <= depth => stack'[k] = stack[k]
  BY DEF Inv, TypeOK, Remove, Id
=============================================================================
