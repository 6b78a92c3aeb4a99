---------------------------- MODULE MCContainers ----------------------------
(* Containers together with the pointer structure that realises them: prev   *)
(* and next arrays updated as circular doubly linked lists are, and an array *)
(* with a size.  The invariants say the pointers spell the sequences.        *)
EXTENDS Containers
CONSTANTS N, Slots, Steps, Caps, Vals
VARIABLES nxt, prv, head, arr, siz, left
mvars == <<cvars, nxt, prv, head, arr, siz, left>>
Nodes == 1..N
C == {1, 2}
NilF == [x \in Nodes |-> 0]
MInit == /\ lists = [c \in C |-> [k \in Slots |-> <<>>]]
         /\ nxt = [c \in C |-> NilF] /\ prv = [c \in C |-> NilF] /\ head = [c \in C |-> [k \in Slots |-> 0]]
         /\ \E f \in [C -> Caps] : cap = f
         /\ stk = [c \in C |-> <<>>] /\ arr = [c \in C |-> <<>>] /\ siz = [c \in C |-> 0]
         /\ left = Steps
Keep == UNCHANGED <<arr, siz>>
\* link x between p and q
Link(c, p, x, q) == /\ nxt' = [nxt EXCEPT ![c] = [[@ EXCEPT ![x] = q] EXCEPT ![p] = x]]
                    /\ prv' = [prv EXCEPT ![c] = [[@ EXCEPT ![x] = p] EXCEPT ![q] = x]]
IAppend(c, k, x, newhead) ==
    LET h == head[c][k] IN
    IF h = 0 THEN /\ nxt' = [nxt EXCEPT ![c][x] = x] /\ prv' = [prv EXCEPT ![c][x] = x] /\ head' = [head EXCEPT ![c][k] = x]
    ELSE Link(c, prv[c][h], x, h) /\ head' = [head EXCEPT ![c][k] = IF newhead THEN x ELSE h]
IDelete(c, k, x) ==
    LET h == head[c][k] p == prv[c][x] q == nxt[c][x] IN
    IF nxt[c][h] = h THEN /\ nxt' = [nxt EXCEPT ![c][h] = 0] /\ prv' = [prv EXCEPT ![c][h] = 0] /\ head' = [head EXCEPT ![c][k] = 0]
    ELSE /\ nxt' = [nxt EXCEPT ![c] = [[@ EXCEPT ![p] = q] EXCEPT ![x] = 0]]
         /\ prv' = [prv EXCEPT ![c] = [[@ EXCEPT ![q] = p] EXCEPT ![x] = 0]]
         /\ head' = [head EXCEPT ![c][k] = IF h = x THEN q ELSE h]
ListStep == /\ Keep
   /\ \/ \E c \in C, k \in Slots, x \in Nodes : LAppend(c, k, x) /\ IAppend(c, k, x, FALSE)
      \/ \E c \in C, k \in Slots, x \in Nodes : LPrepend(c, k, x) /\ IAppend(c, k, x, TRUE)
      \/ \E c \in C, k \in Slots, x, a \in Nodes : LAfter(c, k, a, x) /\ Link(c, a, x, nxt[c][a]) /\ UNCHANGED head
      \/ \E c \in C, k \in Slots, x, a \in Nodes : LBefore(c, k, a, x) /\ Link(c, prv[c][a], x, a) /\ UNCHANGED head
      \/ \E c \in C, k \in Slots, x \in Nodes : LDelete(c, k, x) /\ IDelete(c, k, x)
      \/ LCopy(2, 1) /\ nxt' = [nxt EXCEPT ![2] = nxt[1]] /\ prv' = [prv EXCEPT ![2] = prv[1]] /\ head' = [head EXCEPT ![2] = head[1]]
\* the array keeps stale values above the top
Put(a, p, x) == IF p <= Len(a) THEN [a EXCEPT ![p] = x] ELSE Append(a, x)
StackStep == /\ UNCHANGED <<nxt, prv, head>>
   /\ \/ \E s \in C, x \in Vals : SPush(s, <<x>>, COK) /\ arr' = [arr EXCEPT ![s] = Put(@, siz[s] + 1, x)] /\ siz' = [siz EXCEPT ![s] = @ + 1]
      \/ \E s \in C, x, y \in Vals : SPush(s, <<x, y>>, COK) /\ arr' = [arr EXCEPT ![s] = Put(Put(@, siz[s] + 1, x), siz[s] + 2, y)] /\ siz' = [siz EXCEPT ![s] = @ + 2]
      \/ \E s \in C, k \in {1, 2} : SDiscard(s, k, COK) /\ siz' = [siz EXCEPT ![s] = @ - k] /\ UNCHANGED arr
      \/ \E s \in C, p \in 0..2, x \in Vals : SSet(s, p, x, x) /\ p < siz[s] /\ arr' = [arr EXCEPT ![s][p + 1] = x] /\ UNCHANGED siz
      \/ \E d \in C : LET s == 3 - d IN SCopyContent(d, s, COK) /\ siz' = [siz EXCEPT ![d] = siz[s]]
                       /\ arr' = [arr EXCEPT ![d] = SubSeq(arr[s], 1, siz[s]) \o SubSeq(@, siz[s] + 1, Len(@))]
      \/ \E d \in C : LET s == 3 - d nc == IF siz[s] <= cap[d] THEN cap[d] ELSE cap[s] IN
                       SCopy(d, s, COK, nc) /\ siz' = [siz EXCEPT ![d] = siz[s]]
                       /\ arr' = [arr EXCEPT ![d] = SubSeq(arr[s], 1, siz[s]) \o SubSeq(@, siz[s] + 1, Len(@))]
Next == left > 0 /\ left' = left - 1 /\ (ListStep \/ StackStep)
MSpec == MInit /\ [][Next]_mvars

RECURSIVE Walk(_, _, _, _)
Walk(f, h, x, k) == IF k = 0 THEN <<>> ELSE <<x>> \o (IF f[x] = h THEN <<>> ELSE Walk(f, h, f[x], k - 1))
Fwd(c, k) == LET h == head[c][k] IN IF h = 0 THEN <<>> ELSE Walk(nxt[c], h, h, N + 1)
Bwd(c, k) == LET h == head[c][k] IN IF h = 0 THEN <<>> ELSE LET l == prv[c][h] IN Walk(prv[c], l, l, N + 1)
SameLists == \A c \in C : \A k \in Slots : Fwd(c, k) = lists[c][k] /\ Bwd(c, k) = Rev(lists[c][k])
Disjoint == \A c \in C : \A j, k \in Slots : j # k => RngC(lists[c][j]) \cap RngC(lists[c][k]) = {}
NoRepeat == \A c \in C : \A k \in Slots : Cardinality(RngC(lists[c][k])) = Len(lists[c][k])
SameStack == \A s \in C : siz[s] <= cap[s] /\ SubSeq(arr[s], 1, siz[s]) = stk[s]
=============================================================================
