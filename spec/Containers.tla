------------------------------ MODULE Containers ------------------------------
(* The two low-level containers.                                              *)
(*                                                                            *)
(* A list collection c owns the nodes 1..n and holds lists[c][k], disjoint    *)
(* sequences named by the slots k of its user; the head of a list is what the *)
(* user keeps in slot k.  A stack s has a capacity and a sequence of values.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES lists, stk, cap
cvars == <<lists, stk, cap>>
COK == 1
CNOTOK == 0
CNIL == 0

RngC(s) == {s[i] : i \in 1..Len(s)}
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Pos(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
InsAt(s, p, x) == SubSeq(s, 1, p - 1) \o <<x>> \o SubSeq(s, p, Len(s))   \* x becomes element p
DelAt(s, p) == SubSeq(s, 1, p - 1) \o SubSeq(s, p + 1, Len(s))
Used(c) == UNION {RngC(lists[c][k]) : k \in DOMAIN lists[c]}

Append1(s, x) == Append(s, x)
Prepend1(s, x) == <<x>> \o s
After1(s, a, x) == InsAt(s, Pos(s, a) + 1, x)
\* in front of the head of a circular list is behind its last element, as long as the user keeps the head
Before1(s, a, x) == IF s[1] = a THEN Append(s, x) ELSE InsAt(s, Pos(s, a), x)
Delete1(s, x) == DelAt(s, Pos(s, x))

Upd(c, k, s) == lists' = [lists EXCEPT ![c][k] = s] /\ UNCHANGED <<stk, cap>>
LAppend(c, k, x) == x \notin Used(c) /\ Upd(c, k, Append1(lists[c][k], x))
LPrepend(c, k, x) == x \notin Used(c) /\ Upd(c, k, Prepend1(lists[c][k], x))
LAfter(c, k, a, x) == x \notin Used(c) /\ a \in RngC(lists[c][k]) /\ Upd(c, k, After1(lists[c][k], a, x))
LBefore(c, k, a, x) == x \notin Used(c) /\ a \in RngC(lists[c][k]) /\ Upd(c, k, Before1(lists[c][k], a, x))
LDelete(c, k, x) == x \in RngC(lists[c][k]) /\ Upd(c, k, Delete1(lists[c][k], x))
LReset(c) == lists' = [lists EXCEPT ![c] = [k \in DOMAIN lists[c] |-> <<>>]] /\ UNCHANGED <<stk, cap>>
\* the user copies his slots along with the collection
LCopy(d, s) == lists' = [lists EXCEPT ![d] = lists[s]] /\ UNCHANGED <<stk, cap>>

Top(s) == IF s = <<>> THEN CNIL ELSE s[Len(s)]
Popped(s, k) == SubSeq(s, 1, Len(s) - k)
SUpd(s, v) == stk' = [stk EXCEPT ![s] = v] /\ UNCHANGED <<lists, cap>>
SPush(s, vs, ret) == IF Len(stk[s]) + Len(vs) <= cap[s] THEN ret = COK /\ SUpd(s, stk[s] \o vs)
                     ELSE ret = CNOTOK /\ UNCHANGED cvars
\* pop k values; those the caller receives are out
SPop(s, k, ret, out) == IF Len(stk[s]) >= k THEN ret = COK /\ out = SubSeq(stk[s], Len(stk[s]) + 1 - k, Len(stk[s])) /\ SUpd(s, Popped(stk[s], k))
                        ELSE ret = CNOTOK /\ UNCHANGED cvars
\* discards of a pair hand back only its first value, or nothing
SPopFirst(s, ret, a) == IF Len(stk[s]) >= 2 THEN ret = COK /\ a = stk[s][Len(stk[s]) - 1] /\ SUpd(s, Popped(stk[s], 2))
                        ELSE ret = CNOTOK /\ UNCHANGED cvars
SDiscard(s, k, ret) == IF Len(stk[s]) >= k THEN ret = COK /\ SUpd(s, Popped(stk[s], k)) ELSE ret = CNOTOK /\ UNCHANGED cvars
STop(s, val) == val = Top(stk[s]) /\ UNCHANGED cvars
SGet(s, p, val) == (IF p \in 0..Len(stk[s]) - 1 THEN val = stk[s][p + 1] ELSE val = CNOTOK) /\ UNCHANGED cvars
SSet(s, p, x, val) == IF p \in 0..Len(stk[s]) - 1 THEN val = x /\ SUpd(s, [stk[s] EXCEPT ![p + 1] = x])
                      ELSE val = CNOTOK /\ UNCHANGED cvars
SClear(s) == SUpd(s, <<>>)
\* cutting a stack back keeps the values below the new top
SCut(s, k, ret) == k <= Len(stk[s]) /\ ret = COK /\ SUpd(s, SubSeq(stk[s], 1, k))
SOverCut(s, k, ret) == k > cap[s] /\ ret = CNOTOK /\ UNCHANGED cvars
SCopyContent(d, s, ret) == IF Len(stk[s]) <= cap[d] THEN ret = COK /\ SUpd(d, stk[s])
                           ELSE ret = CNOTOK /\ UNCHANGED cvars
\* a copy may take a larger capacity with it, never a smaller one than needed
SCopy(d, s, ret, nc) == ret = COK /\ nc >= Len(stk[s]) /\ nc >= cap[d]
                        /\ stk' = [stk EXCEPT ![d] = stk[s]] /\ cap' = [cap EXCEPT ![d] = nc] /\ UNCHANGED lists
SDup(d, s, nc) == nc = cap[s] /\ stk' = [stk EXCEPT ![d] = stk[s]] /\ cap' = [cap EXCEPT ![d] = nc] /\ UNCHANGED lists
SNew(d, c) == stk' = [stk EXCEPT ![d] = <<>>] /\ cap' = [cap EXCEPT ![d] = c] /\ UNCHANGED lists
=============================================================================
