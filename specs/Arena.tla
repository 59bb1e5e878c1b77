------------------------------ MODULE Arena ------------------------------
(* The waker arena: independent ordered lists of waker slots (W01).
   Slots and lists are named by the client; 0 stands for "no waker stored yet". *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

VARIABLES
  lists,  \* list name -> sequence of slot names, in insertion order
  wk,     \* slot name -> waker (0: none yet)
  peak    \* largest number of arena cells (slots + list heads) ever in use

avars == <<lists, wk, peak>>

Cells(ls) == LET RECURSIVE sum(_)
                 sum(D) == IF D = {} THEN 0
                           ELSE LET d == CHOOSE d \in D : TRUE IN 1 + Len(ls[d]) + sum(D \ {d})
             IN sum(DOMAIN ls)
MaxOf(a, b) == IF a > b THEN a ELSE b
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]

AInit == lists = <<>> /\ wk = <<>> /\ peak = 0

MkList(n) ==
  /\ n \notin DOMAIN lists
  /\ lists' = With(lists, n, <<>>)
  /\ peak' = MaxOf(peak, Cells(lists'))
  /\ UNCHANGED wk

Add(n, s) ==
  /\ n \in DOMAIN lists /\ s \notin DOMAIN wk
  /\ lists' = [lists EXCEPT ![n] = Append(@, s)]
  /\ wk' = With(wk, s, 0)
  /\ peak' = MaxOf(peak, Cells(lists'))

Upd(s, w) ==
  /\ s \in DOMAIN wk
  /\ wk' = [wk EXCEPT ![s] = w]
  /\ UNCHANGED <<lists, peak>>

Rm(s) ==
  /\ s \in DOMAIN wk
  /\ lists' = [n \in DOMAIN lists |-> SelectSeq(lists[n], LAMBDA x : x # s)]
  /\ wk' = Without(wk, s)
  /\ UNCHANGED peak

\* removing a list succeeds exactly when it is empty
RmList(n, res) ==
  /\ n \in DOMAIN lists
  /\ res = (lists[n] = <<>>)
  /\ lists' = IF res THEN Without(lists, n) ELSE lists
  /\ UNCHANGED <<wk, peak>>

\* what a client observes
Contents(n) == [i \in 1..Len(lists[n]) |-> wk[lists[n][i]]]
Clones(w) == Cardinality({s \in DOMAIN wk : wk[s] = w})
\* 32-byte cells, capacity doubling, a factor of 2 for slack
MemBound == 128 * (peak + 4)

\* ---- invariants of the design
ListsDisjoint ==
  /\ \A n \in DOMAIN lists : \A i, j \in 1..Len(lists[n]) : i # j => lists[n][i] # lists[n][j]
  /\ \A n, m \in DOMAIN lists : n # m => ToSet(lists[n]) \cap ToSet(lists[m]) = {}
SlotsPlaced == DOMAIN wk = UNION {ToSet(lists[n]) : n \in DOMAIN lists}
==========================================================================
