------------------------------ MODULE MC_List ------------------------------
(* The design of DynamicList: every item lives between two markers, the list between two more; operations move whole ranges,
   in the page while the list is shown (behind a marker of its position among its siblings) and in a fragment while it is not.
   Shown to display the items in the order of the abstract list (Ui), between siblings that may appear at any time.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, SequencesExt
CONSTANTS NK, Shows, Sibs, LastPhase
VARIABLES op, it, ph, sib, page, frag
\* it: the abstract list of [k, want]: want - 0 nothing to show yet, 1 shows its content, 2 finished
\* ph: how often the list was shown and hidden (odd: it is shown); sib: siblings that have appeared; page, frag: sequences of nodes
U == INSTANCE Ui WITH Focus <- "L02"
Keys == 1..NK
KeysOf(q) == {q[i].k : i \in DOMAIN q}
On == ph % 2 = 1
Node(t, k) == <<t, k>>
S == Node("S", 0)
E == Node("E", 0)
P == Node("P", 0)
(* nodes *)
Ix(q, n) == CHOOSE i \in DOMAIN q : q[i] = n
Has(q, n) == \E i \in DOMAIN q : q[i] = n
Del(q, n) == SelectSeq(q, LAMBDA x : x # n)
InsB(q, n, b) == InsertAt(q, Ix(q, b), n)
Part(q, a, b) == SubSeq(q, Ix(q, a), Ix(q, b))
MoveRange(q, a, b, before) ==     \* move_nodes_before: one node after the other
  LET r == Part(q, a, b)
      rest == SubSeq(q, 1, Ix(q, a) - 1) \o SubSeq(q, Ix(q, b) + 1, Len(q))
      i == Ix(rest, before)
  IN SubSeq(rest, 1, i - 1) \o r \o SubSeq(rest, i, Len(rest))
Start(k) == Node("s", k)
End(k) == Node("e", k)
Content(k) == Node("c", k)
Before(q, b) == IF b # <<>> /\ Has(q, Start(b[1])) THEN Start(b[1]) ELSE E
(* the operations, on the container q that holds the list *)
DRemove(q, k) == Del(Del(Del(q, Start(k)), End(k)), Content(k))
DInsert(q, k, b) ==
  LET at == Before(q, b)
      tmp == TLCEval(InsB(InsB(q, Node("s", -1), at), Node("e", -1), at))     \* the new markers, while the old item is still there
      rid == DRemove(tmp, k)
  IN [i \in DOMAIN rid |-> IF rid[i][2] = -1 THEN Node(rid[i][1], k) ELSE rid[i]]
DMove(q, k, b) == LET at == Before(q, b) IN IF at = Start(k) THEN q ELSE MoveRange(q, Start(k), End(k), at)
DSwap(q, x, y) ==
  IF x = y THEN q
  ELSE LET after == q[Ix(q, End(x)) + 1]
       IN IF after = Start(y) THEN MoveRange(q, Start(y), End(y), Start(x))
          ELSE MoveRange(MoveRange(q, Start(x), End(x), Start(y)), Start(y), End(y), after)
DRetain(q, ks) == SelectSeq(q, LAMBDA x : x[1] \notin {"s", "c", "e"} \/ x[2] \in ks)
(* items are polled while the list is shown: content appears before the end marker *)
RECURSIVE Poll(_, _)
Poll(q, l) ==
  IF l = <<>> THEN q
  ELSE LET x == l[1]
           c == Content(x.k)
       IN Poll(TLCEval(IF x.want = 1 /\ ~Has(q, c) THEN InsB(q, c, End(x.k)) ELSE IF x.want = 2 THEN Del(q, c) ELSE q), Tail(l))
(* siblings find their place by the node that follows them *)
Put(q, n) ==
  CASE n = "A" -> IF Has(q, P) THEN InsB(q, Node("A", 0), P) ELSE IF Has(q, Node("B", 0)) THEN InsB(q, Node("A", 0), Node("B", 0)) ELSE Append(q, Node("A", 0))
    [] n = "B" -> Append(q, Node("B", 0))
ShowList(q) == LET at == IF Has(q, Node("B", 0)) THEN <<Node("B", 0)>> ELSE <<>>
                   q1 == IF at = <<>> THEN Append(q, P) ELSE InsB(q, P, at[1])
               IN SubSeq(q1, 1, Ix(q1, P)) \o frag \o SubSeq(q1, Ix(q1, P) + 1, Len(q1))
Init == op = <<"init">> /\ it = <<>> /\ ph = 0 /\ sib = {} /\ page = <<>> /\ frag = <<S, E>>
Opts == {<<>>} \cup {<<k>> : k \in Keys}
Both(new, F(_)) ==
  /\ it' = new /\ UNCHANGED <<ph, sib>>
  /\ IF On THEN page' = TLCEval(Poll(F(page), new)) /\ UNCHANGED frag ELSE frag' = TLCEval(F(frag)) /\ UNCHANGED page
Set(k, w) == [i \in DOMAIN it |-> IF it[i].k = k THEN [it[i] EXCEPT !.want = w] ELSE it[i]]
Edit ==
  \/ \E k \in Keys, b \in Opts : op' = <<"ins", k, b>> /\ Both(U!Insert(it, [k |-> k, want |-> 0], b), LAMBDA q : DInsert(q, k, b))
  \/ \E k \in Keys : op' = <<"rm", k>> /\ Both(U!Without(it, k), LAMBDA q : DRemove(q, k))
  \/ \E k \in KeysOf(it), b \in Opts : op' = <<"mv", k, b>> /\ Both(U!MoveBefore(it, k, b), LAMBDA q : DMove(q, k, b))
  \/ \E x, y \in KeysOf(it) : op' = <<"sw", x, y>> /\ Both(U!Swap(it, x, y), LAMBDA q : DSwap(q, x, y))
  \/ \E ks \in SUBSET Keys : /\ KeysOf(it) # {} /\ op' = <<"retain", ks>>
                             /\ Both(SelectSeq(it, LAMBDA x : x.k \in ks), LAMBDA q : DRetain(q, ks))
  \/ \E i \in DOMAIN it : it[i].want < LastPhase /\ op' = <<"open", it[i].k, it[i].want>> /\ Both(Set(it[i].k, it[i].want + 1), LAMBDA q : q)
Show == /\ ~On /\ ph < 2 * Shows /\ op' = <<"show">> /\ ph' = ph + 1 /\ UNCHANGED <<it, sib>>
        /\ page' = TLCEval(Poll(ShowList(page), it)) /\ frag' = <<>>
Hide == /\ On /\ ph < 2 * Shows /\ op' = <<"hide">> /\ ph' = ph + 1 /\ UNCHANGED <<it, sib>>
        /\ frag' = Part(page, S, E)
        /\ page' = Del(SubSeq(page, 1, Ix(page, S) - 1) \o SubSeq(page, Ix(page, E) + 1, Len(page)), P)
Sib == \E n \in Sibs \ sib : op' = <<"sib", n>> /\ sib' = sib \cup {n} /\ page' = Put(page, n) /\ UNCHANGED <<it, ph, frag>>
Next == Edit \/ Show \/ Hide \/ Sib
Spec == Init /\ [][Next]_<<op, it, ph, sib, page, frag>>
View == <<it, ph, sib, page, frag>>
Visible(q) == SelectSeq(q, LAMBDA x : x[1] \in {"c", "A", "B"})
Shown(l) == LET v == SelectSeq(l, LAMBDA x : x.want = 1) IN [i \in DOMAIN v |-> Content(v[i].k)]
(* the page shows the items in their order, between the siblings *)
PageOk == Visible(page) = (IF "A" \in sib THEN <<Node("A", 0)>> ELSE <<>>) \o (IF On THEN Shown(it) ELSE <<>>)
                          \o (IF "B" \in sib THEN <<Node("B", 0)>> ELSE <<>>)
(* markers enclose their items wherever the list is *)
MarkersOk == LET q == IF On THEN Part(page, S, E) ELSE frag IN
  [i \in DOMAIN it |-> it[i].k] = [i \in DOMAIN SelectSeq(q, LAMBDA x : x[1] = "s") |-> SelectSeq(q, LAMBDA x : x[1] = "s")[i][2]]
Fp(x) == <<TLCFP(x), TLCFP(<<x, 1>>)>>
EdgeOut == PrintT("EDGE " \o ToJson(<<Fp(View), op', Fp(View')>>))
==========================================================================
