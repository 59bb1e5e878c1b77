------------------------------ MODULE MC_Diff ------------------------------
(* The design of DiffedList: update walks the previous keys and inserts, moves and removes items of the list beneath.
   Shown to end with exactly the new keys in their order, with the items of retained keys kept, for every two updates. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json
CONSTANTS NK
VARIABLES op, prev, it
U == INSTANCE Ui WITH Focus <- "L03"
Keys == 1..NK
News == UNION {{q \in [1..n -> Keys] : \A i, j \in 1..n : q[i] = q[j] => i = j} : n \in 0..NK}
Rng(q) == {q[i] : i \in DOMAIN q}
RECURSIVE Skip(_, _), Walk(_, _), RemoveAll(_, _)
Skip(rest, left) == IF rest # <<>> /\ rest[1] \notin left THEN Skip(Tail(rest), left) ELSE rest
Walk(s, new) ==            \* s: [it, rest, left]
  IF new = <<>> THEN s
  ELSE LET k == new[1]
           rest == Skip(s.rest, s.left)
           at == IF rest = <<>> THEN <<>> ELSE <<rest[1]>>
           old == k \in s.left
           s1 == [s EXCEPT !.rest = rest, !.left = @ \ {k}]
       IN Walk(TLCEval(IF old /\ at = <<k>> THEN [s1 EXCEPT !.rest = Tail(@)]
                       ELSE IF old THEN [s1 EXCEPT !.it = U!MoveBefore(@, k, at)]
                       ELSE [s1 EXCEPT !.it = U!Insert(@, [k |-> k, new |-> TRUE], at)]), Tail(new))
RemoveAll(q, ks) == SelectSeq(q, LAMBDA x : x.k \notin ks)
Init == op = <<"init">> /\ prev = <<>> /\ it = <<>>
Next == \E new \in News :
  LET s == TLCEval(Walk([it |-> [i \in DOMAIN it |-> [it[i] EXCEPT !.new = FALSE]], rest |-> prev, left |-> Rng(prev)], new))
  IN /\ it' = RemoveAll(s.it, s.left) /\ prev' = new /\ op' = <<"upd", new>>
     /\ Assert(\A i \in DOMAIN it' : it'[i].new = (it'[i].k \notin Rng(prev)), <<"kept", prev, new, it'>>)
Spec == Init /\ [][Next]_<<op, prev, it>>
Shown == [i \in DOMAIN it |-> it[i].k] = prev
View == prev
Fp(x) == <<TLCFP(x), TLCFP(<<x, 1>>)>>
EdgeOut == PrintT("EDGE " \o ToJson(<<Fp(View), op', Fp(View')>>))
==========================================================================
