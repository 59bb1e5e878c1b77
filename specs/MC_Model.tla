----------------------------- MODULE MC_Model -----------------------------
(* The design of ListModel and ModeledList: a bounded log of changes with a version, and an update that either follows the
   log or rebuilds the list. Shown to end with exactly the model's keys in their order, keeping the items of keys that have
   been in the model ever since, however the model was edited.                                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, SequencesExt
CONSTANTS NK, Lags
VARIABLES op, vec, log, lag, same, it, gone
\* lag: changes since the list's last update from this model (up to Lags; more make no difference); same: has it seen this model
\* it: the list's items, [k, new]; gone: keys removed from the model since (history)
U == INSTANCE Ui WITH Focus <- "L04"
Keys == 1..NK
Perms == UNION {{q \in [1..n -> Keys] : \A i, j \in 1..n : q[i] = q[j] => i = j} : n \in 0..NK}
Vecs == {q \in Perms : Len(q) \in {0, NK - 1} /\ q = SortSeq(q, <)}
Rng(q) == {q[i] : i \in DOMAIN q}
Opt(q, i) == IF i \in DOMAIN q THEN <<q[i]>> ELSE <<>>
Init == /\ op = <<"init">> /\ vec = <<>> /\ log = <<>> /\ lag = 0 /\ same = FALSE /\ it = <<>> /\ gone = {}
Change(c, len) ==         \* add_change, when the vector has length len
  /\ log' = (LET q == Append(log, c) IN IF Len(q) > len \div 2 THEN Tail(q) ELSE q)
  /\ lag' = IF lag < Lags THEN lag + 1 ELSE Lags
Free == Keys \ Rng(vec)
Fresh == CHOOSE k \in Free : \A j \in Free : k <= j      \* (which unused key is inserted makes no difference, but one that was removed does)
Again == {k \in Free : k \in gone}
Edit ==
  \/ \E k \in (IF Free = {} THEN {} ELSE {Fresh}) \cup Again : \E i \in 1..Len(vec)+1 :
       /\ op' = IF i > Len(vec) THEN <<"push", k>> ELSE <<"insert", i - 1, k>>
       /\ vec' = InsertAt(vec, i, k) /\ Change(<<"ins", k, Opt(vec, i)>>, Len(vec))
  \/ \E i \in DOMAIN vec : /\ op' = <<"remove", i - 1>> /\ vec' = RemoveAt(vec, i) /\ Change(<<"rm", vec[i]>>, Len(vec) - 1)
  \/ /\ vec # <<>> /\ op' = <<"pop">> /\ vec' = SubSeq(vec, 1, Len(vec) - 1) /\ Change(<<"rm", vec[Len(vec)]>>, Len(vec) - 1)
  \/ \E i, j \in DOMAIN vec :
       /\ op' = <<"swap", i - 1, j - 1>> /\ vec' = [vec EXCEPT ![i] = vec[j], ![j] = vec[i]]
       /\ Change(<<"sw", vec[i], vec[j]>>, Len(vec))
  \/ \E i, j \in DOMAIN vec :
       LET v == InsertAt(RemoveAt(vec, i), j, vec[i]) IN
       /\ op' = <<"move", i - 1, j - 1>> /\ vec' = v /\ Change(<<"mv", vec[i], Opt(v, j + 1)>>, Len(vec))
  \/ \E v \in Vecs :
       /\ op' = <<"vec", v>> /\ vec' = v /\ log' = <<>> /\ lag' = IF lag < Lags THEN lag + 1 ELSE Lags
(* update *)
Follow(q, c) ==
  CASE c[1] = "ins" -> U!Insert(q, [k |-> c[2], new |-> TRUE], c[3])
    [] c[1] = "rm" -> U!Without(q, c[2])
    [] c[1] = "sw" -> U!Swap(q, c[2], c[3])
    [] c[1] = "mv" -> U!MoveBefore(q, c[2], c[3])
CanFollow(q, c) ==
  CASE c[1] = "ins" -> c[2] \notin U!Keys(q)
    [] c[1] = "rm" -> c[2] \in U!Keys(q)
    [] c[1] = "sw" -> {c[2], c[3]} \subseteq U!Keys(q)
    [] c[1] = "mv" -> c[2] \in U!Keys(q)
RECURSIVE FollowAll(_, _), AddAll(_, _, _), PutAll(_, _, _, _)
FollowAll(q, cs) ==
  IF cs = <<>> THEN q
  ELSE IF ~Assert(CanFollow(q, cs[1]), <<"the log does not fit", q, cs>>) THEN q
  ELSE FollowAll(TLCEval(Follow(q, cs[1])), Tail(cs))
AddAll(q, kept, i) ==
  IF i > Len(vec) THEN q
  ELSE AddAll(IF vec[i] \in kept THEN q ELSE U!Insert(q, [k |-> vec[i], new |-> TRUE], <<>>), kept, i + 1)
PutAll(q, kept, i, last) ==
  IF i = 0 THEN q
  ELSE PutAll(TLCEval(IF vec[i] \in kept THEN U!MoveBefore(q, vec[i], last) ELSE q), kept, i - 1, <<vec[i]>>)
Rebuild(q) ==
  LET kept == U!Keys(q) \cap Rng(vec)
      q1 == SelectSeq(q, LAMBDA x : x.k \in kept)
      q2 == TLCEval(AddAll(q1, kept, 1))
  IN PutAll(q2, kept, Len(vec), <<>>)
Update ==
  LET old == [i \in DOMAIN it |-> [it[i] EXCEPT !.new = FALSE]]
      new == TLCEval(IF same /\ lag <= Len(log) THEN FollowAll(old, SubSeq(log, Len(log) - lag + 1, Len(log))) ELSE Rebuild(old))
  IN /\ op' = <<"mupd">> /\ it' = new /\ lag' = 0 /\ same' = TRUE /\ gone' = {} /\ UNCHANGED <<vec, log>>
     /\ Assert([i \in DOMAIN new |-> new[i].k] = vec, <<"shows", new, vec, it, log, lag>>)
     /\ Assert(same => \A i \in DOMAIN new : new[i].new => new[i].k \notin (U!Keys(it) \cap Rng(vec)) \ gone, <<"kept", new>>)
Switch ==                 \* the list is now updated from a model it has not seen: a clone
  /\ same /\ op' = <<"clone">> /\ same' = FALSE /\ log' = <<>> /\ lag' = 0 /\ gone' = {} /\ UNCHANGED <<vec, it>>
Next == \/ Edit /\ gone' = gone \cup (Rng(vec) \ Rng(vec')) /\ UNCHANGED <<same, it>>
        \/ Update \/ Switch
vars == <<vec, log, lag, same, it, gone>>
Spec == Init /\ [][Next]_<<op, vars>>
View == <<vec, log, lag, same, U!KeySeq(it), gone>>
Fp(x) == <<TLCFP(x), TLCFP(<<x, 1>>)>>
EdgeOut == PrintT("EDGE " \o ToJson(<<Fp(View), op', Fp(View')>>))
==========================================================================
