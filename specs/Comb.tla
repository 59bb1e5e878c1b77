------------------------------- MODULE Comb -------------------------------
(* Combinators join, try_join, race, race_ok, meanwhile, pend_after and select! (C01-C04).

   One record per combinator instance; its children are numbered 0..n-1. The steps are what is
   observable from outside: the caller polls and drops the instance, the instance polls and drops
   its children, somebody wakes a child's waker, the instance wakes its parent's waker, and output
   values change hands. Operators named Ok* are the rules, the others are the effects.
   Left open on purpose: the order in which children are polled within a poll, which of several
   simultaneously finished children decides a race, coalesced or extra wakes of the parent while a
   child is waiting, and when children are dropped once the instance has resolved.              *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Focus   \* which of "C01".."C04" are enforced
On(x) == x \in Focus

NewInst(kind, n, aw) ==
  [kind |-> kind, n |-> n, aw |-> aw, st |-> "live", busy |-> FALSE, curw |-> 0, pw |-> FALSE, anyw |-> FALSE,
   must |-> {}, polled |-> {}, handled |-> 0,
   kid |-> [i \in 0..n-1 |-> [ph |-> "new", flag |-> TRUE, late |-> FALSE, r |-> "none", v |-> 0]]]

Open(r, i) == r.kid[i].ph \in {"new", "live"}         \* not finished, not dropped
Kids(r) == 0..r.n-1
Done(r) == {i \in Kids(r) : r.kid[i].r # "none"}
Oks(r) == {i \in Kids(r) : r.kid[i].r = "ok"}
Errs(r) == {i \in Kids(r) : r.kid[i].r = "err"}
AllVs(r) == [k \in 1..r.n |-> r.kid[k-1].v]
OneOf(r, S, vs) == Len(vs) = 1 /\ \E i \in S : vs[1] = r.kid[i].v

(* what the instance must answer, given which children have finished with what *)
Answer(r, res, vs) ==
  CASE r.kind = "join" ->
         IF Done(r) = Kids(r) THEN res = "ok" /\ vs = AllVs(r) ELSE res = "pend"
    [] r.kind = "try_join" ->
         IF Errs(r) # {} THEN res = "err" /\ OneOf(r, Errs(r), vs)
         ELSE IF Done(r) = Kids(r) THEN res = "ok" /\ vs = AllVs(r) ELSE res = "pend"
    [] r.kind = "race_ok" ->
         IF Oks(r) # {} THEN res = "ok" /\ OneOf(r, Oks(r), vs)
         ELSE IF Done(r) = Kids(r) THEN res = "err" /\ vs = AllVs(r) ELSE res = "pend"
    [] r.kind \in {"race", "select"} ->
         IF Done(r) # {} THEN res = "ok" /\ OneOf(r, Done(r), vs) ELSE res = "pend"
    [] r.kind = "meanwhile" ->
         IF 0 \in Done(r) THEN res = "ok" /\ vs = <<r.kid[0].v>> ELSE res = "pend"
    [] r.kind = "pend_after" -> res = "pend"
(* the outcome is settled, so the remaining children are not needed any more *)
Decided(r) ==
  CASE r.kind = "join" -> Done(r) = Kids(r)
    [] r.kind = "try_join" -> Errs(r) # {} \/ Done(r) = Kids(r)
    [] r.kind = "race_ok" -> Oks(r) # {} \/ Done(r) = Kids(r)
    [] r.kind \in {"race", "select"} -> Done(r) # {}
    [] r.kind = "meanwhile" -> 0 \in Done(r)
    [] r.kind = "pend_after" -> FALSE
Core(r) == r.kind \in {"join", "try_join", "race", "race_ok"}
(* children whose output nobody wants *)
Effect(r, i) == (r.kind = "meanwhile" /\ i = 1) \/ r.kind = "pend_after"

------------------------------------------------------------------------------
OkPoll(r) == r.st = "live" /\ ~r.busy
Poll(r, w) ==
  [r EXCEPT !.busy = TRUE, !.curw = w, !.pw = FALSE, !.anyw = FALSE, !.polled = {},
            !.must = {i \in Kids(r) : Open(r, i) /\ r.kid[i].flag},
            !.kid = [i \in Kids(r) |-> [r.kid[i] EXCEPT !.flag = @ \/ r.kid[i].late, !.late = FALSE]]]

(* a child is polled on its first turn or after a wake; never after it finished *)
OkStart(r, i) ==
  /\ r.busy /\ r.kid[i].ph # "gone"
  /\ On("C02") => Open(r, i) /\ (r.kind = "pend_after" \/ r.kid[i].flag)
  /\ On("C04") /\ r.kind \in {"meanwhile", "pend_after", "select"} => Open(r, i)
Start(r, i) == [r EXCEPT !.polled = @ \cup {i}, !.kid[i].ph = "live", !.kid[i].flag = FALSE]

OkFinish(r, i) == r.busy /\ r.kid[i].ph = "live"
Finish(r, i, res, v) == [r EXCEPT !.kid[i].ph = "fin", !.kid[i].r = res, !.kid[i].v = v]

(* somebody wakes child i's waker *)
WakeStart(r, i) == [r EXCEPT !.anyw = TRUE, !.kid[i].flag = TRUE, !.kid[i].late = r.busy]
OkWakeEnd(r, i) == On("C02") /\ r.st = "live" /\ ~r.busy /\ Open(r, i) => r.pw
(* the instance wakes parent waker w *)
OkPWake(r) == On("C02") => r.anyw
PWake(r, w) == [r EXCEPT !.pw = @ \/ (w = r.curw)]

(* select! runs the handler of a finished branch, once *)
OkHandler(r, i, v) ==
  r.kind = "select" /\ r.busy /\ (On("C04") => r.handled = 0 /\ i \in Done(r) /\ r.kid[i].v = v)
Handler(r) == [r EXCEPT !.handled = @ + 1]

OkRet(r, res, vs) ==
  /\ r.busy
  /\ (IF Core(r) THEN On("C01") ELSE On("C04")) => Answer(r, res, vs)
  /\ On("C02") /\ res = "pend" =>
       /\ \A i \in r.must : i \in r.polled
       /\ (\E i \in Kids(r) : Open(r, i) /\ r.kid[i].flag) => r.pw
  /\ On("C04") =>
       /\ r.kind = "pend_after" => \A i \in Done(r) : r.kid[i].ph = "gone"
       /\ r.kind = "select" /\ res # "pend" => r.handled = 1 /\ \A i \in Kids(r) : r.kid[i].ph = "gone"
       /\ r.kind = "meanwhile" /\ r.aw /\ res # "pend" => \A i \in Kids(r) : r.kid[i].ph = "gone"
Ret(r, res) == [r EXCEPT !.busy = FALSE, !.st = IF res = "pend" THEN @ ELSE "done"]

OkDropKid(r, i) ==
  /\ r.kid[i].ph # "gone"
  /\ On("C03") /\ Open(r, i) => r.st \in {"done", "dropping"} \/ (r.busy /\ Decided(r))
DropKid(r, i) == [r EXCEPT !.kid[i].ph = "gone"]

OkDrop(r) == r.st \in {"live", "done"} /\ ~r.busy
Drop(r) == [r EXCEPT !.st = "dropping"]
OkDropped(r) == r.st = "dropping" /\ (On("C03") \/ ~Core(r) => \A i \in Kids(r) : r.kid[i].ph = "gone")
Dropped(r) == [r EXCEPT !.st = "gone"]

(* a value produced by child i and held by the instance may only be dropped when it is unwanted *)
MayDropValue(r, i) == r.st # "live" \/ (r.busy /\ Decided(r)) \/ Effect(r, i)
==========================================================================
