------------------------------ MODULE MC_Comb ------------------------------
(* The algorithm the combinators use (a list of woken children under one shared readiness record and a
   stored parent waker), run against an arbitrary environment; every observable step must obey Comb's rules. *)
EXTENDS Comb, TLC, TLCExt, Json, SequencesExt
CONSTANTS N, NW, KINDS
VARIABLES r, awake, q, parent, pc, cur, ok, op
vars == <<r, awake, q, parent, pc, cur, ok, op>>
AllFocus == {"C01", "C02", "C03", "C04"}
Init ==
  /\ \E k \in KINDS : r = NewInst(k, N, FALSE)
  /\ awake = [k \in 1..N |-> k - 1] /\ q = <<>> /\ parent = 0 /\ pc = "idle" /\ cur = 0 /\ ok = TRUE
  /\ op = [op |-> "init"]
PollCall(w) ==
  /\ pc = "idle" /\ r.st = "live"
  /\ parent' = w /\ q' = awake /\ awake' = <<>> /\ pc' = "loop"
  /\ ok' = OkPoll(r) /\ r' = Poll(r, w)
  /\ op' = [op |-> "poll", w |-> w] /\ UNCHANGED cur
SkipFinished ==
  /\ pc = "loop" /\ q # <<>> /\ r.kid[Head(q)].ph = "fin"
  /\ q' = Tail(q) /\ op' = [op |-> "skip"] /\ UNCHANGED <<r, awake, parent, pc, cur, ok>>
KidStart ==
  /\ pc = "loop" /\ q # <<>> /\ r.kid[Head(q)].ph # "fin"
  /\ cur' = Head(q) /\ q' = Tail(q) /\ pc' = "kid"
  /\ ok' = OkStart(r, cur') /\ r' = Start(r, cur')
  /\ op' = [op |-> "cstart", i |-> cur'] /\ UNCHANGED <<awake, parent>>
Breaks(res) == CASE r.kind = "join" -> FALSE [] r.kind = "race" -> TRUE
                 [] r.kind = "try_join" -> res = "err" [] r.kind = "race_ok" -> res = "ok"
KidEnd(res) ==
  /\ pc = "kid"
  /\ IF res = "pend" THEN r' = r /\ ok' = TRUE /\ pc' = "loop"
     ELSE r' = Finish(r, cur, res, cur + 1) /\ ok' = OkFinish(r, cur) /\ pc' = IF Breaks(res) THEN "brk" ELSE "loop"
  /\ op' = [op |-> "cend", i |-> cur, r |-> res] /\ UNCHANGED <<awake, q, parent, cur>>
RetStep ==
  LET go(res, vs) == ok' = OkRet(r, res, vs) /\ r' = Ret(r, res) IN
  /\ \/ pc = "brk" /\ go(IF r.kind = "try_join" THEN "err" ELSE "ok", <<r.kid[cur].v>>)
     \/ pc = "loop" /\ q = <<>> /\ (IF Done(r) = Kids(r) /\ N > 0 THEN go(IF r.kind = "race_ok" THEN "err" ELSE "ok", AllVs(r))
                                    ELSE go("pend", <<>>))
  /\ pc' = "idle" /\ cur' = 0 /\ q' = <<>> /\ op' = [op |-> "ret"] /\ UNCHANGED <<awake, parent>>
\* a child's waker exists once the child was polled; it may be woken at any time, even during polls and after the drop
Wake(i) ==
  /\ pc \in {"idle", "kid"} /\ r.kid[i].r # "x" /\ (r.kid[i].ph # "new")
  /\ LET new == ~(\E k \in DOMAIN awake : awake[k] = i)
         p == new /\ Len(awake) = 0
         r1 == WakeStart(r, i)
         r2 == IF p THEN PWake(r1, parent) ELSE r1
     IN /\ awake' = (IF new THEN Append(awake, i) ELSE awake)
        /\ ok' = ((p => OkPWake(r1)) /\ OkWakeEnd(r2, i)) /\ r' = r2
  /\ op' = [op |-> "wake", i |-> i] /\ UNCHANGED <<q, parent, pc, cur>>
DropAll ==
  /\ pc = "idle" /\ r.st \in {"live", "done"}
  /\ LET r1 == Drop(r) IN
     /\ ok' = (OkDrop(r) /\ \A i \in Kids(r) : OkDropKid(r1, i))
     /\ r' = [r1 EXCEPT !.st = "gone", !.kid = [i \in Kids(r) |-> [r1.kid[i] EXCEPT !.ph = "gone"]]]
  /\ op' = [op |-> "drop"] /\ UNCHANGED <<awake, q, parent, pc, cur>>
Next == \/ \E w \in 1..NW : PollCall(w)
        \/ SkipFinished \/ KidStart \/ RetStep \/ DropAll
        \/ \E res \in {"pend", "ok", "err"} : KidEnd(res)
        \/ \E i \in 0..N-1 : Wake(i)
Spec == Init /\ [][Next]_vars
View == <<r, awake, q, parent, pc, cur, ok>>
Obeys == ok
\* whoever was woken while the combinator is at rest has got the caller woken
NoLostWake == pc = "idle" /\ r.st = "live" /\ (\E i \in Kids(r) : r.kid[i].ph = "live" /\ r.kid[i].flag) => r.pw
TypeOK == /\ r.st \in {"live", "done", "gone"} /\ Len(awake) <= N
          /\ \A i, j \in DOMAIN awake : awake[i] = awake[j] => i = j
Fp(x) == <<TLCFP(x), TLCFP(<<x, 1>>)>>
EdgeOut == PrintT("EDGE " \o ToJson(<<Fp(View), op' @@ [kind |-> r.kind], Fp(View')>>))
==========================================================================
