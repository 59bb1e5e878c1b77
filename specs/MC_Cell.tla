------------------------------ MODULE MC_Cell ------------------------------
EXTENDS Cell, TLC, TLCExt, Json
CONSTANTS NI, NW, NV
VARIABLES op, woken
vars == <<val, ls>>
Init == CInit(0) /\ op = [op |-> "init"] /\ woken = {}
\* woken: wakers woken since their task last polled anything (history, for the no-lost-wake invariant)
Next ==
  \/ \E i \in (1..NI) \ DOMAIN ls, k \in {"until", "foreach"} :
       New(i, k) /\ op' = [op |-> "new", id |-> i, kind |-> k] /\ woken' = woken
  \/ \E i \in DOMAIN ls, w \in 1..NW, r \in BOOLEAN :
       PollUntil(i, w, r) /\ op' = [op |-> "poll", id |-> i, w |-> w, as |-> FALSE] /\ woken' = woken \ {<<i, ls[i].w>>}
  \/ \E i \in DOMAIN ls, w \in 1..NW : \E c \in {<<>>, <<val>>} :
       PollForEach(i, w, c, FALSE) /\ op' = [op |-> "poll", id |-> i, w |-> w, as |-> FALSE] /\ woken' = woken \ {<<i, ls[i].w>>}
  \/ \E i \in DOMAIN ls : Drop(i) /\ op' = [op |-> "drop", id |-> i] /\ woken' = {p \in woken : p[1] # i}
  \/ \E v \in 0..NV : Borrow(v, MustWake) /\ op' = [op |-> "set", v |-> v, how |-> 0, nop |-> (v = val)]
       /\ woken' = woken \cup {<<i, ls[i].w>> : i \in {j \in Waiting : ls[j].w \in MustWake}}
  \/ \E v \in {val} : UNCHANGED <<vars, woken>> /\ op' = [op |-> "read"]
Spec == Init /\ [][Next]_<<vars, op, woken>>
View == <<val, ls, woken>>
\* no lost wake: a stale listener's task has been woken
NoLostWake == \A i \in DOMAIN ls : ls[i].dirty => <<i, ls[i].w>> \in woken
Fp(x) == <<TLCFP(x), TLCFP(<<x, 1>>)>>
EdgeOut == PrintT("EDGE " \o ToJson(<<Fp(View), op', Fp(View')>>))
==========================================================================
