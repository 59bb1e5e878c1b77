----------------------------- MODULE MC_Events -----------------------------
(* The design of an event stream: closure, shared cell (event, waker), registration on first poll, removal on drop;
   NS streams on one element that emits events of two types. Every step must be allowed by the rules of Events. *)
EXTENDS Events, TLC, TLCExt, Json
CONSTANTS NS, NW, NE
VARIABLES op, cell, ph, todo, ne
\* cell: stream -> [ev, w]; ph: what is under way; todo: listeners still to be called
d == <<cell, ph, todo, ne>>
Init == EvInit /\ op = <<"init">> /\ cell = <<>> /\ ph = <<"idle">> /\ todo = {} /\ ne = 0
Idle == ph[1] = "idle"
Next ==
  \/ /\ Idle /\ \E s \in (1..NS) \ DOMAIN st, ty \in {1, 2}, c \in BOOLEAN :
        /\ \A x \in 1..s-1 : x \in DOMAIN st
        /\ New(s, 0, ty, c, FALSE, FALSE) /\ cell' = With(cell, s, [ev |-> 0, w |-> 0]) /\ UNCHANGED <<ph, todo, ne>>
        /\ op' = <<"new", s, ty, c>>
  \/ /\ Idle /\ \E s \in DOMAIN st, w \in 1..NW :
        /\ Poll(s, w) /\ cell' = [cell EXCEPT ![s].w = w] /\ ph' = <<"poll", s>> /\ UNCHANGED <<todo, ne>> /\ op' = <<"poll", s, w>>
  \/ /\ ph[1] = "poll" /\ st[ph[2]].f = 0
     /\ Register(ph[2], 0, st[ph[2]].ty, st[ph[2]].cap, FALSE) /\ UNCHANGED d /\ op' = <<"->">>
  \/ /\ ph[1] = "poll" /\ st[ph[2]].f # 0
     /\ Polled(ph[2], IF st[ph[2]].ph = "new" THEN 0 ELSE cell[ph[2]].ev, TRUE)
     /\ cell' = [cell EXCEPT ![ph[2]].ev = 0] /\ ph' = <<"idle">> /\ UNCHANGED <<todo, ne>> /\ op' = <<"->">>
  \/ /\ Idle /\ \E s \in DOMAIN st : Drop(s) /\ ph' = <<"drop", s>> /\ UNCHANGED <<cell, todo, ne>> /\ op' = <<"drop", s>>
  \/ /\ ph[1] = "drop" /\ st[ph[2]].reg /\ Unregister(ph[2]) /\ UNCHANGED d /\ op' = <<"->">>
  \/ /\ ph[1] = "drop" /\ ~st[ph[2]].reg /\ Dropped(ph[2]) /\ ph' = <<"idle">> /\ UNCHANGED <<cell, todo, ne>> /\ op' = <<"->">>
  \/ /\ Idle /\ ne < NE /\ \E ty \in {1, 2} :
        /\ Dispatch(ne + 1, 0, ty, TRUE) /\ ne' = ne + 1 /\ ph' = <<"disp">> /\ UNCHANGED cell
        /\ todo' = {s \in DOMAIN st : st[s].reg /\ st[s].ty = ty} /\ op' = <<"disp", ty>>
  \/ /\ ph[1] = "disp" /\ \E s \in todo :
        /\ Call(s, ne) /\ cell' = [cell EXCEPT ![s].ev = ne] /\ ph' = <<"call", s>> /\ todo' = todo \ {s} /\ UNCHANGED ne /\ op' = <<"->">>
  \/ /\ ph[1] = "call" /\ Woke(cell[ph[2]].w) /\ ph' = <<"ret", ph[2]>> /\ UNCHANGED <<cell, todo, ne>> /\ op' = <<"->">>
  \/ /\ ph[1] = "ret" /\ Called(ph[2], ne) /\ ph' = <<"disp">> /\ UNCHANGED <<cell, todo, ne>> /\ op' = <<"->">>
  \/ /\ ph[1] = "disp" /\ todo = {} /\ Dispatched(ne, FALSE) /\ ph' = <<"idle">> /\ UNCHANGED <<cell, todo, ne>> /\ op' = <<"->">>
Spec == Init /\ [][Next]_<<op, vars, d>>
View == <<st, stack, calls, cell, ph, todo, ne>>
(* the rules never stand in the way of the design *)
Free ==
  /\ Idle \/ ENABLED Next
  /\ ph[1] = "poll" /\ st[ph[2]].f # 0 => cell[ph[2]].ev = st[ph[2]].val
  /\ ph[1] = "poll" => st[ph[2]].f # 0 \/ st[ph[2]].ph = "new"
  /\ ph[1] = "ret" => st[ph[2]].told
(* an event that waits is the last one the stream was called with, and its poller knows *)
NoLost == Idle => \A s \in DOMAIN st : st[s].val # 0 => st[s].told /\ st[s].reg /\ cell[s].ev = st[s].val
Listeners == Idle => \A s \in DOMAIN st : st[s].reg <=> st[s].ph = "live"
MCFocus == {"E01", "E02"}
Fp(x) == <<TLCFP(x), TLCFP(<<x, 1>>)>>
EdgeOut == PrintT("EDGE " \o ToJson(<<Fp(View), op', Fp(View')>>))
==========================================================================
