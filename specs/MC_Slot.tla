------------------------------ MODULE MC_Slot ------------------------------
(* The design of DynamicSlot: a message box of one place between whoever sets or clears the slot and the future rendering it.
   Shown: the slot comes to hold what was asked for last, whoever asked - also futures that replace themselves, or ask for
   something when they are dropped - and whoever has something to do has been woken.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json
CONSTANTS Kinds, MaxSets
VARIABLES op, ph, box, fut, want, woken, n
\* a future: [kind, open, done]; kind "leaf": shows something; "until": until its gate opens; "gate": when it has opened;
\* "ready": finishes at once; "self": sets the slot to a leaf when its gate opens; "drop": sets the slot to a leaf when dropped
vars == <<ph, box, fut, want, woken, n>>
F(k) == [kind |-> k, open |-> FALSE, done |-> FALSE]
Leaf == F("leaf")
St == [ph |-> ph, box |-> box, fut |-> fut, want |-> want, woken |-> woken]
\* what the code does; s.box: <<>> nothing, <<"clear">> or <<"set", future>>
Old(b) == IF Len(b) = 2 THEN <<b[2]>> ELSE <<>>
RECURSIVE Send(_, _), Dropped(_, _)
Send(s, m) ==
  LET prev == Old(s.box) IN
  Dropped([s EXCEPT !.box = m, !.woken = @ \/ s.ph = 1, !.want = Old(m)], prev)
Dropped(s, fs) == IF fs # <<>> /\ fs[1].kind = "drop" THEN Send(s, <<"set", Leaf>>) ELSE s
PollFut(s) ==
  IF s.fut = <<>> \/ s.fut[1].done THEN s
  ELSE LET f == s.fut[1] IN
       CASE f.kind = "ready" \/ (f.kind = "until" /\ f.open) -> [s EXCEPT !.fut = <<[f EXCEPT !.done = TRUE]>>]
         [] f.kind = "self" /\ f.open -> Send([s EXCEPT !.fut = <<[f EXCEPT !.kind = "leaf"]>>], <<"set", Leaf>>)
         [] OTHER -> s
PollOnce(s) ==
  LET b == s.box
      s0 == [s EXCEPT !.box = <<>>, !.woken = FALSE]
      s1 == IF b = <<>> THEN s0 ELSE Dropped([s0 EXCEPT !.fut = Old(b)], s0.fut)
  IN PollFut(s1)
RECURSIVE Settled(_)
Settled(s) == IF s.woken THEN Settled(TLCEval(PollOnce(s))) ELSE s
Becomes(s) == ph' = s.ph /\ box' = s.box /\ fut' = s.fut /\ want' = s.want /\ woken' = s.woken
Init == op = <<"init">> /\ ph = 0 /\ box = <<>> /\ fut = <<>> /\ want = <<>> /\ woken = FALSE /\ n = 0
HasGate(f) == f.kind \in {"until", "gate", "self"} /\ ~f.open
Opened(fs) == IF fs # <<>> /\ HasGate(fs[1]) THEN <<[fs[1] EXCEPT !.open = TRUE]>> ELSE fs
Next ==
  \/ \E k \in Kinds : n < MaxSets /\ Becomes(Send(St, <<"set", F(k)>>)) /\ n' = n + 1 /\ op' = <<"set", k>>
  \/ n < MaxSets /\ Becomes(Send(St, <<"clear">>)) /\ n' = n + 1 /\ op' = <<"clear">>
  \* the gate of what was asked for last
  \/ /\ want # <<>> /\ HasGate(want[1])
     /\ Becomes([St EXCEPT !.want = Opened(want), !.box = IF Old(box) # <<>> THEN <<"set", Opened(Old(box))[1]>> ELSE @,
                           !.fut = IF box = <<>> THEN Opened(@) ELSE @,
                           !.woken = @ \/ (box = <<>> /\ ph = 1)])
     /\ op' = <<"open">> /\ UNCHANGED n
  \/ ph = 0 /\ Becomes([St EXCEPT !.ph = 1, !.woken = TRUE]) /\ op' = <<"show">> /\ UNCHANGED n
  \* the future rendering the slot is dropped, and what it holds
  \/ ph = 1 /\ Becomes(LET s == Settled(St) IN Dropped([s EXCEPT !.ph = 2, !.fut = <<>>, !.woken = FALSE], s.fut)) /\ op' = <<"hide">> /\ UNCHANGED n
  \/ ph = 1 /\ woken /\ Becomes(Settled(St)) /\ op' = <<"settle">> /\ UNCHANGED n
Spec == Init /\ [][Next]_<<vars, op>>
View == vars
\* what is on screen
Visible(f) == f.kind \in {"leaf", "drop"} \/ (f.kind = "until" /\ ~f.open) \/ (f.kind = "gate" /\ f.open)
Shown == fut # <<>> /\ ~fut[1].done /\ Visible(fut[1])
NoLostWake == ph = 1 /\ box # <<>> => woken
Right == ph = 1 /\ ~woken => /\ box = <<>> /\ Shown = (want # <<>> /\ Visible(want[1]))
                             /\ want = <<>> => fut = <<>>
                             /\ want # <<>> => fut # <<>> /\ fut[1].kind = want[1].kind
Fp(x) == <<TLCFP(x), TLCFP(<<x, 1>>)>>
EdgeOut == PrintT("EDGE " \o ToJson(<<Fp(View), op', Fp(View')>>))
==========================================================================
