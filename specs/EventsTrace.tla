---------------------------- MODULE EventsTrace ----------------------------
EXTENDS Events, TLC, Json, IOUtils, SequencesExt
VARIABLES t, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[t].ev[l]
TInit == EvInit /\ t \in 1..Len(Traces) /\ l = 1
Step ==
  \/ Ev.op = "new" /\ New(Ev.s, Ev.tgt, Ev.ty, Ev.cap, Ev.pas, Ev.app)
  \/ Ev.op = "poll" /\ Poll(Ev.s, Ev.w)
  \/ Ev.op = "reg" /\ Register(Ev.f, Ev.tgt, Ev.ty, Ev.cap, Ev.pas)
  \/ Ev.op = "polled" /\ Polled(Ev.s, Ev.r, Ev.inst)
  \/ Ev.op = "drop" /\ Drop(Ev.s)
  \/ Ev.op = "unreg" /\ Unregister(Ev.f)
  \/ Ev.op = "dropped" /\ Dropped(Ev.s)
  \/ Ev.op = "disp" /\ Dispatch(Ev.e, Ev.tgt, Ev.ty, Ev.can)
  \/ Ev.op = "call" /\ Call(Ev.f, Ev.e)
  \/ Ev.op = "woke" /\ Woke(Ev.w)
  \/ Ev.op = "called" /\ Called(Ev.f, Ev.e)
  \/ Ev.op = "prevent" /\ Prevent(Ev.e)
  \/ Ev.op = "disped" /\ Dispatched(Ev.e, Ev.prev)
  \/ Ev.op = "app" /\ AppBegin
  \/ Ev.op = "apped" /\ AppEnd
  \/ Ev.op \in {"mount", "unmount", "timers"} /\ UNCHANGED vars
  \/ Ev.op = "quiet" /\ Quiet
  \/ Ev.op = "end" /\ End(Ev.left)
TNext == /\ l <= Len(Traces[t].ev)
         /\ Step
         /\ l' = l + 1 /\ UNCHANGED t
         /\ (l' > Len(Traces[t].ev) => PrintT("ACCEPT " \o ToString(t)))
TSpec == TInit /\ [][TNext]_<<t, l, vars>>
==========================================================================
