----------------------------- MODULE ExecTrace -----------------------------
(* trace record: {id, core, ev: [{op, n, ...}]} *)
EXTENDS Exec, TLC, Json, IOUtils, Sequences
VARIABLES t, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[t].ev[l]
TInit == ExecInit /\ t \in 1..Len(Traces) /\ l = 1
Step ==
  \/ Ev.op = "spawn" /\ Spawn(Ev.i, Ev.n)
  \/ Ev.op = "set" /\ Install(0, Ev.n)
  \/ Ev.op = "wake" /\ Wake(Ev.i, Ev.n)
  \/ Ev.op = "sched" /\ Schedule(IF Traces[t].core THEN {0} ELSE {}, Ev.n)
  \/ Ev.op = "cancel" /\ Cancel(Ev.i, Ev.n)
  \/ Ev.op = "poll" /\ Poll(Ev.i, Ev.n)
  \/ Ev.op = "polled" /\ Polled(Ev.i, Ev.done, Ev.n)
  \/ Ev.op = "in" /\ In(Ev.k, Ev.n)
  \/ Ev.op = "out" /\ Out(Ev.n)
  \/ Ev.op = "quiet" /\ Quiet(Ev.n)
TNext == /\ l <= Len(Traces[t].ev)
         /\ Step
         /\ l' = l + 1 /\ UNCHANGED t
         /\ (l' > Len(Traces[t].ev) => PrintT("ACCEPT " \o ToString(t)))
TSpec == TInit /\ [][TNext]_<<t, l, evars>>
==========================================================================
