----------------------------- MODULE CellTrace -----------------------------
EXTENDS Cell, TLC, Json, IOUtils, SequencesExt
VARIABLES t, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
tvars == <<t, l, val, ls>>
Ev == Traces[t].ev[l]
TInit == \E x \in 1..Len(Traces) : t = x /\ l = 1 /\ CInit(Traces[x].init)
Quiet == Ev.wk = <<>>
HeldOK == ToSet(Ev.held) \subseteq {ls'[i].w : i \in {j \in DOMAIN ls' : ls'[j].polled}}
Step ==
  \/ /\ Ev.op = "new" /\ New(Ev.id, Ev.kind) /\ Quiet /\ HeldOK
  \/ /\ Ev.op = "drop" /\ Drop(Ev.id) /\ Quiet /\ HeldOK
  \/ /\ Ev.op = "poll" /\ Quiet
     /\ \/ PollUntil(Ev.id, Ev.w, Ev.res) /\ Ev.calls = <<>>
        \/ PollForEach(Ev.id, Ev.w, Ev.calls, Ev.res)
     /\ HeldOK
  \/ /\ Ev.op = "set" /\ Borrow(IF Ev.nop THEN val ELSE Ev.v, ToSet(Ev.wk)) /\ HeldOK
     /\ Ev.refused /\ Ev.early = 0
  \/ /\ Ev.op = "read" /\ Quiet /\ Ev.v = val /\ Ev.v2 = val /\ Ev.refused /\ UNCHANGED cvars
  \/ /\ Ev.op = "clone" /\ Quiet /\ Ev.v = val /\ UNCHANGED cvars
  \/ /\ Ev.op = "end" /\ Ev.held = <<>> /\ UNCHANGED cvars
TNext ==
  \/ l <= Len(Traces[t].ev) /\ Step /\ l' = l + 1 /\ t' = t
  \/ l = Len(Traces[t].ev) + 1 /\ PrintT("ACCEPT " \o ToString(t)) /\ l' = l + 1 /\ UNCHANGED <<t, val, ls>>
TSpec == TInit /\ [][TNext]_tvars
==========================================================================
