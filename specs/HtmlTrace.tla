----------------------------- MODULE HtmlTrace -----------------------------
EXTENDS Html, Json, IOUtils
VARIABLES t, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[t].ev[l]
TInit == HtmlInit /\ t \in 1..Len(Traces) /\ l = 1
Step ==
  /\ \/ Ev.op = "new" /\ New(Ev.e, Ev.k, Ev.custom, Ev.input, Ev.tag, Ev.ty, Ev.in)
     \/ Ev.op = "cls" /\ Classes(Ev.e, Ev.k, Ev.a, Ev.same)
     \/ Ev.op = "show" /\ Show(Ev.e, Ev.es)
     \/ Ev.op = "text" /\ Text(Ev.e, Ev.s)
     \/ Ev.op = "hide" /\ Hide(Ev.e)
  /\ Seen(Ev.page, Ev.cls)
TNext == /\ l <= Len(Traces[t].ev)
         /\ Step
         /\ l' = l + 1 /\ UNCHANGED t
         /\ (l' > Len(Traces[t].ev) => PrintT("ACCEPT " \o ToString(t)))
TSpec == TInit /\ [][TNext]_<<t, l, hvars>>
==========================================================================
