----------------------------- MODULE VirtTrace -----------------------------
EXTENDS Virt, TLC, Json, IOUtils, SequencesExt
VARIABLES t, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
Tr == Traces[t]
Ev == Tr.ev[l]
TInit == VInit /\ t \in 1..Len(Traces) /\ l = 1
See(news) ==
  /\ Ev.calm
  /\ Ev.shown = shown' /\ (~shown' => ~Ev.some) /\ Ev.placed
  /\ Seen(news, Ev.items, Ev.alive, Ev.f, Ev.b, Tr.h, Ev.r, Ev.v, 1000)
  /\ Ev.ls = (IF shown' THEN 1 ELSE 0) /\ (~shown' => Ev.obs = 0)
NewN == IF Tr.keep THEN Ev.n = n ELSE TRUE
Step ==
  \/ Ev.op = "num" /\ Num(Ev.n) /\ See(shown)
  \/ Ev.op = "mount" /\ NewN /\ Mount(Ev.n) /\ See(~shown)
  \/ Ev.op = "unmount" /\ Unmount /\ See(FALSE)
  \/ Ev.op \in {"scroll", "by"} /\ NewN /\ Move(Ev.n) /\ See(shown /\ Ev.v # at) /\ (Tr.keep => KeepOk(Ev.items, Ev.rends))
  \/ Ev.op = "size" /\ NewN /\ Move(Ev.n) /\ See(FALSE)
TNext == /\ l <= Len(Tr.ev)
         /\ Step
         /\ l' = l + 1 /\ UNCHANGED t
         /\ (l' > Len(Tr.ev) => PrintT("ACCEPT " \o ToString(t)))
TSpec == TInit /\ [][TNext]_<<t, l, vars>>
==========================================================================
