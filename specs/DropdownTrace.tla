--------------------------- MODULE DropdownTrace ---------------------------
EXTENDS Dropdown, TLC, Json, IOUtils, SequencesExt
VARIABLES t, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[t].ev[l]
TInit == DInit /\ t \in 1..Len(Traces) /\ l = 1
Els == [i \in DOMAIN Ev.opts |-> Ev.opts[i].e]
Step ==
  \/ Ev.op = "upd" /\ Update(Ev.a[1], Els)
  \/ Ev.op = "set" /\ Set(Ev.a[1])
  \/ Ev.op = "user" /\ User(Ev.a[1])
  \/ Ev.op = "mount" /\ Mount
  \/ Ev.op = "unmount" /\ Unmount
(* the page and the menu's methods agree with the specification *)
Obs ==
  /\ Els = [i \in DOMAIN opts' |-> opts'[i].e]
  /\ \A i \in DOMAIN Ev.opts : Ev.opts[i].t = opts'[i].t /\ Ev.opts[i].g = "option"
  /\ Ev.val = val'
  /\ Ev.sel = (IF val' = 0 THEN -1 ELSE At(opts', val') - 1)
  /\ ToSet(Ev.has) = KeysOf(opts')
  /\ Ev.shown = shown'
  /\ Ev.seen = (IF Ev.op = "user" /\ shown /\ opts # <<>> THEN <<val'>> ELSE <<>>)
TNext == /\ l <= Len(Traces[t].ev)
         /\ Step /\ Is(Obs)
         /\ l' = l + 1 /\ UNCHANGED t
         /\ (l' > Len(Traces[t].ev) => PrintT("ACCEPT " \o ToString(t)))
TSpec == TInit /\ [][TNext]_<<t, l, vars>>
==========================================================================
