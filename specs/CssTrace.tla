----------------------------- MODULE CssTrace -----------------------------
(* trace record: {id, ev: [{op, x, k}..., {op: "sheet", pages, consts, sfx}]} *)
EXTENDS Css, TLC, Json, IOUtils
VARIABLES t, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[t].ev[l]
TInit == CssInit /\ t \in 1..Len(Traces) /\ l = 1
Step ==
  \/ Ev.op = "class" /\ Class(Ev.x)
  \/ Ev.op = "type" /\ Type(Ev.x)
  \/ Ev.op = "simple" /\ Simple(Ev.x)
  \/ Ev.op = "func" /\ Func(Ev.x)
  \/ Ev.op = "funcend" /\ FuncEnd
  \/ Ev.op = "attr" /\ Attr
  \/ Ev.op = "attrend" /\ AttrEnd
  \/ Ev.op = "comb" /\ Comb(Ev.x)
  \/ Ev.op = "open" /\ Open
  \/ Ev.op = "close" /\ Close
  \/ Ev.op = "at" /\ At(Ev.x, Ev.k)
  \/ Ev.op = "semi" /\ Semi
  \/ Ev.op = "stuff" /\ Stuff(Ev.x)
  \/ Ev.op = "enter" /\ Enter(Ev.x)
  \/ Ev.op = "leave" /\ Leave(Ev.x)
  \/ Ev.op = "space" /\ Space(Ev.x)
  \/ Ev.op = "comment" /\ Comment(Ev.x)
  \/ Ev.op = "sheet" /\ Sheet(Ev.pages, Ev.consts, Ev.sfx)
  \/ Ev.op = "suffixes" /\ Suffixes(Ev.list)
TNext == /\ l <= Len(Traces[t].ev)
         /\ Step
         /\ l' = l + 1 /\ UNCHANGED t
         /\ (l' > Len(Traces[t].ev) => PrintT("ACCEPT " \o ToString(t)))
TSpec == TInit /\ [][TNext]_<<t, l, cvars>>
==========================================================================
