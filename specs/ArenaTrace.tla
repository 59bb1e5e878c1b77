---------------------------- MODULE ArenaTrace ----------------------------
EXTENDS Arena, TLC, Json, IOUtils
VARIABLES t, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
tvars == <<t, l, lists, wk, peak>>
Ev == Traces[t].ev[l]
TInit == AInit /\ l = 1 /\ t \in 1..Len(Traces)

Is(b) == b = TRUE     \* a condition, evaluated as a value
AsFun(pairs) == [k \in {p[1] : p \in ToSet(pairs)} |-> (CHOOSE p \in ToSet(pairs) : p[1] = k)[2]]
HeldOK(held) ==
  LET h == AsFun(held)
      ws == {wk'[s] : s \in DOMAIN wk'} \ {0}
  IN DOMAIN h = ws /\ \A w \in ws : h[w] = Cardinality({s \in DOMAIN wk' : wk'[s] = w})
\* observation after each operation: contents of every list, clone counts, memory
Obs ==
  /\ {p[1] : p \in ToSet(Ev.lists)} = DOMAIN lists'
  /\ \A p \in ToSet(Ev.lists) : p[2] = [i \in 1..Len(lists'[p[1]]) |-> wk'[lists'[p[1]][i]]]
  /\ HeldOK(Ev.held)
  /\ Ev.mem <= 128 * (peak' + 4)

Step ==
  \/ Ev.op = "mklist" /\ MkList(Ev.l) /\ Is(Obs)
  \/ Ev.op = "add" /\ Add(Ev.l, Ev.s) /\ Is(Obs)
  \/ Ev.op = "upd" /\ Upd(Ev.s, Ev.w) /\ Is(Obs)
  \/ Ev.op = "rm" /\ Rm(Ev.s) /\ Is(Obs)
  \/ Ev.op = "rmlist" /\ RmList(Ev.l, Ev.res) /\ Is(Obs)
  \/ Ev.op = "end" /\ Ev.held = <<>> /\ UNCHANGED avars

TNext ==
  \/ l <= Len(Traces[t].ev) /\ Step /\ l' = l + 1 /\ t' = t
  \/ l = Len(Traces[t].ev) + 1 /\ PrintT("ACCEPT " \o ToString(t)) /\ l' = l + 1 /\ UNCHANGED <<t, lists, wk, peak>>
TSpec == TInit /\ [][TNext]_tvars
\* deadlock checking is off; a trace is accepted iff its end is reached (ACCEPT line)
==========================================================================
