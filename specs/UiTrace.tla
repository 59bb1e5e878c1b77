------------------------------ MODULE UiTrace ------------------------------
(* trace record: {id, lists: [{l, kind, tpl}...], slots: [s...], ev: [...]} *)
EXTENDS Ui, Json, IOUtils
VARIABLES t, l, s
Traces == ndJsonDeserialize(IOEnv.TRACES)
tvars == <<t, l, s>>
Ev == Traces[t].ev[l]
TInit == \E x \in 1..Len(Traces) :
  /\ t = x /\ l = 1
  /\ LET T == Traces[x] IN
     s = [Start EXCEPT !.lists = [y \in {T.lists[i].l : i \in DOMAIN T.lists} |->
                                    LET d == T.lists[CHOOSE i \in DOMAIN T.lists : T.lists[i].l = y] IN NewList(d.kind, d.tpl)],
                       !.slots = [y \in ToSet(T.slots) |-> [cur |-> <<>>, futs |-> {}]]]
It == s.lists[Ev.l].items
Is(b) == b = TRUE          \* a condition, evaluated as a value
Same == s' = s
Step ==
  \/ Ev.op = "host" /\ s' = [s EXCEPT !.hosts = With(@, Ev.h, Ev.o), !.fo = With(@, Ev.o, Ev.fs)]
  \/ Ev.op = "foreign" /\ s' = [s EXCEPT !.fo = LET old == IF Ev.p \in DOMAIN @ THEN @[Ev.p] ELSE <<>> IN
                                             With(@, Ev.p, IF Ev.first THEN <<Ev.o>> \o old ELSE Append(old, Ev.o))]
  \/ Ev.op = "mount" /\ s' = [s EXCEPT !.mounts = With(@, Ev.m, [h |-> Ev.h, prog |-> Ev.prog, st |-> "live"])]
  \/ Ev.op = "unmount" /\ s' = [s EXCEPT !.mounts[Ev.m].st = "gone"]
  \/ Ev.op = "close" /\ s' = [s EXCEPT !.mounts = [m \in DOMAIN @ |-> [@[m] EXCEPT !.st = "gone"]]]
  \/ Ev.op = "open" /\ s' = [s EXCEPT !.gates = @ \cup {Ev.g}]
  \/ Ev.op = "acted" /\ Ev.a \notin s.acted /\ s' = [s EXCEPT !.acted = @ \cup {Ev.a}]
  \/ Ev.op = "mk" /\ Ev.id \notin DOMAIN s.objs /\ s' = [s EXCEPT !.objs = With(@, Ev.id, Ev.o)]
  \/ /\ Ev.op = "ins" /\ Ev.ret = (Ev.k \in Keys(It))
     /\ s' = SetItems(s, Ev.l, Insert(It, [k |-> Ev.k, px |-> Ev.px, prog |-> Ev.prog], Ev.before))
  \/ Ev.op = "rm" /\ Ev.ret = (Ev.k \in Keys(It)) /\ s' = SetItems(s, Ev.l, Without(It, Ev.k))
  \/ Ev.op = "mv" /\ Ev.k \in Keys(It) /\ s' = SetItems(s, Ev.l, MoveBefore(It, Ev.k, Ev.before))
  \/ Ev.op = "sw" /\ {Ev.a, Ev.b} \subseteq Keys(It) /\ s' = SetItems(s, Ev.l, Swap(It, Ev.a, Ev.b))
  \/ /\ Ev.op = "retain" /\ Is(ToSet(Ev.seen) = Keys(It) /\ Len(Ev.seen) = Len(It))
     /\ s' = SetItems(s, Ev.l, SelectSeq(It, LAMBDA x : x.k \in ToSet(Ev.keep)))
  \/ Ev.op = "has" /\ Ev.ret = (Ev.k \in Keys(It)) /\ Same
  \/ /\ Ev.op = "upd" /\ Is(UpdateOk(s, Ev.l, Ev.keys, Ev.rend, Keys(It) \cap ToSet(Ev.keys)))
     /\ Cardinality({Ev.rend[i][1] : i \in DOMAIN Ev.rend}) = Len(Ev.rend)
     /\ {Ev.rend[i][1] : i \in DOMAIN Ev.rend} \subseteq ToSet(Ev.keys)
     /\ s' = Update(s, Ev.l, Ev.keys, Ev.rend)
  \/ /\ Ev.op = "mupd" /\ Is(UpdateOk(s, Ev.l, ModelOf(s, Ev.m), Ev.rend, Kept(s, Ev.l, Ev.m)))
     /\ s' = [Update(s, Ev.l, ModelOf(s, Ev.m), Ev.rend) EXCEPT !.lists[Ev.l].lastm = Ev.m, !.lists[Ev.l].gone = {}]
  \/ /\ Ev.op = "model" /\ Is(EditOk(ModelOf(s, Ev.m), Ev.f, Ev.a, Ev.ret)) /\ Ev.vec = Edited(s, Ev.m, Ev.f, Ev.a)
     /\ s' = EditModel(s, Ev.m, Ev.f, Ev.a)
  \/ Ev.op = "sset" /\ s' = [s EXCEPT !.slots[Ev.s] = [cur |-> <<[px |-> Ev.px, prog |-> Ev.prog]>>, futs |-> @.futs \cup {Ev.px}]]
  \/ Ev.op = "sclr" /\ s' = [s EXCEPT !.slots[Ev.s].cur = <<>>]
  \/ Ev.op = "peek" /\ Is(PeekOk(s, Ev.hosts)) /\ Same
  \/ Ev.op = "snap" /\ Is(QuietOk(s, Ev.hosts, ToSet(Ev.alive), Ev.out)) /\ Same
  \/ Ev.op = "end" /\ Is(HostsOk(s, EvalMounts(s), Ev.hosts)) /\ Ev.alive = <<>> /\ Same
TNext ==
  \/ l <= Len(Traces[t].ev) /\ Step /\ l' = l + 1 /\ t' = t
  \/ l = Len(Traces[t].ev) + 1 /\ PrintT("ACCEPT " \o ToString(t)) /\ l' = l + 1 /\ UNCHANGED <<t, s>>
TSpec == TInit /\ [][TNext]_tvars
==========================================================================
