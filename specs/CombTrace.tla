----------------------------- MODULE CombTrace -----------------------------
(* trace record: {id, insts: [[c, kind, n, aw]...], ev: [...]} *)
EXTENDS Comb, TLC, Json, IOUtils, SequencesExt
VARIABLES t, l, cs, vals
Traces == ndJsonDeserialize(IOEnv.TRACES)
tvars == <<t, l, cs, vals>>
Ev == Traces[t].ev[l]
TInit == \E x \in 1..Len(Traces) :
  /\ t = x /\ l = 1 /\ vals = <<>>
  /\ LET I == Traces[x].insts IN
     cs = [c \in {I[k][1] : k \in DOMAIN I} |->
             LET d == I[CHOOSE k \in DOMAIN I : I[k][1] = c] IN NewInst(d[2], d[3], d[4])]
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Set(c, r) == cs' = [cs EXCEPT ![c] = r]
KeepV == UNCHANGED vals
C == cs[Ev.c]
HeldBy(c) == {v \in DOMAIN vals : vals[v].c = c /\ vals[v].st = "held"}
Step ==
  \/ Ev.op = "poll" /\ OkPoll(C) /\ Set(Ev.c, Poll(C, Ev.w)) /\ KeepV
  \/ Ev.op = "cstart" /\ OkStart(C, Ev.i) /\ Set(Ev.c, Start(C, Ev.i)) /\ KeepV
  \/ /\ Ev.op = "cend" /\ OkFinish(C, Ev.i)
     /\ IF Ev.r = "pend" THEN UNCHANGED <<cs, vals>>
        ELSE /\ Set(Ev.c, Finish(C, Ev.i, Ev.r, Ev.v))
             /\ vals' = With(vals, Ev.v, [c |-> Ev.c, i |-> Ev.i, st |-> "held"])
  \/ Ev.op = "wstart" /\ Set(Ev.c, WakeStart(C, Ev.i)) /\ KeepV
  \/ Ev.op = "wend" /\ OkWakeEnd(C, Ev.i) /\ UNCHANGED <<cs, vals>>
  \/ Ev.op = "pwake" /\ OkPWake(C) /\ Set(Ev.c, PWake(C, Ev.w)) /\ KeepV
  \/ Ev.op = "handler" /\ OkHandler(C, Ev.i, Ev.v) /\ Set(Ev.c, Handler(C)) /\ KeepV
  \/ /\ Ev.op = "ret" /\ OkRet(C, Ev.r, Ev.vs) /\ Set(Ev.c, Ret(C, Ev.r))
     /\ On("C03") => \A k \in DOMAIN Ev.vs : Ev.vs[k] \in HeldBy(Ev.c) /\ \A j \in DOMAIN Ev.vs : Ev.vs[j] = Ev.vs[k] => j = k
     /\ vals' = [v \in DOMAIN vals |-> IF v \in ToSet(Ev.vs) THEN [vals[v] EXCEPT !.st = "out"] ELSE vals[v]]
  \/ Ev.op = "cdrop" /\ OkDropKid(C, Ev.i) /\ Set(Ev.c, DropKid(C, Ev.i)) /\ KeepV
  \/ /\ Ev.op = "vdrop"
     /\ On("C03") => /\ Ev.v \in DOMAIN vals /\ vals[Ev.v].st # "gone"
                     /\ vals[Ev.v].st = "held" => MayDropValue(cs[vals[Ev.v].c], vals[Ev.v].i)
     /\ vals' = With(vals, Ev.v, [c |-> 0, i |-> 0, st |-> "gone"]) /\ UNCHANGED cs
  \/ Ev.op = "drop" /\ OkDrop(C) /\ Set(Ev.c, Drop(C)) /\ KeepV
  \/ /\ Ev.op = "dropped" /\ OkDropped(C) /\ Set(Ev.c, Dropped(C)) /\ KeepV
     /\ On("C03") => HeldBy(Ev.c) = {}
  \/ /\ Ev.op = "end" /\ UNCHANGED <<cs, vals>>
     /\ On("C03") => /\ Ev.held = <<>>
                     /\ \A c \in DOMAIN cs : cs[c].st = "gone"
                     /\ \A v \in DOMAIN vals : vals[v].st = "gone"
TNext ==
  \/ l <= Len(Traces[t].ev) /\ Step /\ l' = l + 1 /\ t' = t
  \/ l = Len(Traces[t].ev) + 1 /\ PrintT("ACCEPT " \o ToString(t)) /\ l' = l + 1 /\ UNCHANGED <<t, cs, vals>>
TSpec == TInit /\ [][TNext]_tvars
==========================================================================
