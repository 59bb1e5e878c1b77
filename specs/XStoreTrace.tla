---------------------------- MODULE XStoreTrace ----------------------------
EXTENDS XStore, TLC, Json, IOUtils
VARIABLES t, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
\* the conditions enforced in this run: listener kinds, "spur", "held", "data", "see", "acc"
CONSTANT Focus
tvars == <<t, l, data, ls>>
Ev == Traces[t].ev[l]
\* event 1 of every trace is the initial dump of the stores
TInit == \E x \in 1..Len(Traces) : t = x /\ l = 2 /\ XInit(ToSet(Traces[x].ev[1].data))

Is(b) == b = TRUE           \* a condition, evaluated as a value
Chk(k, c) == Is(k \notin Focus \/ c)
Wk == ToSet(Ev.wk)
\* required wakes, restricted to the kinds in focus; no wake beyond those allowed
WakesOn(L, must, may, own) ==
  /\ Is(Ws(L, {i \in must : L[i].kind \in Focus}) \subseteq Wk)
  /\ Chk("spur", Wk \subseteq WsMay(L, may) \cup own)
WakesOk(must, may, own) == WakesOn(ls, must, may, own)
Quiet == WakesOk({}, {}, {})
Obs == /\ Chk("held", ToSet(Ev.held) \subseteq MayHold)
       /\ Chk("data", ToSet(Ev.data) = data')
Bev == [j \in 1..Len(Ev.bev) |-> IF IsAct(Ev.bev[j]) THEN [Ev.bev[j] EXCEPT ![4] = ToSet(@)] ELSE Ev.bev[j]]
Calls == [j \in 1..Len(Ev.calls) |-> ToSet(Ev.calls[j])]

Poll(x) ==
  \/ /\ x.kind \in {"until", "bub"}
     /\ Chk(x.kind, Ev.res = StreamRes(x)) /\ Quiet
     /\ PollStream(Ev.id, Ev.w)
  \/ /\ x.kind = "signal"
     /\ Chk("signal", Ev.res = SignalRes(x) /\ Calls = SignalCalls(x)) /\ Quiet
     /\ PollSignal(Ev.id, Ev.w)
  \/ /\ x.kind = "foreach"
     /\ Chk("foreach", Ev.res = "pending" /\ Calls = ForEachCalls(x)) /\ Quiet
     /\ PollForEach(Ev.id, Ev.w)
  \/ /\ x.kind = "fea"
     /\ Chk("fea", Ev.res = "pending" /\ Calls = ForEachCalls(x) /\ BodiesOk(x, Bev))
     /\ LET L == FeaL(Ev.id, Ev.w, Bev)
            r == AfterActs(L, Bev) IN
        Chk("acc", ActsOk(L, Bev)) /\ WakesOn(L, r.must, r.may, {})
     /\ PollFea(Ev.id, Ev.w, Bev)
  \/ /\ x.kind = "bind"
     /\ Chk("bind", BindCallsOk(x, Calls) /\ BindResOk(x, Ev.res))
     /\ WakesOk(BindMust(Ev.id), BindMay(Ev.id), {Ev.w})
     /\ PollBind(Ev.id, Ev.w, Ev.res)

Step ==
  \/ Ev.op = "new" /\ New(Ev.id, Ev.kind, Ev.fire, Ev.p) /\ Quiet /\ Obs
  \/ Ev.op = "poll" /\ Ev.id \in DOMAIN ls /\ ls[Ev.id].st = "live" /\ Poll(ls[Ev.id]) /\ Obs
  \/ /\ Ev.op = "drop" /\ Drop(Ev.id, Bev) /\ Obs
     /\ Chk("fea", DropBodiesOk(ls[Ev.id], Bev))
     /\ Chk("acc", ActsOk(Without(ls, Ev.id), Bev))
     /\ WakesOk(AfterActs(Without(ls, Ev.id), Bev).must, DropMay(Ev.id, Bev), {})
  \/ Ev.op = "act" /\ UNCHANGED xvars /\ Quiet /\ Obs
  \/ Ev.op = "open" /\ Open(Ev.id) /\ Quiet /\ Obs
  \/ Ev.op = "feed" /\ Feed(Ev.id, [j \in 1..Len(Ev.vals) |-> ToSet(Ev.vals[j])], Ev.end) /\ Quiet /\ Obs
  \/ /\ Ev.op = "acc" /\ Acc(Ev.p, Ev.how, ToSet(Ev.val))
     /\ Chk("acc", Ev.res = AccOk(Ev.p, Ev.how))
     /\ Chk("spur", Ev.early = 0)
     /\ WakesOk(AccMust(Ev.p, Ev.how), AccMay(Ev.p, Ev.how), {}) /\ Obs
  \/ /\ Ev.op = "see" /\ UNCHANGED xvars /\ Quiet /\ Obs
     /\ Chk("see", Ev.some = ExistsIn(data, Ev.p) /\ ToSet(Ev.val) = SubIn(data, Ev.p))
  \/ Ev.op = "share" /\ Share(Ev.st, 1) /\ Quiet /\ Obs
  \/ Ev.op = "unshare" /\ data' = {IF Last(e[1]) = "rc" THEN <<e[1], 0>> ELSE e : e \in data} /\ UNCHANGED ls /\ Quiet /\ Obs
  \/ Ev.op = "end" /\ Chk("held", Ev.held = <<>>) /\ UNCHANGED xvars
TNext ==
  \/ l <= Len(Traces[t].ev) /\ Step /\ l' = l + 1 /\ t' = t
  \/ l = Len(Traces[t].ev) + 1 /\ PrintT("ACCEPT " \o ToString(t)) /\ l' = l + 1 /\ UNCHANGED <<t, data, ls>>
TSpec == TInit /\ [][TNext]_tvars
==========================================================================
