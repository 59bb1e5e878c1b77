------------------------------ MODULE XStore ------------------------------
(* x-bow stores: data, paths, mutations and every kind of change listener (X01-X06).

   Data is a set of entries <<path, integer>>; a path is a sequence of segments. Containers
   carry an entry of their own (length / variant / presence), so the part named by a path
   exists iff some entry's path extends it. The first segment names the store. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

VARIABLES
  data,
  ls   \* listener id -> record, see NewRec

xvars == <<data, ls>>
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]

Pre(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
ExistsIn(d, p) == \E e \in d : Pre(p, e[1])
SubIn(d, p) == {<<SubSeq(e[1], Len(p) + 1, Len(e[1])), e[2]>> : e \in {x \in d : Pre(p, x[1])}}
PutIn(d, p, v) == {e \in d : ~Pre(p, e[1])} \cup {<<p \o e[1], e[2]>> : e \in v}
\* the content of an Rc that somebody else shares cannot be mutated
SharedAbove(d, p) == \E e \in d : /\ Len(e[1]) < Len(p) /\ Pre(e[1], p)
                                   /\ Last(e[1]) = "rc" /\ e[2] = 1
WritableIn(d, p) == ExistsIn(d, p) /\ ~SharedAbove(d, p)

Kinds == {"until", "bub", "signal", "foreach", "fea", "bind"}
NewRec(k, f, p) ==
  [kind |-> k, fire |-> f, p |-> p,
   st |-> "live",          \* live, ended (signal stream at its end) or fin (bind finished)
   polled |-> FALSE, dirty |-> FALSE, w |-> 0,
   old |-> {},             \* wakers a finished bind may still hold besides w (it need not take the last one)
   q |-> <<>>, fend |-> FALSE,                             \* bind: incoming values, end of incoming
   n |-> 0, run |-> 0, alive |-> {}, undrop |-> {}, open |-> FALSE]  \* fea: async bodies

\* a mutation at path p concerns listener x
Hit(x, p) == IF x.kind = "bub" THEN Pre(x.p, p) ELSE Pre(p, x.p)

Dirtied(L, p) == [i \in DOMAIN L |-> IF L[i].polled /\ Hit(L[i], p) THEN [L[i] EXCEPT !.dirty = TRUE] ELSE L[i]]
\* listeners whose wakers a mutation at p must wake / may wake
MustI(L, p) == {i \in DOMAIN L : L[i].polled /\ Hit(L[i], p) /\ ~L[i].dirty /\ L[i].st = "live"}
MayI(L, p) == {i \in DOMAIN L : L[i].polled /\ Hit(L[i], p)}
Ws(L, I) == {L[i].w : i \in I}
WsMay(L, I) == Ws(L, I) \cup UNION {L[i].old : i \in I}

XInit(d) == data = d /\ ls = <<>>

New(i, k, f, p) ==
  /\ i \notin DOMAIN ls /\ k \in Kinds
  /\ ls' = With(ls, i, NewRec(k, f, p))
  /\ UNCHANGED data

\* ---- mutations
\* which of the access functions write / notify
Writes(how) == how \in {"set", "guard", "quiet"}
Notifies(how) == how \in {"set", "guard", "touch", "notify"}
AccOk(p, how) == how = "notify" \/ WritableIn(data, p)
\* as a function: store before -> store after, with the listeners it must / may wake
AccOn(s, p, how, v) ==
  LET ok == how = "notify" \/ WritableIn(s.data, p)
      n == ok /\ Notifies(how) IN
  [data |-> IF ok /\ Writes(how) THEN PutIn(s.data, p, v) ELSE s.data,
   L |-> IF n THEN Dirtied(s.L, p) ELSE s.L,
   must |-> s.must \cup (IF n THEN MustI(s.L, p) ELSE {}),
   may |-> s.may \cup (IF n THEN MayI(s.L, p) ELSE {}),
   ok |-> Append(s.ok, ok)]
StoreOf(L) == [data |-> data, L |-> L, must |-> {}, may |-> {}, ok |-> <<>>]
Acc(p, how, v) == LET r == AccOn(StoreOf(ls), p, how, v) IN data' = r.data /\ ls' = r.L
AccMust(p, how) == AccOn(StoreOf(ls), p, how, {}).must
AccMay(p, how) == AccOn(StoreOf(ls), p, how, {}).may

\* ---- polls
First(x) == ~x.polled
Trig(x) == ~x.polled \/ x.dirty                     \* first poll or changed since
Synced(x, w) == [x EXCEPT !.polled = TRUE, !.dirty = FALSE, !.w = w]

\* until / bub: what the poll returns
StreamRes(x) == IF x.polled /\ x.dirty THEN "ready" ELSE "pending"
PollStream(i, w) ==
  /\ ls' = [ls EXCEPT ![i] = Synced(@, w)]
  /\ UNCHANGED data

SignalFires(x) == IF x.polled THEN x.dirty ELSE x.fire
SignalRes(x) == IF ~SignalFires(x) THEN "pending" ELSE IF ExistsIn(data, x.p) THEN "ready" ELSE "end"
SignalCalls(x) == IF SignalRes(x) = "ready" THEN <<SubIn(data, x.p)>> ELSE <<>>
PollSignal(i, w) ==
  /\ ls' = [ls EXCEPT ![i] = [Synced(@, w) EXCEPT !.st = IF SignalRes(ls[i]) = "end" THEN "ended" ELSE "live"]]
  /\ UNCHANGED data

ForEachCalls(x) == IF Trig(x) /\ ExistsIn(data, x.p) THEN <<SubIn(data, x.p)>> ELSE <<>>
PollForEach(i, w) == PollStream(i, w)

\* for_each_async: one poll runs a sequence of body events (start/poll/done/drop), and the
\* mutations bodies make on the way: <<"acc", path, how, value, succeeded>>
IsAct(e) == e[1] = "acc"
ActStep(s, e) == AccOn(s, e[2], e[3], e[4])
ActsOf(bev) == SelectSeq(bev, IsAct)
\* the store after the mutations of bev, the listeners being L before
AfterActs(L, bev) == FoldLeft(ActStep, StoreOf(L), ActsOf(bev))
ActsOk(L, bev) == LET a == ActsOf(bev) IN AfterActs(L, bev).ok = [j \in 1..Len(a) |-> a[j][5]]
BadBody == [n |-> -1, run |-> 0, alive |-> {}, undrop |-> {}, open |-> FALSE, polled |-> {}, started |-> 0]
BodyOf(x) == [n |-> x.n, run |-> x.run, alive |-> x.alive, undrop |-> x.undrop, open |-> x.open, polled |-> {}, started |-> 0]
BodyStep(b, e) ==
  LET k == e[1]
      m == e[2] IN
  IF b.n = -1 \/ IsAct(e) THEN b
  ELSE IF k = "start" /\ m = b.n + 1
       THEN [b EXCEPT !.n = m, !.run = m, !.alive = @ \cup {m}, !.undrop = @ \cup {m}, !.open = FALSE, !.started = @ + 1]
  ELSE IF k = "poll" /\ m = b.run /\ b.alive = {m}      \* the superseded body is gone by now
       THEN [b EXCEPT !.polled = @ \cup {m}]
  ELSE IF k = "done" /\ m = b.run /\ b.open
       THEN [b EXCEPT !.run = 0, !.alive = @ \ {m}]
  ELSE IF k = "drop" /\ m \in b.undrop /\ m # b.run
       THEN [b EXCEPT !.alive = @ \ {m}, !.undrop = @ \ {m}]
  ELSE BadBody
Bodies(x, bev) == FoldLeft(BodyStep, BodyOf(x), bev)
\* the body events of one poll are legal and complete
BodiesOk(x, bev) ==
  LET b == Bodies(x, bev)
      starts == Trig(x) /\ ExistsIn(data, x.p)
      cur == IF starts THEN x.n + 1 ELSE x.run IN
  /\ b.n # -1
  /\ b.started = IF starts THEN 1 ELSE 0
  /\ cur # 0 => cur \in b.polled
  /\ (cur # 0 /\ cur = x.run /\ x.open) => b.run = 0    \* it was allowed to finish
\* it has taken note of all changes before its bodies run: what they change wakes it again
FeaL(i, w, bev) ==
  LET b == Bodies(ls[i], bev) IN
  [ls EXCEPT ![i] = [Synced(@, w) EXCEPT !.n = b.n, !.run = b.run, !.alive = b.alive, !.undrop = b.undrop, !.open = b.open]]
PollFea(i, w, bev) ==
  LET r == AfterActs(FeaL(i, w, bev), bev) IN data' = r.data /\ ls' = r.L
\* the same poll as the design prescribes it, for model checking
BevOf(x, acts) ==
  LET starts == Trig(x) /\ ExistsIn(data, x.p)
      old == IF x.run # 0 THEN <<<<"drop", x.run>>>> ELSE <<>> IN
  IF starts THEN <<<<"start", x.n + 1>>>> \o old \o <<<<"poll", x.n + 1>>>> \o acts
  ELSE IF x.run = 0 THEN <<>>
  ELSE IF x.open THEN <<<<"poll", x.run>>>> \o acts \o <<<<"done", x.run>>, <<"drop", x.run>>>>
  ELSE <<<<"poll", x.run>>>> \o acts
Open(i) == ls[i].kind = "fea" /\ ls' = [ls EXCEPT ![i].open = TRUE] /\ UNCHANGED data

\* bind_for_each
Feed(i, vals, end) ==
  /\ ls[i].kind = "bind" /\ ~ls[i].fend
  /\ ls' = [ls EXCEPT ![i].q = @ \o vals, ![i].fend = end]
  /\ UNCHANGED data
BindWrites(x) == x.q # <<>> /\ WritableIn(data, x.p)
BindData(x) == IF BindWrites(x) THEN PutIn(data, x.p, Last(x.q)) ELSE data
BindMust(i) == IF BindWrites(ls[i]) THEN MustI(ls, ls[i].p) \ {i} ELSE {}
BindMay(i) == IF BindWrites(ls[i]) THEN MayI(ls, ls[i].p) \cup {i} ELSE {}
\* calls of on_change: certain when nothing came in; when something came in together with an
\* outside change (or on the very first poll) both are acceptable; own changes alone: none
BindCallsOk(x, calls) ==
  LET now == IF ExistsIn(BindData(x), x.p) THEN <<SubIn(BindData(x), x.p)>> ELSE <<>> IN
  IF x.q = <<>> /\ ~x.fend THEN calls = IF Trig(x) THEN now ELSE <<>>
  ELSE calls = <<>> \/ (Trig(x) /\ calls = now)
\* finished iff the incoming stream ended; when a value could not be stored both are acceptable
BindResOk(x, res) ==
  IF x.q # <<>> /\ ~WritableIn(data, x.p) /\ ~x.fend THEN res \in {"ready", "pending"}
  ELSE res = IF x.fend THEN "ready" ELSE "pending"
PollBind(i, w, res) ==
  LET x == ls[i]
      L == IF BindWrites(x) THEN Dirtied(ls, x.p) ELSE ls IN
  /\ data' = BindData(x)
  /\ ls' = [L EXCEPT ![i] = [Synced(@, w) EXCEPT !.q = <<>>, !.st = IF res = "ready" THEN "fin" ELSE "live",
                                         !.old = IF res = "ready" /\ x.polled THEN {x.w} ELSE {}]]

\* dropping a listener drops all its bodies
DropBodyStep(S, e) == IF IsAct(e) THEN S ELSE IF e[1] = "drop" /\ e[2] \in S THEN S \ {e[2]} ELSE {-1}
DropBodiesOk(x, bev) == FoldLeft(DropBodyStep, x.undrop, bev) = {}
Drop(i, bev) ==
  LET r == AfterActs(Without(ls, i), bev) IN
  i \in DOMAIN ls /\ ls' = r.L /\ data' = r.data
\* (whether the listener itself is told of what its own body does while it is dropped is open)
DropMay(i, bev) == AfterActs(Without(ls, i), bev).may \cup {i}

Share(s, b) ==
  /\ data' = {IF e[1] = <<s, "rc">> THEN <<e[1], b>> ELSE e : e \in data}
  /\ UNCHANGED ls

\* wakers somebody may still hold
MayHold == WsMay(ls', {j \in DOMAIN ls' : ls'[j].polled})
==========================================================================
