------------------------------ MODULE Events ------------------------------
(* Event futures and streams (E01, E02).

   A stream is created for a target, an event type and options. Its first poll registers one listener; from then on
   the latest event waits in the stream until a poll takes it. Dropping the stream unregisters the listener.
   Direct streams are polled by the harness with wakers 1, 2, ...; app streams are awaited by mounted apps (waker 0).
   The browser calls the listeners that match a dispatched event; an app has dealt with the event by the time the
   (outermost) listener call returns.                                                                       *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Focus        \* which of "E01", "E02" are enforced
On(x) == x \in Focus
VARIABLES
  st,      \* stream -> record
  stack,   \* streams being polled or dropped, innermost last: <<kind, s>>
  calls,   \* listener calls in progress, innermost last: <<f, e>>
  apps,    \* app polls in progress
  evs      \* event -> [prev: prevented by a handler, tgt, ty, can, pas: listener calls are passive]
vars == <<st, stack, calls, apps, evs>>
EvInit == st = <<>> /\ stack = <<>> /\ calls = <<>> /\ apps = 0 /\ evs = <<>>

With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Last(q) == q[Len(q)]
Front(q) == SubSeq(q, 1, Len(q) - 1)

New(s, tgt, ty, cap, pas, app) ==
  /\ s \notin DOMAIN st
  /\ st' = With(st, s, [tgt |-> tgt, ty |-> ty, cap |-> cap, pas |-> pas, app |-> app,
                        ph |-> "new", f |-> 0, reg |-> FALSE, val |-> 0, w |-> 0, told |-> FALSE])
  /\ UNCHANGED <<stack, calls, apps, evs>>

Poll(s, w) ==
  /\ st[s].ph \in {"new", "live"}
  /\ st' = [st EXCEPT ![s].w = w, ![s].told = FALSE]
  /\ stack' = Append(stack, <<"poll", s>>)
  /\ UNCHANGED <<calls, apps, evs>>
(* a listener is registered: only by the first poll of a stream, and exactly as asked for *)
Register(f, tgt, ty, cap, pas) ==
  /\ stack # <<>> /\ Last(stack)[1] = "poll"
  /\ LET s == Last(stack)[2] IN
     /\ On("E02") => /\ st[s].ph = "new" /\ st[s].f = 0 /\ \A x \in DOMAIN st : st[x].f # f
                     /\ st[s].tgt = tgt /\ st[s].ty = ty /\ st[s].cap = cap /\ st[s].pas = pas
     /\ st' = [st EXCEPT ![s].f = f, ![s].reg = TRUE]
  /\ UNCHANGED <<stack, calls, apps, evs>>
(* the poll yields the event that waits, if any *)
Polled(s, r, inst) ==
  /\ stack # <<>> /\ Last(stack) = <<"poll", s>>
  /\ On("E02") => st[s].reg
  /\ On("E01") => /\ r = st[s].val /\ inst
                  /\ st[s].ph = "new" => r = 0
  /\ st' = [st EXCEPT ![s].ph = "live", ![s].val = 0]
  /\ stack' = Front(stack)
  /\ UNCHANGED <<calls, apps, evs>>

Drop(s) == /\ st[s].ph \in {"new", "live"}
           /\ stack' = Append(stack, <<"drop", s>>) /\ UNCHANGED <<st, calls, apps, evs>>
Unregister(f) ==
  /\ \E s \in DOMAIN st : st[s].f = f
  /\ LET s == CHOOSE s \in DOMAIN st : st[s].f = f IN
     /\ On("E02") => st[s].reg /\ stack # <<>> /\ Last(stack) = <<"drop", s>>
     /\ st' = [st EXCEPT ![s].reg = FALSE]
  /\ UNCHANGED <<stack, calls, apps, evs>>
Dropped(s) ==
  /\ stack # <<>> /\ Last(stack) = <<"drop", s>>
  /\ On("E02") => ~st[s].reg
  /\ st' = [st EXCEPT ![s].ph = "gone", ![s].val = 0]
  /\ stack' = Front(stack)
  /\ UNCHANGED <<calls, apps, evs>>

Dispatch(e, tgt, ty, can) ==
  /\ evs' = With(evs, e, [prev |-> FALSE, tgt |-> tgt, ty |-> ty, can |-> can])
  /\ UNCHANGED <<st, stack, calls, apps>>
(* the browser calls listener f with event e *)
Call(f, e) ==
  /\ \E s \in DOMAIN st : st[s].f = f
  /\ LET s == CHOOSE s \in DOMAIN st : st[s].f = f IN
     /\ st[s].reg
     /\ st[s].ty = evs[e].ty
     /\ st' = [st EXCEPT ![s].val = IF st[s].ph = "live" THEN e ELSE 0, ![s].told = FALSE]
  /\ calls' = Append(calls, <<f, e>>)
  /\ UNCHANGED <<stack, apps, evs>>
Woke(w) ==
  /\ st' = [s \in DOMAIN st |->
              IF calls # <<>> /\ st[s].f = Last(calls)[1] /\ ~st[s].app /\ st[s].w = w THEN [st[s] EXCEPT !.told = TRUE] ELSE st[s]]
  /\ UNCHANGED <<stack, calls, apps, evs>>
(* apps have dealt with every event; nothing waits in their streams *)
Handled == \A s \in DOMAIN st : st[s].app => st[s].val = 0
Called(f, e) ==
  /\ calls # <<>> /\ Last(calls) = <<f, e>>
  /\ calls' = Front(calls)
  /\ On("E01") =>
       /\ \A s \in DOMAIN st : st[s].f = f /\ ~st[s].app => st[s].told \/ st[s].val = 0
       /\ calls' = <<>> /\ apps = 0 => Handled
  /\ UNCHANGED <<st, stack, apps, evs>>
(* the app prevents the default action, which works for as long as the event is being dispatched;
   a passive listener may not *)
Prevent(e) ==
  /\ e \in DOMAIN evs
  /\ evs' = IF \E k \in DOMAIN calls : calls[k][2] = e /\ \E s \in DOMAIN st : st[s].f = calls[k][1] /\ ~st[s].pas
            THEN [evs EXCEPT ![e].prev = evs[e].can] ELSE evs
  /\ UNCHANGED <<st, stack, calls, apps>>
Dispatched(e, prev) ==
  /\ On("E01") => prev = evs[e].prev
  /\ UNCHANGED vars
AppBegin == apps' = apps + 1 /\ UNCHANGED <<st, stack, calls, evs>>
AppEnd == apps' = apps - 1 /\ UNCHANGED <<st, stack, calls, evs>>
(* nothing is left for any timer to do *)
Quiet == (On("E01") => Handled) /\ UNCHANGED vars
End(left) == /\ On("E02") => left = 0 /\ \A s \in DOMAIN st : ~st[s].reg
             /\ UNCHANGED vars
==========================================================================
