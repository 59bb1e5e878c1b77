------------------------------- MODULE Exec -------------------------------
(* The root executor (R01).

   Tasks are spawned, woken, polled and cancelled; the browser fires timers; an event handler or the app itself
   runs the executor at once. What is fixed: a woken task is polled again as long as timers keep firing, tasks are
   polled one at a time, only inside a run, only when woken, never after they finished, and a batch of wakes asks for
   one timer. What is left open: the order in which tasks are polled, whether a run started by an event handler
   already polls a task or leaves it to the timer, and timers that turn out to have nothing to do.        *)
EXTENDS Integers, FiniteSets
VARIABLES
  live,    \* tasks that exist and have not finished
  pend,    \* live tasks that have been woken and not been polled since
  cur,     \* tasks being polled now (at most one)
  depth,   \* runs of the executor that have begun and not ended
  n,       \* timers waiting to fire
  asked    \* a timer was requested since the last run began
evars == <<live, pend, cur, depth, n, asked>>

ExecInit == live = {} /\ pend = {} /\ cur = {} /\ depth = 0 /\ n = 0 /\ asked = FALSE

(* with nobody running the executor, a timer must be on its way whenever a task waits to be polled *)
WillRun(p, d, m) == d = 0 /\ p # {} => m > 0
Timers(m) == /\ m \in {n, n + 1}
             /\ m = n + 1 => ~asked
             /\ n' = m
             /\ asked' = (asked \/ m = n + 1)

Spawn(i, m) == /\ i \notin live
               /\ live' = live \cup {i} /\ pend' = pend \cup {i} /\ UNCHANGED <<cur, depth>>
               /\ Timers(m) /\ WillRun(pend', depth, m)
\* a root future is installed; nothing is asked of it until it is woken or scheduled
Install(i, m) == /\ live' = live \cup {i} /\ UNCHANGED <<pend, cur, depth>> /\ Timers(m)
Wake(i, m) == /\ pend' = pend \cup ({i} \cap live) /\ UNCHANGED <<live, cur, depth>>
              /\ Timers(m) /\ WillRun(pend', depth, m)
Schedule(root, m) == /\ pend' = pend \cup (root \cap live) /\ UNCHANGED <<live, cur, depth>>
                     /\ Timers(m) /\ WillRun(pend', depth, m)
Cancel(i, m) == /\ live' = live \ {i} /\ pend' = pend \ {i} /\ UNCHANGED <<cur, depth>>
                /\ Timers(m) /\ WillRun(pend', depth, m)
Poll(i, m) == /\ depth > 0 /\ cur = {} /\ i \in pend
              /\ cur' = {i} /\ pend' = pend \ {i} /\ UNCHANGED <<live, depth>> /\ Timers(m)
Polled(i, done, m) == /\ cur = {i} /\ cur' = {}
                      /\ live' = IF done THEN live \ {i} ELSE live
                      /\ pend' = IF done THEN pend \ {i} ELSE pend
                      /\ UNCHANGED depth /\ Timers(m)
In(k, m) == /\ k = "timer" => n > 0
            /\ m = IF k = "timer" THEN n - 1 ELSE n
            /\ n' = m /\ depth' = depth + 1
            /\ asked' = (depth # 0 /\ asked)
            /\ UNCHANGED <<live, pend, cur>>
Out(m) == /\ depth > 0 /\ depth' = depth - 1 /\ UNCHANGED <<live, pend, cur>>
          /\ Timers(m) /\ WillRun(pend, depth', m)
\* every timer has fired
Quiet(m) == m = 0 /\ n = 0 /\ pend = {} /\ cur = {} /\ UNCHANGED evars
==========================================================================
