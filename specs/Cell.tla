------------------------------- MODULE Cell -------------------------------
(* ReactiveCell: a RefCell whose mutable borrows notify listeners (W02). *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
  val,  \* the data
  ls    \* listener id -> [kind, polled, dirty, w]: "until" (future/stream) or "foreach"

cvars == <<val, ls>>
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]

CInit(v) == val = v /\ ls = <<>>

New(i, k) ==
  /\ i \notin DOMAIN ls
  /\ ls' = With(ls, i, [kind |-> k, polled |-> FALSE, dirty |-> FALSE, w |-> 0])
  /\ UNCHANGED val

Drop(i) == i \in DOMAIN ls /\ ls' = Without(ls, i) /\ UNCHANGED val

\* "until": ready iff polled before and the cell was mutably borrowed since
PollUntil(i, w, res) ==
  /\ i \in DOMAIN ls /\ ls[i].kind = "until"
  /\ res = (ls[i].polled /\ ls[i].dirty)
  /\ ls' = [ls EXCEPT ![i] = [kind |-> "until", polled |-> TRUE, dirty |-> FALSE, w |-> w]]
  /\ UNCHANGED val

\* "foreach": calls its function with the current data on the first poll and after changes; never resolves
PollForEach(i, w, calls, res) ==
  /\ i \in DOMAIN ls /\ ls[i].kind = "foreach"
  /\ res = FALSE
  /\ calls = IF ~ls[i].polled \/ ls[i].dirty THEN <<val>> ELSE <<>>
  /\ ls' = [ls EXCEPT ![i] = [kind |-> "foreach", polled |-> TRUE, dirty |-> FALSE, w |-> w]]
  /\ UNCHANGED val

Waiting == {i \in DOMAIN ls : ls[i].polled}
\* wakers that must be woken by a mutable borrow now, and those that may be
MustWake == {ls[i].w : i \in {j \in Waiting : ~ls[j].dirty}}
MayWake == {ls[i].w : i \in Waiting}

\* a mutable borrow taken and released (writing v, or leaving the value alone)
Borrow(v, wakes) ==
  /\ val' = v
  /\ MustWake \subseteq wakes /\ wakes \subseteq MayWake
  /\ ls' = [i \in DOMAIN ls |-> IF ls[i].polled THEN [ls[i] EXCEPT !.dirty = TRUE] ELSE ls[i]]

\* wakers that anybody may still hold
Held == {ls[i].w : i \in Waiting}
==========================================================================
