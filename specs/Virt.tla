------------------------------- MODULE Virt -------------------------------
(* A virtualized list (L05): of n items, all of size h, those near the viewport are rendered, between two spacers that
   stand for the others. Observed when the page and the app have come to rest.
   Sets of items are given as sequences of runs <<first, last>>.                                                   *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES
  n,       \* number of items
  shown,   \* is the list on the page
  items,   \* the items rendered
  at       \* where the viewport begins, measured from the beginning of the list
vars == <<n, shown, items, at>>
VInit == n = 0 /\ shown = FALSE /\ items = <<>> /\ at = 0

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Count(its) == IF its = <<>> THEN 0 ELSE its[1][2] - its[1][1] + 1
Before(its) == its[1][1]               \* items before and behind the ones rendered
Behind(its) == n' - 1 - its[1][2]
(* what is rendered is one run of existing items, in order *)
RunOk(its) == its = <<>> \/ (Len(its) = 1 /\ its[1][1] >= 0 /\ its[1][2] < n')
(* the spacers are there exactly for the items that are not rendered, and are as large as those (up to rounding to pixels) *)
SpacersOk(its, f, b, h) ==
  IF its = <<>> THEN n' = 0 <=> f = 0 /\ b = 0     \* (their size may not be known yet, but they are not nothing)
  ELSE /\ f - 1 <= Before(its) * h /\ Before(its) * h <= f + 1
       /\ b - 1 <= Behind(its) * h /\ Behind(its) * h <= b + 1
(* no part of the viewport that belongs to the list is blank *)
Covered(its, f, b, h, r, v) ==
  LET total == f + Count(its) * h + b
      lo == Max2(v, 0)
      hi == Min2(v + r, total)
  IN lo < hi => f <= lo /\ f + Count(its) * h >= hi
(* but items far away are not rendered: not more than fill five viewports (and when their size is not known, not many) *)
Frugal(its, h, rmax) == Count(its) <= 24 \/ (Count(its) - 3) * h <= 5 * rmax
(* scrolling keeps the items that stay: what is rendered anew was not there before *)
KeepOk(its, rends) ==
  \A i \in DOMAIN rends, j \in DOMAIN items, k \in DOMAIN its :
    Max2(rends[i][1], Max2(items[j][1], its[k][1])) > Min2(rends[i][2], Min2(items[j][2], its[k][2]))
(* one step of the world, and what is seen afterwards *)
Seen(scrolled, its, alive, f, b, h, r, v, rmax) ==
  /\ items' = its /\ at' = v
  /\ RunOk(its)
  /\ shown' => /\ alive = its
               /\ SpacersOk(its, f, b, h)
               /\ Frugal(its, h, rmax)
  /\ scrolled =>       \* the scroll position is new or the number of items was set
       Covered(its, f, b, h, r, v)
  /\ ~shown' => its = <<>>
Num(k) == n' = k /\ UNCHANGED shown
Mount(k) == n' = k /\ shown' = TRUE      \* (an item that appears may set the number of items)
Unmount == shown' = FALSE /\ UNCHANGED n
Move(k) == n' = k /\ UNCHANGED shown
==========================================================================
