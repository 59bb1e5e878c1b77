------------------------------ MODULE MC_Virt ------------------------------
(* The design of the virtualized list: a window of items is chosen from measured sizes whenever the list scrolls, the number
   of items changes, or a size had to be guessed. Shown to come to rest, and to implement Virt, in a page that scrolls,
   clamps its scroll offset, and has other things (P and Q) before and behind the list.                               *)
EXTENDS Virt, TLC, TLCExt, Json
CONSTANTS Ns, H, R, P, Q, Ds
VARIABLES op, s
DsDef == {-24, -9, -1, 1, 9, 24, 200}
\* s: [num, lo, hi (the range rendered), f, b (spacers), sc (scroll offset), on (mounted), stale (outdated)]
Init == VInit /\ op = <<"init">> /\ s = [num |-> 0, lo |-> 0, hi |-> 0, f |-> 0, b |-> 0, sc |-> 0, on |-> FALSE, stale |-> FALSE]
Cdiv(a, b) == -((-a) \div b)
Tres == R + R \div 4
Pad == 2 * R
Upd(x, force) ==
  LET t0 == P - x.sc                     \* top of the front spacer, in a viewport 0..R
      t1 == t0 + x.f                     \* its bottom
      t2 == t1 + (x.hi - x.lo) * H       \* top of the one at the back
      guess == x.hi = x.lo
      avg == IF guess THEN R \div 4 ELSE H
      hi == Min2(IF R + Pad - t0 <= 0 THEN 0 ELSE Cdiv(R + Pad - t0, avg), x.num)
      lo == Min2(Max2((-Pad - t0) \div avg, 0), hi)
  IN IF ~force /\ (t1 + Tres < 0 \/ x.lo = 0) /\ (t2 - Tres > R \/ x.hi = x.num)
     THEN [x EXCEPT !.stale = FALSE]
     ELSE [x EXCEPT !.lo = lo, !.hi = hi, !.f = avg * lo, !.b = avg * (x.num - hi), !.stale = guess /\ lo < hi]
Total(x) == P + x.f + (x.hi - x.lo) * H + x.b + Q
Clamp(x) == [x EXCEPT !.sc = Max2(0, Min2(@, Total(x) - R))]
(* until nothing is left to do; 30 rounds are not needed *)
RECURSIVE Rest(_, _, _)
Rest(x, news, k) ==
  LET y == Clamp(x) IN
  IF k = 0 THEN [y EXCEPT !.num = -1]
  ELSE IF y.stale THEN Rest(TLCEval(Upd([y EXCEPT !.stale = FALSE], TRUE)), FALSE, k - 1)
  ELSE IF news \/ y.sc # x.sc THEN Rest(TLCEval(Upd(y, FALSE)), FALSE, k - 1)
  ELSE y
Settle(x, news) == IF x.on THEN Rest(x, news, 30) ELSE x
Do(name, arg, x, news) ==
  LET y == TLCEval(Settle(x, news))
      its == IF y.on /\ y.lo < y.hi THEN <<<<y.lo, y.hi - 1>>>> ELSE <<>>
      v == y.sc - P
  IN /\ Assert(y.num >= 0, <<"no rest", s, name, arg>>)
     /\ s' = y /\ op' = <<name, arg>>
     /\ n' = y.num /\ shown' = y.on /\ items' = its /\ at' = v
     /\ Assert(Seen(y.on /\ (v # at \/ name = "num" \/ ~shown), its, its, y.f, y.b, H, R, v, R), <<"not as in Virt", s, name, arg, y>>)
Next ==
  \/ \E k \in Ns : Do("num", k, [s EXCEPT !.num = k, !.stale = @ \/ k # s.num], TRUE)
  \/ ~s.on /\ Do("mount", 0, [s EXCEPT !.on = TRUE, !.sc = 0], TRUE)
  \/ s.on /\ Do("unmount", 0, [s EXCEPT !.on = FALSE], FALSE)
  \/ \E d \in Ds : s.on /\ Do("by", d, Clamp([s EXCEPT !.sc = @ + d]), TRUE)
  \/ s.on /\ Do("poke", 0, s, TRUE)            \* an intersection is reported
Spec == Init /\ [][Next]_<<op, vars, s>>
View == s
Fp(x) == <<TLCFP(x), TLCFP(<<x, 1>>)>>
EdgeOut == PrintT("EDGE " \o ToJson(<<Fp(View), op', Fp(View')>>))
==========================================================================
