----------------------------- MODULE MC_Arena -----------------------------
EXTENDS Arena, TLC, TLCExt, Json
CONSTANTS NL, NS, NW
VARIABLE op
vars == <<lists, wk, peak>>
\* the smallest free names: names are interchangeable
NextFree(S, D) == LET F == S \ D IN IF F = {} THEN {} ELSE {CHOOSE x \in F : \A y \in F : x <= y}
Init == AInit /\ op = [op |-> "init"]
Next ==
  \/ \E n \in NextFree(1..NL, DOMAIN lists) : MkList(n) /\ op' = [op |-> "mklist", l |-> n]
  \/ \E n \in DOMAIN lists, s \in NextFree(1..NS, DOMAIN wk) : Add(n, s) /\ op' = [op |-> "add", l |-> n, s |-> s]
  \/ \E s \in DOMAIN wk, w \in 1..NW : wk[s] # w /\ Upd(s, w) /\ op' = [op |-> "upd", s |-> s, w |-> w]
  \/ \E s \in DOMAIN wk : Rm(s) /\ op' = [op |-> "rm", s |-> s]
  \/ \E n \in DOMAIN lists, r \in BOOLEAN : RmList(n, r) /\ op' = [op |-> "rmlist", l |-> n]
Spec == Init /\ [][Next]_<<vars, op>>
View == <<lists, wk>>
Fp(x) == <<TLCFP(x), TLCFP(<<x, 1>>)>>
EdgeOut == PrintT("EDGE " \o ToJson(<<Fp(View), op', Fp(View')>>))
==========================================================================
