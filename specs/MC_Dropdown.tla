---------------------------- MODULE MC_Dropdown ----------------------------
(* The design of the menu: update walks the previous options and moves, inserts and removes elements of a <select>, in
   which the browser itself selects and deselects options when elements come and go. Shown to implement Dropdown. *)
EXTENDS Dropdown, TLC, TLCExt, Json, SequencesExt
CONSTANTS NK
VARIABLES op, dom, on, prev, el, mem
\* dom: the children of the <select>; on: the selected one, or 0; prev: keys of the last update; el: key -> element; mem: remembered key
d == <<dom, on, prev, el, mem>>
Keys == 1..NK
News == UNION {{q \in [1..n -> Keys] : \A i, j \in 1..n : q[i] = q[j] => i = j} : n \in 0..NK}
Init == DInit /\ op = <<"init">> /\ dom = <<>> /\ on = 0 /\ prev = <<>> /\ el = [k \in {} |-> 0] /\ mem = 0

(* the browser *)
Without(q, x) == SelectSeq(q, LAMBDA y : y # x)
Settled(s) == IF s.on = 0 /\ s.dom # <<>> THEN [s EXCEPT !.on = s.dom[1]] ELSE s
Taken(s, e) == LET s2 == [s EXCEPT !.dom = Without(@, e), !.on = IF @ = e THEN 0 ELSE @] IN Settled(s2)
PutBefore(q, e, b) ==
  IF b = 0 THEN Append(q, e)
  ELSE LET i == CHOOSE j \in DOMAIN q : q[j] = b IN SubSeq(q, 1, i - 1) \o <<e>> \o SubSeq(q, i, Len(q))
Put(s, e, b) ==            \* insertBefore; an element that was selected where it was stays selected
  LET was == \E i \in DOMAIN s.dom : s.dom[i] = e
      s2 == IF was THEN Taken(s, e) ELSE s
      s3 == [s2 EXCEPT !.dom = PutBefore(@, e, b), !.on = IF was /\ s.on = e THEN e ELSE @]
  IN Settled(s3)
(* the walk over the previous options *)
RECURSIVE Skip(_, _)
Skip(rest, left) == IF rest # <<>> /\ rest[1] \notin left THEN Skip(Tail(rest), left) ELSE rest
Fresh(s) == CHOOSE e \in 1..(2 * NK + 1) : e \notin {s.el[k] : k \in DOMAIN s.el} /\ \A x \in 1..e-1 : x \in {s.el[k] : k \in DOMAIN s.el}
With(f, x, v) == TLCEval([y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]])
RECURSIVE Walk(_, _)
Walk(s, new) ==            \* s: [dom, on, el, rest, left]
  IF new = <<>> THEN s
  ELSE
    LET k == new[1]
        rest == Skip(s.rest, s.left)
        at == IF rest = <<>> THEN 0 ELSE s.el[rest[1]]
        old == k \in s.left
        s1 == [s EXCEPT !.rest = rest, !.left = @ \ {k}]
    IN IF old /\ rest # <<>> /\ rest[1] = k THEN Walk([s1 EXCEPT !.rest = Tail(@)], Tail(new))
       ELSE IF old THEN Walk(Put(s1, s.el[k], at), Tail(new))
       ELSE LET e == Fresh(s) IN Walk(Put([s1 EXCEPT !.el = With(@, k, e)], e, at), Tail(new))
RECURSIVE RemoveAll(_, _)
RemoveAll(s, ks) ==
  IF ks = {} THEN s
  ELSE LET k == CHOOSE x \in ks : TRUE
           s1 == Taken(s, s.el[k])
       IN RemoveAll([s1 EXCEPT !.el = [x \in DOMAIN @ \ {k} |-> @[x]]], ks \ {k})
Value == IF on = 0 THEN 0 ELSE prev[CHOOSE i \in DOMAIN dom : dom[i] = on]
ImplUpdate(new) ==
  LET m == IF Value # 0 THEN Value ELSE mem
      s0 == [dom |-> dom, on |-> on, el |-> el, rest |-> prev, left |-> {prev[i] : i \in DOMAIN prev}]
      s1 == TLCEval(Walk(s0, new))
      s2 == TLCEval(RemoveAll(s1, s1.left))
  IN /\ dom' = s2.dom /\ el' = s2.el /\ prev' = new /\ mem' = m
     /\ on' = IF m \in DOMAIN s2.el THEN s2.el[m] ELSE 0
Next ==
  \/ \E new \in News : /\ ImplUpdate(new) /\ Update([i \in DOMAIN new |-> <<new[i], "">>], dom') /\ op' = <<"upd", new>>
                       /\ val' = (IF on' = 0 THEN 0 ELSE new[CHOOSE i \in DOMAIN dom' : dom'[i] = on'])
  \/ \E k \in 0..NK+1 : /\ Set(k) /\ op' = <<"set", k>>
                        /\ on' = (IF k \in DOMAIN el THEN el[k] ELSE 0) /\ mem' = (IF k \in DOMAIN el THEN k ELSE 0)
                        /\ UNCHANGED <<dom, prev, el>>
  \/ \E i \in 0..NK-1 : /\ i < Len(opts) /\ User(i) /\ op' = <<"user", i>>
                        /\ on' = dom[i + 1] /\ UNCHANGED <<dom, prev, el, mem>>
Spec == Init /\ [][Next]_<<op, vars, d>>
View == <<opts, val, back, dom, on, prev, el, mem>>
(* the design never leaves what Dropdown allows *)
Allowed == \A new \in News : ENABLED (ImplUpdate(new) /\ Update([i \in DOMAIN new |-> <<new[i], "">>], dom')
                                      /\ val' = (IF on' = 0 THEN 0 ELSE new[CHOOSE i \in DOMAIN dom' : dom'[i] = on']))
Same == dom = [i \in DOMAIN opts |-> opts[i].e] /\ val = Value
Fp(x) == <<TLCFP(x), TLCFP(<<x, 1>>)>>
EdgeOut == PrintT("EDGE " \o ToJson(<<Fp(View), op', Fp(View')>>))
==========================================================================
