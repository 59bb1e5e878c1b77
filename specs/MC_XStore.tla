----------------------------- MODULE MC_XStore -----------------------------
EXTENDS XStore, TLC, TLCExt, Json
CONSTANTS NI, NW, MCKinds
VARIABLES op, woken
vars == <<data, ls>>
\* a small universe inside the harness's data type: an enum that appears/disappears, a vec, a leaf
Init0 == {<<<<"1", "e">>, 2>>, <<<<"1", "v">>, 0>>, <<<<"1", "a">>, 0>>}
SubV == {<<<<"x">>, 1>>, <<<<"y">>, 2>>, <<<<"w">>, 0>>}
Under(s, v) == {<<<<s>> \o e[1], e[2]>> : e \in v}
EnB == {<<<<>>, 1>>} \cup Under("Bp", SubV) \cup {<<<<"Bq">>, 4>>}
EnC == {<<<<>>, 2>>}
Puts == { [p |-> <<"1", "e">>, v |-> EnB], [p |-> <<"1", "e">>, v |-> EnC],
          [p |-> <<"1", "e", "Bp", "x">>, v |-> {<<<<>>, 7>>}],
          [p |-> <<"1", "e", "Bp">>, v |-> SubV],
          [p |-> <<"1", "a">>, v |-> {<<<<>>, 5>>}] }
ListenPaths == { <<"1">>, <<"1", "e", "Bp">>, <<"1", "e", "Bp", "x">>, <<"1", "a">> }
BindVals(p) == IF p = <<"1", "a">> THEN {{<<<<>>, 8>>}} ELSE IF p = <<"1", "e", "Bp", "x">> THEN {{<<<<>>, 9>>}} ELSE {}

Wake(I) == woken' = woken \cup I
Poll(i, w) ==
  LET x == ls[i] IN
  /\ x.st = "live"
  /\ CASE x.kind \in {"until", "bub"} -> PollStream(i, w) /\ woken' = woken \ {i}
       [] x.kind = "signal" -> PollSignal(i, w) /\ woken' = woken \ {i}
       [] x.kind = "foreach" -> PollForEach(i, w) /\ woken' = woken \ {i}
       [] x.kind = "fea" -> FALSE
       [] x.kind = "bind" -> /\ PollBind(i, w, IF x.fend THEN "ready" ELSE "pending")
                             /\ woken' = (woken \ {i}) \cup BindMust(i)
  /\ op' = [op |-> "poll", id |-> i, w |-> w]
\* a body may mutate the store while it is polled
BodyActs == {<<>>} \cup {<<<<"acc", q.p, "set", q.v, WritableIn(data, q.p)>>>> : q \in {z \in Puts : z.p \in {<<"1", "a">>, <<"1", "e", "Bp", "x">>}}}
PollF(i, w, acts) ==
  LET x == ls[i]
      bev == BevOf(x, acts)
      r == AfterActs(FeaL(i, w, bev), bev) IN
  /\ x.st = "live" /\ x.kind = "fea"
  /\ acts # <<>> => ActsOf(bev) # <<>>
  /\ BodiesOk(x, bev) /\ PollFea(i, w, bev)
  /\ woken' = (woken \ {i}) \cup r.must
  /\ op' = IF acts = <<>> THEN [op |-> "poll", id |-> i, w |-> w]
           ELSE [op |-> "poll", id |-> i, w |-> w, act |-> [p |-> acts[1][2], how |-> acts[1][3], val |-> acts[1][4]]]
Init == XInit(Init0) /\ op = [op |-> "init"] /\ woken = {}
Next ==
  \/ \E i \in (1..NI) \ DOMAIN ls, k \in MCKinds, p \in ListenPaths :
       /\ \A j \in 1..(i - 1) : j \in DOMAIN ls
       /\ k = "bind" => BindVals(p) # {}
       /\ New(i, k, TRUE, p) /\ Wake({}) /\ op' = [op |-> "new", id |-> i, kind |-> k, fire |-> TRUE, p |-> p]
  \/ \E i \in DOMAIN ls, w \in 1..NW : Poll(i, w) \/ \E a \in BodyActs : PollF(i, w, a)
  \/ \E i \in DOMAIN ls : Drop(i, <<>>) /\ woken' = woken \ {i} /\ op' = [op |-> "drop", id |-> i]
  \/ \E i \in DOMAIN ls : ls[i].st = "live" /\ ls[i].kind = "fea" /\ ~ls[i].open /\ ls[i].run # 0 /\ Open(i) /\ Wake({}) /\ op' = [op |-> "open", id |-> i]
  \/ \E i \in DOMAIN ls : ls[i].st = "live" /\ ls[i].kind = "bind" /\ \E v \in BindVals(ls[i].p), e \in BOOLEAN, k \in 0..1 :
       /\ Len(ls[i].q) = 0 /\ (k = 1 \/ e)
       /\ Feed(i, IF k = 1 THEN <<v>> ELSE <<>>, e) /\ Wake({})
       /\ op' = [op |-> "feed", id |-> i, vals |-> (IF k = 1 THEN <<v>> ELSE <<>>), end |-> e]
  \/ \E x \in Puts : \E how \in {"set", "quiet"} :
       Acc(x.p, how, x.v) /\ Wake(AccMust(x.p, how)) /\ op' = [op |-> "acc", p |-> x.p, how |-> how, val |-> x.v]
Spec == Init /\ [][Next]_<<vars, op, woken>>
\* bodies are numbered upward; only relative numbers matter
View == <<data, [i \in DOMAIN ls |-> [ls[i] EXCEPT !.n = 0, !.run = IF @ = 0 THEN 0 ELSE 1, !.alive = IF @ = {} THEN {} ELSE {1}, !.undrop = IF @ = {} THEN {} ELSE {1}]], woken>>

\* ---- properties of the design
\* no lost wake: whoever has something to do (and was told to wait) has been woken
NoLostWake == \A i \in DOMAIN ls : (ls[i].dirty /\ ls[i].st = "live") => i \in woken
\* a body runs only while its listener lives, and at most one is alive
OneBody == \A i \in DOMAIN ls : Cardinality(ls[i].alive) <= 1 /\ (ls[i].run # 0 => ls[i].alive = {ls[i].run})
\* a prefix/extension relation decides concern, for both kinds of listeners
HitLaw == \A i \in DOMAIN ls : \A x \in Puts :
            Hit(ls[i], x.p) <=> (IF ls[i].kind = "bub" THEN IsPrefix(ls[i].p, x.p) ELSE IsPrefix(x.p, ls[i].p))
\* reads see the last write and nothing else changes
PutLaws == \A x \in Puts : ExistsIn(data, x.p) =>
             LET d == PutIn(data, x.p, x.v) IN
             /\ SubIn(d, x.p) = x.v
             /\ \A p \in ListenPaths : (~Pre(p, x.p) /\ ~Pre(x.p, p)) => SubIn(d, p) = SubIn(data, p)
Fp(x) == <<TLCFP(x), TLCFP(<<x, 1>>)>>
EdgeOut == PrintT("EDGE " \o ToJson(<<Fp(View), op', Fp(View')>>))
==========================================================================
