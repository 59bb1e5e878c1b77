------------------------------ MODULE MC_Html ------------------------------
(* Classes of one element and showing of two, over NC class names. *)
EXTENDS Html, TLCExt, Json
CONSTANT NC
VARIABLE op
Name == [i \in 1..NC |-> "c" \o ToString(i)]
Cs == {Name[i] : i \in 1..NC}
Lists == {<<>>} \cup {<<a>> : a \in Cs} \cup {<<a, b>> : a, b \in Cs}
Init == HtmlInit /\ op = <<"init">>
NextE == Cardinality(DOMAIN els) + 1
Next ==
  \/ NextE <= 2 /\ \E k \in {"Div", "Hr"} : New(NextE, k, "", "", Tag[k], "", FALSE) /\ op' = <<"new", NextE, k>>
  \/ 1 \in DOMAIN els /\ \E k \in {"add", "del", "on", "off", "with"}, c \in Cs : Classes(1, k, <<c>>, TRUE) /\ op' = <<"cls", 1, k, <<c>>>>
  \/ 1 \in DOMAIN els /\ \E k \in {"adds", "dels", "withs", "ext"}, a \in Lists : Classes(1, k, a, TRUE) /\ op' = <<"cls", 1, k, a>>
  \/ Len(apps) < 2 /\ \E e \in DOMAIN els : (~\E i \in DOMAIN apps : apps[i].m = e) /\ Show(e, <<e>>) /\ op' = <<"show", e, <<e>>>>
  \/ \E i \in DOMAIN apps : Hide(apps[i].m) /\ op' = <<"hide", apps[i].m>>
Spec == Init /\ [][Next]_<<op, hvars>>
View == hvars
(* adding and removing are inverse, and what is shown is shown once *)
Sane == /\ \A e \in DOMAIN els : els[e].cls \subseteq Cs
        /\ \A i, j \in DOMAIN Flat(apps) : i # j => Flat(apps)[i].e # Flat(apps)[j].e
Fp(x) == <<TLCFP(x), TLCFP(<<x, 1>>)>>
EdgeOut == PrintT("EDGE " \o ToJson(<<Fp(View), op', Fp(View')>>))
==========================================================================
