------------------------------ MODULE MC_Dom ------------------------------
(* The design of rendering: every node has a position - the indices of the combinators around it, up to the enclosing element -
   and an element finds the place of a new node by the next higher position that is taken. Shown, for a family of programs and
   every order in which their gates open, to build the tree that Ui!Eval prescribes.                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, SequencesExt
CONSTANTS Which
VARIABLES op, prog, gates, dom, pos
\* dom: the child nodes of every element ("" is the host); pos: the positions that are taken in it
U == INSTANCE Ui WITH Focus <- "D01"
Pend == [t |-> "pend"]
Ready == [t |-> "ready"]
Leaf(i) == [t |-> "text", id |-> i]
El(i, k) == [t |-> "el", id |-> i, kid |-> k]
Gt(g, k) == [t |-> "gate", g |-> g, kid |-> k]
Un(g, k) == [t |-> "until", g |-> g, kid |-> k]
Fl(g) == [t |-> "fail", g |-> g]
Sq(ks) == [t |-> "seq", kids |-> ks]
C(t, ks) == [t |-> t, kids |-> ks]
J(ks) == C("join", ks)
In(i, g) == Gt(g, Leaf(i))                       \* appears
Out(i, g) == Un(g, Leaf(i))                      \* vanishes
Io(i, g) == Gt(g, Un(g + 1, Leaf(i)))            \* appears and vanishes
Io2(i, j, g) == Sq(<<Io(i, g), Io(j, g + 2)>>)   \* and another one
Shapes == <<
  J(<<Io2("a", "b", 1), Io2("c", "d", 5)>>),
  J(<<J(<<Io("a", 1), Io("b", 3)>>), In("c", 5), Un(6, J(<<In("d", 7), In("e", 8)>>))>>),
  J(<<In("a", 1), C("race", <<J(<<Io("b", 2), Out("c", 4)>>), In("d", 5), Un(6, In("e", 7))>>), Io("f", 8)>>),
  J(<<Pend, J(<<Pend, J(<<In("a", 1), Io("b", 2)>>), In("c", 4)>>), J(<<In("d", 5), J(<<In("e", 6), Pend>>)>>), In("f", 7)>>),
  El("r", J(<<In("a", 1), Gt(2, Un(3, El("s", J(<<In("b", 4), Io("c", 5)>>)))), In("d", 7)>>)),
  J(<<In("a", 1), Sq(<<Un(2, J(<<Io("b", 3), In("c", 5)>>)), J(<<In("d", 6), In("e", 7)>>)>>), In("f", 8)>>),
  J(<<In("a", 1), C("try_join", <<Io("b", 2), In("c", 4), Fl(5)>>), C("race_ok", <<In("d", 6), Fl(7), Fl(8)>>)>>),
  J(<<C("race_ok", <<Fl(1), J(<<In("a", 2), In("b", 3)>>), Un(4, Leaf("c"))>>), C("race", <<Sq(<<Io("d", 5), Leaf("e")>>), Un(7, Leaf("f"))>>), In("g", 8)>>),
  Sq(<<Un(1, El("r", J(<<In("a", 2), El("s", In("b", 3))>>))), Un(4, J(<<El("u", In("c", 5)), In("d", 6)>>)), J(<<In("e", 7), Leaf("f")>>)>>),
  J(<<Sq(<<Out("a", 1), Out("b", 2), Out("c", 3)>>), Sq(<<Out("d", 4), Out("e", 5), Out("f", 6)>>), Sq(<<Out("g", 7), Leaf("h")>>)>>)
>>
St(gs) == [U!Start EXCEPT !.gates = gs]
RECURSIVE GatesOf(_), Sites(_, _, _), Tree(_, _)
GatesOf(p) == (IF "g" \in DOMAIN p THEN {p.g} ELSE {})
              \cup (IF "kid" \in DOMAIN p THEN GatesOf(p.kid) ELSE {})
              \cup (IF "kids" \in DOMAIN p THEN UNION {GatesOf(p.kids[i]) : i \in DOMAIN p.kids} ELSE {})
(* where every node of the program goes *)
Sites(p, el, path) ==
  CASE p.t = "text" -> {[id |-> p.id, el |-> el, path |-> path]}
    [] p.t = "el" -> {[id |-> p.id, el |-> el, path |-> path]} \cup Sites(p.kid, p.id, <<>>)
    [] p.t \in {"gate", "until"} -> Sites(p.kid, el, path)
    [] p.t = "seq" -> UNION {Sites(p.kids[i], el, path) : i \in DOMAIN p.kids}
    [] p.t \in {"join", "race", "try_join", "race_ok"} -> UNION {Sites(p.kids[i], el, Append(path, i)) : i \in DOMAIN p.kids}
    [] OTHER -> {}
Site(p, id) == CHOOSE s \in Sites(p, "", <<>>) : s.id = id
RECURSIVE Less(_, _)
Less(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Less(Tail(a), Tail(b))
Ids(ns) == {ns[i].id : i \in DOMAIN ns}
RECURSIVE AllIds(_)
AllIds(ns) == Ids(ns) \cup UNION {AllIds(ns[i].k) : i \in DOMAIN ns}
(* one insertion *)
AddNode(d, s) ==          \* d: [dom, pos]
  LET higher == {x \in d.pos[s.el] : Less(s.path, x.path)}
      q == d.dom[s.el]
      new == IF higher = {} THEN Append(q, s.id)
             ELSE LET next == CHOOSE x \in higher : \A y \in higher : x = y \/ Less(x.path, y.path)
                  IN InsertAt(q, CHOOSE i \in DOMAIN q : q[i] = next.id, s.id)
  IN [dom |-> U!With(U!With(d.dom, s.el, new), s.id, <<>>),
      pos |-> U!With(U!With(d.pos, s.el, d.pos[s.el] \cup {s}), s.id, {})]
Drop(d, ids) ==
  [dom |-> TLCEval([e \in DOMAIN d.dom \ ids |-> SelectSeq(d.dom[e], LAMBDA x : x \notin ids)]),
   pos |-> TLCEval([e \in DOMAIN d.pos \ ids |-> {x \in d.pos[e] : x.id \notin ids}])]
RECURSIVE AddAll(_, _, _)
AddAll(p, d, q) == IF q = <<>> THEN d ELSE AddAll(p, TLCEval(AddNode(d, Site(p, q[1]))), Tail(q))
(* an element is there before what is in it; otherwise any order *)
Orders(p, ids) == {q \in SetToSeqs(ids) : \A i, j \in DOMAIN q : Site(p, q[j]).el = q[i] => i < j}
Render(d, p, old, new) ==
  LET gone == AllIds(old) \ AllIds(new)
      d1 == Drop(d, gone)
  IN {AddAll(p, d1, q) : q \in Orders(p, AllIds(new) \ AllIds(old))}
Tree(d, e) == [i \in DOMAIN d[e] |-> [id |-> d[e][i], k |-> Tree(d, d[e][i])]]
Empty == [dom |-> ("" :> <<>>), pos |-> ("" :> {})]
Init == op = <<"init">> /\ prog = Pend /\ gates = {} /\ dom = Empty.dom /\ pos = Empty.pos
Take(d) == dom' = d.dom /\ pos' = d.pos
Next ==
  \/ /\ op[1] = "init"
     /\ \E i \in Which : /\ op' = <<"prog", Shapes[i]>> /\ prog' = Shapes[i] /\ UNCHANGED gates
                         /\ \E d \in Render(Empty, Shapes[i], <<>>, U!Eval(St({}), Shapes[i], "").n) : Take(d)
  \/ \E g \in GatesOf(prog) \ gates :
       /\ op' = <<"open", g>> /\ gates' = gates \cup {g} /\ UNCHANGED prog
       /\ \E d \in Render([dom |-> dom, pos |-> pos], prog, U!Eval(St(gates), prog, "").n, U!Eval(St(gates'), prog, "").n) : Take(d)
Spec == Init /\ [][Next]_<<op, prog, gates, dom, pos>>
Right == Tree(dom, "") = U!Eval(St(gates), prog, "").n
View == <<prog, gates, dom>>
Fp(x) == <<TLCFP(x), TLCFP(<<x, 1>>)>>
EdgeOut == PrintT("EDGE " \o ToJson(<<Fp(View), op', Fp(View')>>))
==========================================================================
