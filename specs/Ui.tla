-------------------------------- MODULE Ui --------------------------------
(* What a UI program shows (D01-D03, L01-L04, S01).

   A program is a tree: elements and texts, the combinators, sequencing, pieces that wait for a gate
   or last until a gate opens, lists, slots, and actions that edit lists and slots. The environment
   opens gates, edits lists, models and slots, mounts and unmounts programs, and puts foreign nodes
   into the page. Everything a program shows once nothing is left to do is a function of that
   environment: see Eval.                                                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANT Focus   \* the property being decided: one of "D01".."D03", "L01".."L04", "S01"
Ordered == Focus # {"D02"}     \* the order of siblings matters
Exact == Focus # {"D01"}       \* so do nodes that should not be there
With(f, x, v) == TLCEval([y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]])
None == [x \in {} |-> 0]
Start == [gates |-> {}, acted |-> {}, objs |-> None, fo |-> None, hosts |-> None, mounts |-> None,
          lists |-> None, slots |-> None, models |-> None]
NewList(kind, tpl) == [kind |-> kind, tpl |-> tpl, items |-> <<>>, futs |-> {}, lastm |-> 0, gone |-> {}]
Px(l, k, n) == "L" \o ToString(l) \o ":" \o ToString(k) \o ":" \o ToString(n) \o ":"

------------------------------------------------------------------------------
(* Eval(s, p, px) of a piece: o - how far it has got ("pend", "ok" or "err"); n - its nodes on screen, each with
   its children; d - actions that are due; l - the lists and slots it is rendering *)
Fin(o) == [o |-> o, n |-> <<>>, d |-> {}, l |-> {}]
Inner(s, p) ==                            \* programs placed into a list or slot: <<[px, prog], ...>>
  CASE p.t \in {"list", "own", "ownv"} -> s.lists[p.l].items
    [] p.t = "slot" -> s.slots[p.s].cur
DueScript(s, p) ==                        \* the step of a list's script that is due
  {p.script[i].a : i \in {j \in DOMAIN p.script :
       p.script[j].a \notin s.acted /\ \A m \in 1..j : p.script[m].g \in s.gates /\ (m < j => p.script[m].a \in s.acted)}}
RECURSIVE Eval(_, _, _), EvalAll(_, _, _, _), EvalInner(_, _, _), EvalSeq(_, _, _, _), Both(_, _, _, _)
EvalAll(s, ps, px, i) == IF i > Len(ps) THEN <<>> ELSE <<Eval(s, ps[i], px)>> \o EvalAll(s, ps, px, i + 1)
EvalInner(s, in, i) == IF i > Len(in) THEN <<>> ELSE <<Eval(s, in[i].prog, in[i].px)>> \o EvalInner(s, in, i + 1)
EvalSeq(s, ps, px, i) ==                  \* one after the other
  IF i > Len(ps) THEN Fin("ok")
  ELSE LET r == Eval(s, ps[i], px) IN IF r.o = "pend" \/ i = Len(ps) THEN r ELSE EvalSeq(s, ps, px, i + 1)
Both(o, rs, i, acc) ==                    \* pending, with everything the parts have
  IF i > Len(rs) THEN acc
  ELSE Both(o, rs, i + 1, [acc EXCEPT !.n = @ \o rs[i].n, !.d = @ \cup rs[i].d, !.l = @ \cup rs[i].l])
Pending(rs) == Both("pend", rs, 1, Fin("pend"))
Eval(s, p, px) ==
  LET open == p.g \in s.gates
      node(r) == IF r.o # "pend" THEN r ELSE [r EXCEPT !.n = <<[id |-> px \o p.id, k |-> r.n]>>]
  IN
  CASE p.t = "el" -> node(Eval(s, p.kid, px))
    [] p.t \in {"text", "nochild"} -> node(Fin("pend"))
    [] p.t \in {"yield", "ondrop"} -> Eval(s, p.kid, px)
    [] p.t = "pend" -> Fin("pend")
    [] p.t = "ready" -> Fin("ok")
    [] p.t = "fail" -> IF open THEN Fin("err") ELSE Fin("pend")
    [] p.t = "act" -> IF p.a \in s.acted THEN Fin("ok") ELSE [Fin("pend") EXCEPT !.d = {p.a}]
    [] p.t = "gate" -> IF open THEN Eval(s, p.kid, px) ELSE Fin("pend")
    [] p.t = "until" -> IF open THEN Fin("ok") ELSE Pending(<<Eval(s, p.kid, px)>>)
    [] p.t = "pendafter" -> Pending(<<Eval(s, p.kid, px)>>)
    [] p.t = "meanwhile" -> LET f == Eval(s, p.kids[1], px) IN
                            IF f.o # "pend" THEN Fin(f.o) ELSE Pending(<<f, Eval(s, p.kids[2], px)>>)
    [] p.t = "seq" -> EvalSeq(s, p.kids, px, 1)
    [] p.t \in {"join", "race", "try_join", "race_ok"} ->
         LET rs == EvalAll(s, p.kids, px, 1)
             has(o) == \E i \in DOMAIN rs : rs[i].o = o
         IN (CASE p.t = "join" -> IF has("pend") THEN Pending(rs) ELSE Fin("ok")
              [] p.t = "race" -> IF has("ok") \/ has("err") THEN Fin("ok") ELSE Pending(rs)
              [] p.t = "try_join" -> IF has("err") THEN Fin("err") ELSE IF has("pend") THEN Pending(rs) ELSE Fin("ok")
              [] p.t = "race_ok" -> IF has("ok") THEN Fin("ok") ELSE IF has("pend") THEN Pending(rs) ELSE Fin("err"))
    [] p.t \in {"list", "own", "ownv"} ->
         [Pending(EvalInner(s, Inner(s, p), 1)) EXCEPT !.l = @ \cup {<<"L", p.l>>},
                                                      !.d = @ \cup (IF p.t = "ownv" THEN DueScript(s, p) ELSE {})]
    [] p.t = "slot" -> [Pending(EvalInner(s, Inner(s, p), 1)) EXCEPT !.l = @ \cup {<<"S", p.s>>}]
Live(s) == {m \in DOMAIN s.mounts : s.mounts[m].st = "live"}
EvalMounts(s) == TLCEval([m \in Live(s) |-> Eval(s, s.mounts[m].prog, "")])

------------------------------------------------------------------------------
(* comparing the page with what should be there; A: the child nodes found, Es: for each program the nodes it should have here *)
Ids(E) == {E[i].id : i \in DOMAIN E}
IdSeq(A) == TLCEval([i \in DOMAIN A |-> A[i].id])
RECURSIVE Shows(_, _, _, _)
Shows(s, A, Es, o) ==
  LET mine == TLCEval(SelectSeq(A, LAMBDA n : ~n.f))
      foreign == TLCEval(SelectSeq(A, LAMBDA n : n.f))
      known == UNION {Ids(Es[e]) : e \in DOMAIN Es}
  IN
  /\ Exact => Ids(mine) \subseteq known /\ Cardinality(Ids(mine)) = Len(mine)
  /\ Exact => [i \in DOMAIN foreign |-> foreign[i].o] = (IF o \in DOMAIN s.fo THEN s.fo[o] ELSE <<>>)
  /\ \A e \in DOMAIN Es :
       LET E == Es[e]
           ids == TLCEval(Ids(E))
           found == TLCEval(SelectSeq(mine, LAMBDA n : n.id \in ids))
       IN /\ Ids(found) = ids
          /\ Ordered => IdSeq(found) = IdSeq(E)
          /\ \A i \in DOMAIN found : LET x == found[i] IN
               /\ x.id \in DOMAIN s.objs /\ x.o = s.objs[x.id]
               /\ Shows(s, x.k, <<(IF i \in DOMAIN E /\ E[i].id = x.id THEN E[i] ELSE E[CHOOSE j \in DOMAIN E : E[j].id = x.id]).k>>, x.o)
Expect(s, ev, h) == LET ms == SetToSeq({m \in Live(s) : s.mounts[m].h = h}) IN TLCEval([i \in DOMAIN ms |-> ev[ms[i]].n])
HostsOk(s, ev, hs) == \A i \in DOMAIN hs : Shows(s, hs[i].k, Expect(s, ev, hs[i].h), hs[i].o)
(* between runs of the executor: whatever is on screen is in order *)
RECURSIVE Order(_, _, _)
Order(s, p, px) ==
  LET ps == IF "kids" \in DOMAIN p THEN p.kids ELSE IF "kid" \in DOMAIN p THEN <<p.kid>> ELSE <<>>
      in == IF p.t \notin {"list", "own", "ownv", "slot"} \/ (p.t = "list" /\ p.many) THEN <<>> ELSE Inner(s, p)
  IN (IF p.t \in {"el", "text", "nochild"} THEN <<px \o p.id>> ELSE <<>>)
     \o FlattenSeq(TLCEval([i \in DOMAIN ps |-> Order(s, ps[i], px)]))
     \o FlattenSeq(TLCEval([i \in DOMAIN in |-> Order(s, in[i].prog, in[i].px)]))
RECURSIVE InOrder(_, _)
InOrder(A, at) ==            \* at: id -> place in the program
  LET known == SelectSeq(A, LAMBDA n : n.id \in DOMAIN at) IN
  /\ \A i \in 1..Len(known)-1 : at[known[i].id] < at[known[i+1].id]
  /\ \A i \in DOMAIN A : InOrder(A[i].k, at)
PeekOk(s, hs) ==
  Ordered => \A m \in Live(s) :
     LET ord == Order(s, s.mounts[m].prog, "")
         at == TLCEval([x \in ToSet(ord) |-> CHOOSE i \in DOMAIN ord : ord[i] = x])
     IN \A i \in DOMAIN hs : InOrder(hs[i].k, at)

(* which futures of list items and slots exist *)
RECURSIVE Owns(_, _)
Owns(p, l) == \/ p.t \in {"own", "ownv"} /\ p.l = l
              \/ "kid" \in DOMAIN p /\ Owns(p.kid, l)
              \/ "kids" \in DOMAIN p /\ \E i \in DOMAIN p.kids : Owns(p.kids[i], l)
Held(s, l, alive) ==          \* part of something that was placed into a list or slot, and may exist without being shown
  \/ \E x \in DOMAIN s.lists : (alive \cap s.lists[x].futs) \ {s.lists[x].items[i].px : i \in DOMAIN s.lists[x].items} # {}
  \/ \E x \in DOMAIN s.lists : \E i \in DOMAIN s.lists[x].items : Owns(s.lists[x].items[i].prog, l)
  \/ \E x \in DOMAIN s.slots : \E i \in DOMAIN s.slots[x].cur : Owns(s.slots[x].cur[i].prog, l)
ListFutsOk(s, l, shown, alive) ==
  LET it == s.lists[l].items
      pending == {it[i].px : i \in {j \in DOMAIN it : Eval(s, it[j].prog, "").o = "pend"}}
  IN IF <<"L", l>> \in shown THEN alive \cap s.lists[l].futs = pending
     ELSE IF s.lists[l].kind = "own" /\ ~Held(s, l, alive) THEN alive \cap s.lists[l].futs = {}
     ELSE s.lists[l].kind # "own" => pending \subseteq alive
SlotFutsOk(s, x, shown, alive) ==
  LET c == s.slots[x].cur
      curs == {c[i].px : i \in DOMAIN c}
  IN /\ alive \cap s.slots[x].futs \subseteq curs
     /\ <<"S", x>> \in shown => {c[i].px : i \in {j \in DOMAIN c : Eval(s, c[j].prog, "").o = "pend"}} \subseteq alive
AliveOk(s, ev, alive) ==
  LET shown == UNION {ev[m].l : m \in DOMAIN ev} IN
  /\ \A l \in DOMAIN s.lists : ListFutsOk(s, l, shown, alive)
  /\ \A x \in DOMAIN s.slots : SlotFutsOk(s, x, shown, alive)
OutsOk(s, ev, outs) ==
  \A i \in DOMAIN outs : outs[i][2] = (IF outs[i][1] \in DOMAIN ev THEN ev[outs[i][1]].o ELSE "gone")
QuietOk(s, hs, alive, outs) ==
  LET ev == EvalMounts(s) IN
  /\ \A m \in DOMAIN ev : ev[m].d = {}
  /\ HostsOk(s, ev, hs) /\ AliveOk(s, ev, alive) /\ OutsOk(s, ev, outs)

------------------------------------------------------------------------------
(* lists *)
Keys(it) == {it[i].k : i \in DOMAIN it}
KeySeq(it) == [i \in DOMAIN it |-> it[i].k]
At(it, k) == CHOOSE i \in DOMAIN it : it[i].k = k
Without(it, k) == SelectSeq(it, LAMBDA x : x.k # k)
PutBefore(it, x, b) ==        \* b: <<>> or <<key>>; an unknown key means the end
  IF b = <<>> \/ b[1] \notin Keys(it) THEN Append(it, x) ELSE InsertAt(it, At(it, b[1]), x)
Insert(it, x, b) ==
  IF b = <<x.k>> /\ x.k \in Keys(it) THEN [it EXCEPT ![At(it, x.k)] = x]
  ELSE PutBefore(Without(it, x.k), x, b)
MoveBefore(it, k, b) == IF b = <<k>> THEN it ELSE PutBefore(Without(it, k), it[At(it, k)], b)
Swap(it, a, b) == TLCEval([i \in DOMAIN it |-> IF it[i].k = a THEN it[At(it, b)] ELSE IF it[i].k = b THEN it[At(it, a)] ELSE it[i]])
SetItems(s, l, it) == [s EXCEPT !.lists[l].items = it, !.lists[l].futs = @ \cup {it[i].px : i \in DOMAIN it}]
Item(s, l, k, px) == [k |-> k, px |-> px, prog |-> LET t == s.lists[l].tpl IN t[(k % Len(t)) + 1]]
(* an update that shows exactly `keys`; rend: the renderer calls <<key, n>> it made; must: keys whose futures are kept *)
UpdateOk(s, l, keys, rend, must) ==
  /\ \A i \in DOMAIN rend : rend[i][1] \notin must
  /\ \A k \in ToSet(keys) \ Keys(s.lists[l].items) : \E i \in DOMAIN rend : rend[i][1] = k
Update(s, l, keys, rend) ==
  LET it == s.lists[l].items
      new(k) == {i \in DOMAIN rend : rend[i][1] = k}
      item(k) == IF new(k) = {} THEN it[At(it, k)]
                 ELSE Item(s, l, k, Px(l, k, rend[CHOOSE i \in new(k) : \A j \in new(k) : j <= i][2]))
      s2 == SetItems(s, l, TLCEval([i \in DOMAIN keys |-> item(keys[i])]))
  IN [s2 EXCEPT !.lists[l].futs = @ \cup {Px(l, rend[i][1], rend[i][2]) : i \in DOMAIN rend}]
(* models: the methods are those of a vector *)
ModelOf(s, m) == IF m \in DOMAIN s.models THEN s.models[m] ELSE <<>>
EditOk(v, f, a, ret) ==
  CASE f = "remove" -> ret = <<v[a[1] + 1]>>
    [] f = "pop" -> ret = (IF v = <<>> THEN <<>> ELSE <<v[Len(v)]>>)
    [] OTHER -> TRUE
Edited(s, m, f, a) ==
  LET v == ModelOf(s, m) IN
  CASE f = "push" -> Append(v, a[1])
    [] f = "insert" -> InsertAt(v, a[1] + 1, a[2])
    [] f = "remove" -> RemoveAt(v, a[1] + 1)
    [] f = "pop" -> IF v = <<>> THEN v ELSE SubSeq(v, 1, Len(v) - 1)
    [] f = "swap" -> [v EXCEPT ![a[1] + 1] = v[a[2] + 1], ![a[2] + 1] = v[a[1] + 1]]
    [] f = "move" -> InsertAt(RemoveAt(v, a[1] + 1), a[2] + 1, v[a[1] + 1])
    [] f \in {"vec", "from"} -> a
    [] f = "clone" -> ModelOf(s, a[1])
EditModel(s, m, f, a) ==
  LET old == ModelOf(s, m)
      new == Edited(s, m, f, a)
      fresh == f \in {"clone", "from"}
  IN [s EXCEPT !.models = With(@, m, new),
               !.lists = TLCEval([l \in DOMAIN @ |-> IF @[l].lastm # m THEN @[l]
                                             ELSE IF fresh THEN [@[l] EXCEPT !.lastm = 0]
                                             ELSE [@[l] EXCEPT !.gone = @ \cup (ToSet(old) \ ToSet(new))]])]
Kept(s, l, m) == IF s.lists[l].lastm # m THEN {}
                 ELSE (Keys(s.lists[l].items) \cap ToSet(ModelOf(s, m))) \ s.lists[l].gone
==========================================================================
