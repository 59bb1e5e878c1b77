----------------------------- MODULE Dropdown -----------------------------
(* A drop-down menu (O01): the options the program offers, and the one chosen last by the program or the user. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES
  opts,    \* what is offered: sequence of [k: key, t: text, e: the element that shows it]
  val,     \* the chosen option, or 0
  back,    \* an option that was chosen when it disappeared; when it is offered again it may be chosen again
  shown    \* is the menu on the page
vars == <<opts, val, back, shown>>
DInit == opts = <<>> /\ val = 0 /\ back = 0 /\ shown = FALSE
KeysOf(q) == {q[i].k : i \in DOMAIN q}
At(q, k) == CHOOSE i \in DOMAIN q : q[i].k = k
Distinct(q) == Cardinality({q[i] : i \in DOMAIN q}) = Len(q)
Is(b) == b = TRUE      \* a condition, evaluated as a value

(* new: the <<key, text>> asked for; els: the elements that the menu consists of afterwards *)
Update(new, els) ==
  LET keys == [i \in DOMAIN new |-> new[i][1]] IN
  /\ Len(els) = Len(new) /\ Distinct(els)
  /\ Is(\A i \in DOMAIN new :
           IF keys[i] \in KeysOf(opts) THEN els[i] = opts[At(opts, keys[i])].e
           ELSE \A j \in DOMAIN opts : els[i] # opts[j].e)
  /\ opts' = [i \in DOMAIN new |-> [k |-> keys[i], t |-> new[i][2], e |-> els[i]]]
  /\ LET ks == KeysOf(opts') IN
     IF val \in ks THEN val' = val /\ back' = 0
     ELSE IF val # 0 THEN val' = 0 /\ back' = val
     ELSE \/ val' = 0 /\ back' = back
          \/ back \in ks /\ val' = back /\ back' = 0
  /\ UNCHANGED shown
Set(k) == /\ val' = (IF k \in KeysOf(opts) THEN k ELSE 0)
          /\ back' = 0
          /\ UNCHANGED <<opts, shown>>
User(i) == /\ IF opts = <<>> THEN UNCHANGED <<val, back>> ELSE val' = opts[(i % Len(opts)) + 1].k /\ back' = 0
           /\ UNCHANGED <<opts, shown>>
Mount == shown' = TRUE /\ UNCHANGED <<opts, val, back>>
Unmount == shown' = FALSE /\ UNCHANGED <<opts, val, back>>
==========================================================================
