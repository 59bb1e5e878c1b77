------------------------------ MODULE MC_Css ------------------------------
(* A scanner as the macro has it -- one flag for "the last token was a dot", and recursion where selectors can
   occur -- runs next to the grammar; it must rename exactly the grammar's class selectors.
   D bounds the nesting.  What was written so far is not part of the view: each token's step depends on the
   stack and prev only. *)
EXTENDS Css, TLC, TLCExt, Json
CONSTANT D
VARIABLES op, sc, hits
vars == <<op, sc, hits, cvars>>
(* the scanner: where it is, as it sees the bare tokens *)
Scan(tok) ==
  LET c == sc[Len(sc)] IN
  CASE tok = "class" -> [s |-> IF c = "rules" THEN Append(sc, "prelude") ELSE sc, hit |-> c \in {"rules", "prelude", "fn"}]
    [] tok \in {"type", "simple"} -> [s |-> IF c = "rules" THEN Append(sc, "prelude") ELSE sc, hit |-> FALSE]
    [] tok = "func" -> [s |-> Append(IF c = "rules" THEN Append(sc, "prelude") ELSE sc, "fn"), hit |-> FALSE]
    [] tok = "attr" -> [s |-> Append(IF c = "rules" THEN Append(sc, "prelude") ELSE sc, "skip"), hit |-> FALSE]
    [] tok \in {"funcend", "attrend", "leave", "close"} -> [s |-> SubSeq(sc, 1, Len(sc) - 1), hit |-> FALSE]
    [] tok = "enter" -> [s |-> Append(sc, "skip"), hit |-> FALSE]
    [] tok = "at-cond" -> [s |-> Append(sc, "at"), hit |-> FALSE]
    [] tok = "at-other" -> [s |-> Append(sc, "at0"), hit |-> FALSE]
    [] tok = "semi" -> [s |-> SubSeq(sc, 1, Len(sc) - 1), hit |-> FALSE]
    [] tok = "open" -> [s |-> Append(SubSeq(sc, 1, Len(sc) - 1), IF c = "at" THEN "rules" ELSE "skip"), hit |-> FALSE]
    [] OTHER -> [s |-> sc, hit |-> FALSE]
Go(tok, A) == A /\ op' = <<tok>> /\ sc' = Scan(tok).s /\ hits' = (Scan(tok).hit <=> tok = "class") /\ Len(stack') <= D
Init == CssInit /\ op = <<"init">> /\ sc = <<"rules">> /\ hits = TRUE
Next ==
  \/ Go("class", Class("n"))
  \/ Go("type", Type("d")) \/ Go("simple", Simple("#i")) \/ Go("func", Func("f(")) \/ Go("funcend", FuncEnd)
  \/ Go("attr", Attr) \/ Go("attrend", AttrEnd) \/ Go("comb", Comb(" "))
  \/ Go("open", Open) \/ Go("close", Close)
  \/ Go("at-cond", At("@m", "@media")) \/ Go("at-other", At("@p", "@page")) \/ Go("semi", Semi)
  \/ Go("stuff", Stuff("s")) \/ Go("enter", Enter("(")) \/ Go("leave", Leave(")"))
  \/ Go("space", Space(" ")) \/ Go("comment", Comment("c"))
Spec == Init /\ [][Next]_vars
View == <<stack, prev, sc, hits>>
(* the scanner agrees with the grammar on every token, and is where the grammar is *)
Agrees == hits /\ Len(sc) = Len(stack)
          /\ \A i \in 1..Len(sc) : sc[i] = CASE stack[i] \in {"top", "nest"} -> "rules" [] stack[i] = "sel" -> "prelude" [] stack[i] = "fn" -> "fn"
                                          [] stack[i] = "cond" -> "at" [] stack[i] = "atp" -> "at0" [] OTHER -> "skip"
(* a block can always be finished: every sheet begun can be completed *)
Finishable == Len(stack) > 1 => ENABLED (FuncEnd \/ AttrEnd \/ Open \/ Close \/ Semi \/ Leave(")"))
Fp(x) == <<TLCFP(x), TLCFP(<<x, 1>>)>>
EdgeOut == PrintT("EDGE " \o ToJson(<<Fp(View), op', Fp(View')>>))
==========================================================================
