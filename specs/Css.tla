------------------------------- MODULE Css -------------------------------
(* The css! macro (M01): what of a stylesheet is a class selector, and what the macro makes of it.
   A sheet is written token by token.  `stack` is where the next token stands:
     "top"  a list of rules                          "sel"  the selectors of a style rule
     "fn"   inside a functional pseudo-class         "br"   inside the [ ] of an attribute selector
     "decl" a block of declarations                  "par"  inside ( ) or { } that hold no selector
     "cond" the prelude of @media, @supports, @container or @layer     "nest" the rules inside its block
     "atp"  the prelude of any other at-rule         "opq"  its block
   `prev` is what a selector ends with so far: "start" of a compound selector, or "name" / "open" within one.
   Only a class selector in "sel" or "fn" is renamed; everything else is to reach the page unchanged. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES stack, prev, out, names
cvars == <<stack, prev, out, names>>
Conditional == {"@media", "@supports", "@container", "@layer"}
Top == stack[Len(stack)]
Pop == SubSeq(stack, 1, Len(stack) - 1)
Replace(c) == Append(Pop, c)
Sel == Top \in {"sel", "fn"}
Rules == Top \in {"top", "nest"}
CssInit == stack = <<"top">> /\ prev = "start" /\ out = <<>> /\ names = {}
Put(x) == out' = Append(out, [x |-> x, cls |-> FALSE]) /\ UNCHANGED names
(* the first token of a selector begins a style rule *)
Begun == IF Rules THEN Append(stack, "sel") ELSE stack
InSel == Sel \/ Rules
Class(n) == /\ InSel
            /\ stack' = Begun /\ prev' = "name" /\ names' = names \cup {n}
            /\ out' = out \o <<[x |-> ".", cls |-> FALSE], [x |-> n, cls |-> TRUE]>>
Type(x) == InSel /\ (Rules \/ prev = "start") /\ stack' = Begun /\ prev' = "name" /\ Put(x)          \* div  *  a
Simple(x) == InSel /\ stack' = Begun /\ prev' = "name" /\ Put(x)                                     \* #id  :hover  ::before
Func(x) == InSel /\ stack' = Append(Begun, "fn") /\ prev' = "start" /\ Put(x)                        \* :not(  :is(  ::slotted(
FuncEnd == Top = "fn" /\ stack' = Pop /\ prev' = "name" /\ Put(")")
Attr == InSel /\ stack' = Append(Begun, "br") /\ prev' = "name" /\ Put("[")
AttrEnd == Top = "br" /\ stack' = Pop /\ prev' = "name" /\ Put("]")
Comb(x) == Sel /\ stack' = stack /\ prev' = "start" /\ Put(x)                                        \* white space  >  ,
Open == /\ Top \in {"sel", "cond", "atp"}
        /\ stack' = Replace(CASE Top = "sel" -> "decl" [] Top = "cond" -> "nest" [] OTHER -> "opq")
        /\ prev' = "start" /\ Put("{")
Close == Top \in {"decl", "nest", "opq"} /\ stack' = Pop /\ prev' = "start" /\ Put("}")
At(x, k) == Rules /\ stack' = Append(stack, IF k \in Conditional THEN "cond" ELSE "atp") /\ prev' = "start" /\ Put(x)
Semi == Top \in {"cond", "atp"} /\ stack' = Pop /\ prev' = "start" /\ Put(";")                       \* @import url(a.b);  @layer a.b;
(* declarations, strings, numbers, urls, names: anything without selectors *)
Stuff(x) == Top \in {"br", "decl", "par", "cond", "atp", "opq"} /\ UNCHANGED <<stack, prev>> /\ Put(x)
Enter(x) == Top \in {"decl", "par", "cond", "atp", "opq"} /\ stack' = Append(stack, "par") /\ UNCHANGED prev /\ Put(x)
Leave(x) == Top = "par" /\ stack' = Pop /\ UNCHANGED prev /\ Put(x)
Space(x) == ~Sel /\ UNCHANGED <<stack, prev>> /\ Put(x)
Comment(x) == UNCHANGED <<stack, prev>> /\ Put(x)

(* the page's sheet, given what the macro appends to class names *)
RECURSIVE Text(_, _)
Text(o, sfx) == LET h == Len(o) \div 2
                IN CASE Len(o) = 0 -> ""
                     [] Len(o) = 1 -> o[1].x \o (IF o[1].cls THEN sfx ELSE "")
                     [] OTHER -> Text(SubSeq(o, 1, h), sfx) \o Text(SubSeq(o, h + 1, Len(o)), sfx)
(* observed: the sheets added to the page, the constants {class: value}, and the suffix that the first constant reveals *)
Sheet(pages, consts, sfx) ==
  /\ stack = <<"top">>
  /\ pages = <<Text(out, sfx)>>
  /\ consts = [n \in DOMAIN consts |-> IF n \in names THEN n \o sfx ELSE "<none>"]
  /\ names \subseteq DOMAIN consts
  /\ names # {} => sfx # ""
  /\ UNCHANGED cvars
(* the suffixes of all (different) sheets *)
Suffixes(list) == /\ Cardinality({list[i] : i \in 1..Len(list)}) = Len(list)
                  /\ UNCHANGED cvars
==========================================================================
