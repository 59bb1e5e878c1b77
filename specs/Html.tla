------------------------------- MODULE Html -------------------------------
(* Element components, class shortcuts and text (H01). els[e] is the component's name and its classes; page is
   what the host element shows: apps in the order they were shown. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES els, apps
hvars == <<els, apps>>
(* component |-> tag *)
Tag == [
  Anchor |-> "a",
  Area |-> "area",
  Audio |-> "audio",
  Bold |-> "b",
  Br |-> "br",
  Base |-> "base",
  Button |-> "button",
  Canvas |-> "canvas",
  Dl |-> "dl",
  Data |-> "data",
  DataList |-> "datalist",
  Dialog |-> "dialog",
  Div |-> "div",
  Embed |-> "embed",
  FieldSet |-> "fieldset",
  Form |-> "form",
  FrameSet |-> "frameset",
  Hr |-> "hr",
  H1 |-> "h1",
  H2 |-> "h2",
  H3 |-> "h3",
  H4 |-> "h4",
  H5 |-> "h5",
  H6 |-> "h6",
  Italic |-> "i",
  IFrame |-> "iframe",
  Img |-> "img",
  Input |-> "input",
  Li |-> "li",
  Label |-> "label",
  Legend |-> "legend",
  Link |-> "link",
  Map |-> "map",
  Meta |-> "meta",
  Meter |-> "meter",
  Ol |-> "ol",
  Object |-> "object",
  OptGroup |-> "optgroup",
  Option |-> "option",
  Output |-> "output",
  Paragraph |-> "p",
  Picture |-> "picture",
  Pre |-> "pre",
  Progress |-> "progress",
  Quote |-> "q",
  Select |-> "select",
  Source |-> "source",
  Span |-> "span",
  Style |-> "style",
  Th |-> "th",
  Td |-> "td",
  Col |-> "col",
  ColGroup |-> "colgroup",
  Table |-> "table",
  Tr |-> "tr",
  THead |-> "thead",
  TFoot |-> "tfoot",
  TBody |-> "tbody",
  Template |-> "template",
  TextArea |-> "textarea",
  Time |-> "time",
  Track |-> "track",
  Ul |-> "ul",
  Video |-> "video"]
Childless == {"Area", "Br", "Base", "Embed", "Hr", "Input", "Link", "Meta", "Source", "Track"}
(* constructors of typed inputs |-> the type attribute *)
InputType == [
  new_button |-> "button",
  new_checkbox |-> "checkbox",
  new_color |-> "color",
  new_date |-> "date",
  new_datetime |-> "datetime",
  new_email |-> "email",
  new_file |-> "file",
  new_hidden |-> "hidden",
  new_image |-> "image",
  new_month |-> "month",
  new_number |-> "number",
  new_password |-> "password",
  new_radio |-> "radio",
  new_range |-> "range",
  new_reset |-> "reset",
  new_search |-> "search",
  new_submit |-> "submit",
  new_tel |-> "tel",
  new_text |-> "text",
  new_time |-> "time",
  new_url |-> "url",
  new_week |-> "week"]
HtmlInit == els = <<>> /\ apps = <<>>
Range(s) == {s[i] : i \in DOMAIN s}
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
(* a component is created outside of the page, with the tag and type it is named after, and without classes *)
New(e, k, custom, input, tag, ty, in) ==
  /\ e \notin DOMAIN els /\ ~in
  /\ tag = IF custom # "" THEN custom ELSE IF input # "" THEN "input" ELSE Tag[k]
  /\ ty = IF input # "" THEN InputType[input] ELSE ""
  /\ els' = Put(els, e, [k |-> IF input # "" THEN "Input" ELSE k, cls |-> {}])
  /\ UNCHANGED apps
After(k, a, cls) == CASE k \in {"add", "adds", "on", "with", "withs"} -> cls \cup Range(a)
                      [] k \in {"del", "dels", "off"} -> cls \ Range(a)
                      [] k = "ext" -> Range(a)
Classes(e, k, a, same) == /\ e \in DOMAIN els /\ same
                          /\ els' = [els EXCEPT ![e].cls = After(k, a, @)]
                          /\ UNCHANGED apps
(* elements of an app show one child each, unless they cannot have any *)
Shown(e) == [e |-> e, in |-> IF els[e].k \in Childless THEN "" ELSE ToString(e) \o ":t" \o ToString(e)]
Show(m, es) == /\ m \notin {apps[i].m : i \in DOMAIN apps}
               /\ apps' = Append(apps, [m |-> m, items |-> [i \in DOMAIN es |-> Shown(es[i])]])
               /\ UNCHANGED els
Text(m, s) == apps' = Append(apps, [m |-> m, items |-> <<[e |-> 0, in |-> s]>>]) /\ UNCHANGED els
Hide(m) == apps' = SelectSeq(apps, LAMBDA a : a.m # m) /\ UNCHANGED els
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s).items \o Flat(Tail(s))
(* what is observed after each step *)
Seen(page, cls) == /\ page = Flat(apps')
                   /\ Len(cls) = Cardinality(DOMAIN els')
                   /\ \A e \in DOMAIN els' : Range(cls[e]) = els'[e].cls /\ Len(cls[e]) = Cardinality(els'[e].cls)
==========================================================================
