"""Style sheets for the css! macro (M01), from walks through the state graph of MC_Css."""
CLASSES = ["a", "ab", "abc", "a-b", "x1", "btn", "btn-primary", "btn-primary-2", "nav_item", "-y", "--v", "é", "A", "a1b2", "item", "hidden", "b"]
TYPE = ["a", "div", "*", "button", "li", "html", "ab", "h1", "btn"]
SIMPLE = ["#a", "#btn", ":hover", "::before", ":root", ":first-child", "#x1", ":nth-child(2n+1)", ":lang(en)", "::part(a)", ":a", "::-webkit-scrollbar"]
FUNC = [":not(", ":is(", ":where(", ":has(", "::slotted(", ":host(", ":nth-child(2 of ", ":-webkit-any(", ":NOT("]
COMB = [" ", " > ", ">", " + ", "~", ",", ", ", "\n", ",\n\t", " "]
COND = ["@media", "@supports", "@container", "@layer"]
OTHER = ["@font-face", "@keyframes a", "@page :first", "@import url(\"a.b.css\")", "@import url(x.ab.css)", "@property --a", "@-webkit-keyframes x1",
         "@counter-style a", "@charset \"utf-8\"", "@namespace url(a.b)", "@font-feature-values a"]
COMMENT = ["/* .a { color: red } */", "/**/", "/* ` ${x} */", "/* \\ */", "/* it's \" */", "/* } */", "/* .btn */", "/***/"]
STUFF = {
    "br": ["data-a=\".a\"", "class~='.btn'", "a", "title=\".x1 { } \"", "data-v=\"a.b\" i", "href$=\".ab\""],
    "decl": ["color:red;", "content:\".a\";", "content:'\\201C';", "content:\"\\f101\";", "width:.5em;", "background:url(img.a.png);",
             "background:url(\"x/.btn\");", "grid-area:a;", "--v:.a;", "margin:-.5px 1.5em;", "content:\"`\";", "content:\"${a}\";",
             "content:\"\\\"\";", "transform:rotate(.5turn);", "\n\t", "width:calc(100% - .5em);", "content:\"❯ é\";", "animation:a .3s;",
             "content:\"\\\\\";", "content:\"$\";", "content:\"\\A\";", "content:'`${`';", "background:url(data:image/svg+xml;base64,PHN2Zy8+);"],
    "par": [".5em", "a", "min-width:10.5em", "\".b\"", " ", "1.5", "'a.b'"],
    "cond": ["screen", " and ", "print, ", "(min-width:1.5em)", " not all ", " base.a ", "(width > 10.5em)", " x1 "],
    "atp": [" ", " a ", "\".a\" ", " screen "],
    "opq": ["from{top:.5px}", "12.5%{width:.1em}", "to{}", "font-family:\"x.a\";", "src:url(a.woff2);", "\n", "50%,60.5%{margin:-.5em}", "syntax:\".a\";"],
}
ENTER = {"decl": [("width:calc(", ")"), ("--w:{", "}"), ("--x:[", "]"), ("(", ")")], "par": [("(", ")"), ("calc(", ")"), ("[", "]")],
         "cond": [("(", ")"), ("style(", ")")], "atp": [("(", ")")], "opq": [("x{", "}"), ("12.5%{", "}")]}
FINISH = {"sel": "open", "decl": "close", "fn": "funcend", "br": "attrend", "par": "leave", "cond": "open", "atp": "semi", "nest": "close", "opq": "close"}


def sheet(rng, i, ops, names=None):
    """ops: names of MC_Css steps -> scenario with the tokens and the text"""
    names = names or rng.sample(CLASSES, rng.choice([1, 2, 4, 8]))
    st, ends, ev, text = ["top"], [], [], []

    def emit(op, x, **kw):
        ev.append(dict(op=op, x=x, **kw))
        text.append(x)

    def one(op):
        top = st[-1]
        if op in ("class", "type", "simple", "func", "attr") and top in ("top", "nest"):
            st.append("sel")
        if op == "class":
            n = rng.choice(names)
            ev.append(dict(op="class", x=n))
            text.append("." + n)
        elif op == "type":
            emit(op, rng.choice(TYPE))
        elif op == "simple":
            emit(op, rng.choice(SIMPLE))
        elif op == "func":
            emit(op, rng.choice(FUNC))
            st.append("fn")
        elif op in ("funcend", "attrend"):
            emit(op, ")" if op == "funcend" else "]")
            st.pop()
        elif op == "attr":
            emit(op, "[")
            st.append("br")
        elif op == "comb":
            emit(op, rng.choice(COMB))
        elif op == "open":
            emit(op, "{")
            st[-1] = {"sel": "decl", "cond": "nest", "atp": "opq"}[top]
        elif op == "close":
            emit(op, "}")
            st.pop()
        elif op == "at-cond":
            k = rng.choice(COND)
            x = k if rng.random() < 0.85 else k.upper() if rng.random() < 0.5 else k.title()
            emit("at", x + " ", k=k)
            st.append("cond")
        elif op == "at-other":
            emit("at", rng.choice(OTHER), k="@other")
            st.append("atp")
        elif op == "semi":
            emit(op, ";")
            st.pop()
        elif op == "stuff":
            emit(op, rng.choice(STUFF[top]))
        elif op == "enter":
            a, b = rng.choice(ENTER[top])
            emit(op, a)
            ends.append(b)
            st.append("par")
        elif op == "leave":
            emit(op, ends.pop())
            st.pop()
        elif op == "space":
            emit(op, rng.choice(["\n", " ", "\t", "\n\n"]))
        elif op == "comment":
            emit(op, rng.choice(COMMENT))
        else:
            raise ValueError(op)

    for op in ops:
        one(op)
    while len(st) > 1:
        one(FINISH[st[-1]])
    used = {e["x"] for e in ev if e["op"] == "class"}
    return dict(id=i, ev=ev, text="".join(text), cand=sorted(used | set(CLASSES)), raw=rng.random() < 0.7)


def variants(rng, i, s):
    """sheets that differ from s at one place: at the start, at the end, in one class name, in an added comment or its text"""
    res = []
    cl = [k for k, e in enumerate(s["ev"]) if e["op"] == "class"]
    for n, k in enumerate(["start", "end", "class", "class", "len"]):
        ev = [dict(e) for e in s["ev"]]
        if k == "start":
            ev.insert(0, dict(op="comment", x="/*1*/"))
        elif k == "end":
            ev.append(dict(op="comment", x="/*%d*/" % rng.randrange(10)))
        elif k == "len":
            ev.append(dict(op="comment", x="/*x*/"))
        elif cl:
            j = rng.choice(cl)
            c = [x for x in CLASSES if x != ev[j]["x"] and len(x) == len(ev[j]["x"])]
            ev[j]["x"] = rng.choice(c or CLASSES)
        used = {e["x"] for e in ev if e["op"] == "class"}
        if len({x.replace("-", "_") for x in used}) < len(used):
            continue
        res.append(dict(id="%s_%d" % (i, n), ev=ev, text="".join("." + e["x"] if e["op"] == "class" else e["x"] for e in ev),
                        cand=sorted(used | set(CLASSES)), raw=rng.random() < 0.7))
    return res


def walk(g, init, rng, n, weight):
    s, w = init, []
    while len(w) < n:
        es = g.get(s)
        if not es:
            break
        op, s = rng.choices(es, [weight.get(o[0], 1) for o, _ in es])[0]
        w.append(op[0])
    return w


WEIGHTS = [{}, {"class": 4}, {"class": 3, "func": 2, "open": 3}, {"at-cond": 3, "open": 4, "class": 2, "semi": 0.2}, {"stuff": 3, "comment": 2},
           {"close": 3, "open": 3, "funcend": 2, "attrend": 2, "leave": 2}]
