"""Scenarios for element components, class shortcuts and text (H01)."""
import os, re
import core

_s = open(os.path.join(core.SPECS, "Html.tla")).read()
COMPONENTS = re.findall(r"^  (\w+) \|-> ", _s[_s.index("Tag =="):_s.index("Childless ==")], re.M)
INPUTS = ["Input." + x for x in re.findall(r"^  (\w+) \|-> ", _s[_s.index("InputType =="):], re.M)]
CUSTOM = ["Custom." + x for x in ("x-foo", "my-element", "article", "section", "nav", "h7", "template", "svg", "b")]
NAMES = ["a", "b", "ab", "a-b", "A", "c1", "btn", "btn-primary", "é", "--x", "1", "a:b", "w-1/2", "x_y"]
TEXTS = ["", "a", "hello world", " ", "<b>&amp;</b>", "é ❯ 😀", "\n\t", "t1", "null", "x" * 300,
         "a\r\nb", "\r", "a\0b", " a", "a ", "  a  b  ", "e\u0301", "\u00a0", "\u200b\ufeff", "\u05d0b", "&lt;", "0", "undefined",
         "a\\nb", "a\u2028b", "\u001b[1m", "%s {}", "y" * 4097, "\U0001F468\u200d\U0001F469", "z\n" * 40000]
MANY = NAMES + ["n%d" % i for i in range(60)]


def from_walk(rng, i, w):
    return dict(id=i, dom="html", ops=[["new", o[1], o[2], rng.random() < 0.5] if o[0] == "new" else list(o) for o in w if o[0] != "init"])


def scenario(rng, i, comps=None):
    ks = comps or [rng.choice(COMPONENTS + INPUTS + CUSTOM) for _ in range(rng.choice([1, 2, 3, 5]))]
    ops, shown, apps, made = [], set(), {}, 0
    names = rng.sample(NAMES, rng.choice([1, 2, 3, 6])) if rng.random() < 0.9 else rng.sample(MANY, 40)
    todo = list(enumerate(ks, 1))

    def cls():
        k = rng.choice(["add", "adds", "del", "dels", "on", "off", "with", "withs", "ext"])
        a = [rng.choice(names) for _ in range(1 if k in ("add", "del", "on", "off", "with") else rng.choice([0, 1, 2, 3, 6] if len(names) < 40 else [9, 17, 40, 70]))]
        ops.append(["cls", rng.randint(1, made), k, a])
    m = 0
    while todo or rng.random() < 0.93:
        c = rng.random()
        if todo and (c < 0.5 or not made):
            e, k = todo.pop(0)
            made = e
            ops.append(["new", e, k, rng.random() < 0.4])
        elif c < 0.75:
            cls()
        elif c < 0.88:
            es = [e for e in range(1, made + 1) if e not in shown]
            rng.shuffle(es)
            es = es[:rng.choice([1, 1, 2, 3])]
            if es and rng.random() < 0.7:
                m += 1
                apps[m] = es
                shown |= set(es)
                ops.append(["show", m, es])
            else:
                m += 1
                apps[m] = []
                ops.append(["text", m, rng.choice(TEXTS), rng.choice(["str", "new", "dflt", "late"])])
        elif apps:
            x = rng.choice(sorted(apps))
            del apps[x]
            ops.append(["hide", x])
        if len(ops) > 60:
            break
    return dict(id=i, dom="html", ops=ops)


def every(rng, i, k):
    ops = [["new", 1, k, False], ["cls", 1, "with", ["a"]], ["show", 1, [1]], ["cls", 1, "add", ["b"]], ["hide", 1]]
    if "." not in k:
        ops += [["new", 2, k, True], ["show", 2, [2]], ["cls", 2, "withs", ["a", "b"]], ["hide", 2]]
    return dict(id=i, dom="html", ops=ops)
