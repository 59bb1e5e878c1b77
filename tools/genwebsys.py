#!/usr/bin/env python3
"""Generates mock/web-sys/src/classes.rs and Cargo.toml from the real web-sys sources in the cargo registry
(run once; the result is committed)."""
import glob, os, re
src = glob.glob(os.path.expanduser("~/.cargo/registry/src/*/web-sys-0.3.*/src/features"))[0]
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "mock", "web-sys")
ext = {}
feats = []
for f in sorted(glob.glob(src + "/gen_*.rs")):
    n = os.path.basename(f)[4:-3]
    feats.append(n)
    s = open(f).read()
    i = s.find("pub type %s;" % n)
    if i >= 0:
        ext[n] = re.findall(r'extends = "([^"]*)"', s[:i])
keep = []
other = """EventTarget Node Element CharacterData Text Comment CdataSection DocumentFragment ShadowRoot Document HtmlDocument Window
DomTokenList CssStyleDeclaration DomRect DomRectReadOnly IntersectionObserver IntersectionObserverInit IntersectionObserverEntry
AddEventListenerOptions EventListenerOptions EventInit CustomEventInit NodeList HtmlCollection HtmlOptionsCollection DomException
Location History Storage Performance SvgElement DataTransfer Touch TouchList DocumentType ProcessingInstruction Attr""".split()
for n, e in ext.items():
    if n in other or (n.startswith("Html") and n.endswith("Element")) or (n.endswith("Event") and (n == "Event" or "Event" in e)):
        keep.append(n)
keep.sort()
lines = ["// generated by tools/genwebsys.py", "use js_sys::Object;", "use wasm_bindgen::js_class;", ""]
for n in keep:
    anc = [a for a in ext[n] if a in keep] + ["Object"]
    lines.append("js_class!(%s: %s);" % (n, ", ".join(anc)))
lines += ["", "/// class names of an instance, most derived first", "pub(crate) fn chain(class: &str) -> &'static [&'static str] {", "    match class {"]
for n in keep:
    anc = [a for a in ext[n] if a in keep] + ["Object"]
    lines.append('        "%s" => &[%s],' % (n, ", ".join('"%s"' % a for a in [n] + anc)))
lines += ['        _ => &["Object"],', "    }", "}"]
open(out + "/src/classes.rs", "w").write("\n".join(lines) + "\n")
with open(out + "/Cargo.toml", "w") as f:
    f.write('[package]\nname = "web-sys"\nversion = "0.3.107"\nedition = "2021"\n\n[lints.rust]\nwarnings = "allow"\n\n[lib]\nname = "web_sys"\n\n[dependencies]\n'
            'wasm-bindgen = { version = "0.2", path = "../wasm-bindgen" }\njs-sys = { version = "0.3", path = "../js-sys" }\n\n[features]\ndefault = ["std"]\nstd = []\n')
    for n in feats + [x for x in ("console", "css", "gpu_buffer_usage") if x not in feats]:
        f.write("%s = []\n" % n)
print(len(keep), "classes", len(feats), "features")
