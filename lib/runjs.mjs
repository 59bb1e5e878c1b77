// Runs the JavaScript modules of css! invocations against a page that records the style sheets it gets.
// stdin: one JSON object per line {id, js: [{js, imports}]}; stdout: {id, pages: [...], error}
import { createInterface } from 'node:readline';
class El {
  constructor(tag) { this.tag = tag; this.parts = []; this.attached = false; }
  get innerHTML() { return this.parts.join(''); } set innerHTML(v) { this.parts = [String(v)]; }
  get textContent() { return this.parts.join(''); } set textContent(v) { this.parts = [String(v)]; }
  get innerText() { return this.parts.join(''); } set innerText(v) { this.parts = [String(v)]; }
  append(...xs) { for (const x of xs) this.add(x); }
  appendChild(x) { this.add(x); return x; }
  add(x) { this.parts.push(typeof x === 'string' ? x : x.text); }
  setAttribute() {}
}
let sheets;
const head = {
  put(...xs) { for (const x of xs) { if (!sheets.includes(x)) sheets.push(x); } },
  append(...xs) { this.put(...xs); }, appendChild(x) { this.put(x); return x; },
  insertBefore(x) { this.put(x); return x; }, insertAdjacentElement(_, x) { this.put(x); return x; },
};
globalThis.document = {
  head, body: head, documentElement: head,
  createElement: (t) => new El(t), createTextNode: (s) => ({ text: String(s) }),
  querySelector: (s) => (s === 'head' ? head : null), getElementsByTagName: () => [head],
};
for await (const line of createInterface({ input: process.stdin })) {
  const s = JSON.parse(line);
  sheets = [];
  let error = '';
  try {
    for (const m of s.js) {
      const ns = await import('data:text/javascript;charset=utf-8,' + encodeURIComponent(m.js + '\n//' + s.id));
      for (const i of m.imports) if (!(i in ns)) error = 'no export ' + i;
    }
  } catch (e) { error = String(e); }
  const pages = sheets.map((e) => (e.tag === 'style' ? e.textContent : '<' + e.tag + '>'));
  console.log(JSON.stringify({ id: s.id, pages, error }));
}
