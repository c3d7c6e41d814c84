// Loads the page of the server at the given address in a small document model, presses its button for each list of texts
// given on stdin, and writes a line with what the page shows after each press.
import fs from "node:fs";
import vm from "node:vm";
const base = process.argv[2];
const fault = process.argv[3];
const lists = JSON.parse(fs.readFileSync(0, "utf8"));
const emit = (r) => { const b = Buffer.from(JSON.stringify(r) + "\n"); let o = 0; while (o < b.length) { try { o += fs.writeSync(1, b, o); } catch (e) { if (e.code !== "EAGAIN") throw e; } } };
for (const k of ["log", "debug", "info", "warn", "error"]) console[k] = () => {};
const troubles = [];
process.on("unhandledRejection", (e) => troubles.push(String(e)));

// a small document model: enough of the DOM to show text
class Node_ {
  constructor(tag) { this.tagName = tag.toUpperCase(); this.nodeName = this.tagName; this.childNodes = []; this.attributes = new Map(); this.parentNode = null; this.listeners = {}; this.value = ""; this.markup = ""; this.style = { display: "", visibility: "", setProperty(k, v) { this[k] = v; }, removeProperty(k) { this[k] = ""; } }; this.dataset = {};
    const el = this;
    this.classList = { add: (...c) => el.classes(c, true), remove: (...c) => el.classes(c, false), contains: (c) => el.className.split(/\s+/).includes(c), toggle: (c) => el.classes([c], !el.classList.contains(c)) }; }
  classes(c, on) { const s = new Set(this.className.split(/\s+/).filter(Boolean)); for (const x of c) on ? s.add(x) : s.delete(x); this.className = [...s].join(" "); }
  get className() { return this.attributes.get("class") || ""; }
  set className(v) { this.attributes.set("class", v); }
  get id() { return this.attributes.get("id") || ""; }
  set id(v) { this.attributes.set("id", v); }
  get children() { return this.childNodes.filter((c) => c.tagName !== "#TEXT"); }
  get firstChild() { return this.childNodes[0] || null; }
  get lastChild() { return this.childNodes[this.childNodes.length - 1] || null; }
  get firstElementChild() { return this.children[0] || null; }
  hasChildNodes() { return this.childNodes.length > 0; }
  get childElementCount() { return this.children.length; }
  wrap(c) { return c instanceof Node_ ? c : document.createTextNode(String(c)); }
  appendChild(c) { c.remove(); c.parentNode = this; this.childNodes.push(c); return c; }
  append(...cs) { for (const c of cs) this.appendChild(this.wrap(c)); }
  prepend(...cs) { for (const c of cs.reverse()) { const n = this.wrap(c); n.remove(); n.parentNode = this; this.childNodes.unshift(n); } }
  insertBefore(c, ref) { c.remove(); c.parentNode = this; const i = this.childNodes.indexOf(ref); this.childNodes.splice(i < 0 ? this.childNodes.length : i, 0, c); return c; }
  removeChild(c) { this.childNodes = this.childNodes.filter((x) => x !== c); c.parentNode = null; return c; }
  remove() { if (this.parentNode) this.parentNode.removeChild(this); }
  replaceChildren(...cs) { for (const c of [...this.childNodes]) this.removeChild(c); this.append(...cs); }
  replaceWith(...cs) { const p = this.parentNode; if (!p) return; for (const c of cs) p.insertBefore(this.wrap(c), this); this.remove(); }
  insertAdjacentElement(_, c) { return this.appendChild(c); }
  insertAdjacentText(_, s) { this.append(s); }
  insertAdjacentHTML(_, s) { this.html(s); }
  get textContent() { return this.tagName === "#TEXT" ? this.data : this.childNodes.map((c) => c.textContent).join(""); }
  set textContent(s) { if (this.tagName === "#TEXT") { this.data = String(s); return; } this.replaceChildren(); if (s !== null && s !== undefined && String(s) !== "") this.append(String(s)); }
  get innerText() { return this.textContent; }
  set innerText(s) { this.textContent = s; }
  get innerHTML() { return this.childNodes.map((c) => c.outerHTML).join(""); }
  get outerHTML() { if (this.tagName === "#TEXT") return this.data.replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/>/g, "&gt;"); const t = this.tagName.toLowerCase(); return "<" + t + ">" + this.innerHTML + "</" + t + ">"; }
  set innerHTML(s) { this.replaceChildren(); this.html(String(s)); }
  html(s) { // tags become elements, entities text; what was written as markup is remembered
    if (s === "") return;
    this.markup += s;
    let at = this;
    for (const m of s.matchAll(/<(\/?)([a-zA-Z][a-zA-Z0-9]*)([^>]*)>|([^<]+|<)/g)) {
      if (m[4] !== undefined) at.append(m[4].replace(/&lt;/g, "<").replace(/&gt;/g, ">").replace(/&quot;/g, "\"").replace(/&#0?39;/g, "'").replace(/&amp;/g, "&"));
      else if (m[1]) { if (at !== this) at = at.parentNode; }
      else { const c = document.createElement(m[2]); for (const a of m[3].matchAll(/([a-zA-Z-]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|(\S+)))?/g)) c.setAttribute(a[1], a[2] ?? a[3] ?? a[4] ?? ""); at.appendChild(c); if (!/^(br|hr|img|input|link|meta)$/i.test(m[2])) at = c; }
    }
  }
  getAttribute(k) { return this.attributes.has(k) ? this.attributes.get(k) : null; }
  setAttribute(k, v) { this.attributes.set(k, String(v)); if (k === "style") { const d = /display\s*:\s*([a-z-]+)/.exec(v); if (d) this.style.display = d[1]; } }
  removeAttribute(k) { this.attributes.delete(k); if (k === "style") this.style.display = ""; }
  hasAttribute(k) { return this.attributes.has(k); }
  toggleAttribute(k, on) { const want = on === undefined ? !this.hasAttribute(k) : on; want ? this.setAttribute(k, "") : this.removeAttribute(k); return want; }
  get disabled() { return this.hasAttribute("disabled"); }
  set disabled(v) { this.toggleAttribute("disabled", !!v); }
  get hidden() { return this.hasAttribute("hidden"); }
  set hidden(v) { this.toggleAttribute("hidden", !!v); }
  addEventListener(k, f) { (this.listeners[k] = this.listeners[k] || []).push(f); }
  removeEventListener(k, f) { this.listeners[k] = (this.listeners[k] || []).filter((x) => x !== f); }
  focus() {} blur() {} select() {} scrollIntoView() {}
  *all() { yield this; for (const c of this.childNodes) yield* c.all(); }
  match(sel) { return sel.split(",").some((q) => { q = q.trim().split(/\s+/).pop(); const m = /^([a-zA-Z]*)(?:#([\w-]+))?(?:\.([\w-]+))?$/.exec(q); return m && (!m[1] || this.tagName === m[1].toUpperCase()) && (!m[2] || this.id === m[2]) && (!m[3] || this.classList.contains(m[3])); }); }
  querySelectorAll(q) { return [...this.all()].filter((e) => e !== this && e.match(q)); }
  querySelector(q) { return this.querySelectorAll(q)[0] || null; }
  getElementsByTagName(n) { return this.querySelectorAll(n); }
  getElementsByClassName(n) { return this.querySelectorAll("." + n); }
}
const doc = new Node_("html");
const listeners = {};
const document = {
  documentElement: doc, readyState: "loading",
  get body() { return doc.querySelector("body"); }, get head() { return doc.querySelector("head"); },
  getElementById: (id) => [...doc.all()].find((e) => e.id === id) || null,
  querySelector: (q) => doc.querySelector(q), querySelectorAll: (q) => doc.querySelectorAll(q),
  getElementsByTagName: (q) => doc.querySelectorAll(q), getElementsByClassName: (q) => doc.querySelectorAll("." + q),
  createElement: (t) => new Node_(t),
  createTextNode: (s) => { const n = new Node_("#text"); n.data = String(s); return n; },
  createDocumentFragment: () => new Node_("#fragment"),
  addEventListener: (k, f) => (listeners[k] = listeners[k] || []).push(f),
};
globalThis.window = globalThis;
globalThis.self = globalThis;
globalThis.document = document;
globalThis.Node = Node_;
globalThis.HTMLElement = Node_;
globalThis.location = new URL(base);
globalThis.alert = () => {};
globalThis.addEventListener = (k, f) => (listeners[k] = listeners[k] || []).push(f);
globalThis.removeEventListener = () => {};
const realFetch = globalThis.fetch;
globalThis.fetch = async (u, o) => {
  const url = new URL(u, base);
  if (fault !== "none" && url.pathname.endsWith(".wasm")) {
    if (fault === "network") throw new TypeError("Failed to fetch");
    if (fault === "missing") return realFetch(new URL("wasm/missing.wasm", base), o);
    if (fault === "empty") return new Response(new Uint8Array(0), { headers: { "Content-Type": "application/wasm" } });
    if (fault === "never") return new Promise(() => {});
    const r = await realFetch(url, o);
    const b = new Uint8Array(await r.arrayBuffer());
    if (fault === "cut") return new Response(b.slice(0, b.length >> 1), { headers: { "Content-Type": "application/wasm" } });
    if (fault === "type") return new Response(b, { headers: { "Content-Type": "text/plain" } });
  }
  return realFetch(url, o);
};
const tick = (ms) => new Promise((r) => setTimeout(r, ms));
const html = await (await realFetch(base)).text();
doc.html(html.replace(/<!--[\s\S]*?-->/g, "").replace(/<!doctype[^>]*>/i, ""));
for (const e of doc.all()) e.markup = "";
const button = () => document.getElementById("button");
const ready = () => { const b = button(); return !!b && !b.disabled; };
emit({ kind: "start", ready: ready(), parse: typeof globalThis.parse_edtf });
for (const s of doc.querySelectorAll("script")) {
  const src = s.getAttribute("src");
  const code = src ? await (await realFetch(new URL(src, base))).text() : s.textContent;
  try { vm.runInThisContext(code); } catch (e) { troubles.push(String(e)); }
}
emit({ kind: "scripts", ready: ready(), parse: typeof globalThis.parse_edtf });
document.readyState = "complete";
for (const k of ["DOMContentLoaded", "load"]) for (const f of listeners[k] || []) { try { f.call(globalThis, { type: k, target: document }); } catch (e) { troubles.push(String(e)); } }
const limit = fault === "none" ? 3000 : 60;
for (let i = 0; i < limit && !ready(); i++) {
  await tick(10);
  if (ready() && typeof globalThis.parse_edtf !== "function") break;
}
emit({ kind: "loaded", ready: ready(), parse: typeof globalThis.parse_edtf, label: button() ? button().textContent.trim() : "", troubles });
const visible = (e) => { for (let x = e; x; x = x.parentNode) if (x.style && (x.style.display === "none" || x.style.visibility === "hidden") || x.hidden) return false; return true; };
const show = (e) => {
  const tags = [...e.all()].filter((x) => x !== e && x.tagName !== "#TEXT").map((x) => x.tagName.toLowerCase());
  return { text: e.textContent, visible: visible(e), tags, markup: [...e.all()].map((x) => x.markup).join("") };
};
if (ready()) {
  for (const l of lists) {
    for (const s of l) {
      const b = button();
      document.getElementById("raw").value = s;
      let ret, thrown = "", prevented = false;
      const ev = { type: "click", target: b, preventDefault() { prevented = true; }, stopPropagation() {} };
      try {
        const code = b.getAttribute("onclick");
        if (code) ret = vm.runInThisContext("(function(event) {" + code.replace(/&quot;/g, "\"") + "\n})").call(b, ev);
        for (const f of b.listeners.click || []) ret = f.call(b, ev);
        if (typeof b.onclick === "function") ret = b.onclick(ev);
        if (ret !== false && !prevented && b.getAttribute("type") !== "button") {
          // a submit button that is not stopped submits its form, which may stop it in turn
          const form = doc.querySelector("form");
          const sev = { type: "submit", target: form, preventDefault() { prevented = true; }, stopPropagation() {} };
          for (const f of form.listeners.submit || []) if (f.call(form, sev) === false) prevented = true;
          if (typeof form.onsubmit === "function" && form.onsubmit(sev) === false) prevented = true;
          const c = form.getAttribute("onsubmit");
          if (c && vm.runInThisContext("(function(event) {" + c + "\n})").call(form, sev) === false) prevented = true;
        }
      } catch (e) { thrown = String(e); }
      const result = document.getElementById("result");
      let last = "", same = 0;
      for (let i = 0; i < 500 && same < 2; i++) {
        await tick(0);
        const now = JSON.stringify(show(result));
        same = now === last && result.textContent !== "" ? same + 1 : 0;
        last = now;
      }
      emit({ kind: "press", raw: s, thrown, stays: ret === false || prevented, ...show(result), enabled: ready(), troubles: troubles.splice(0) });
      for (const e of result.all()) e.markup = "";
    }
  }
}
process.exit(0);
