// Calls parse_edtf on each string given on stdin (a JSON array), one after the other or all at once,
// and writes a line with the state and the value of each promise.
import fs from "node:fs";
import { createRequire } from "node:module";
const require = createRequire(import.meta.url);
globalThis.require = require;
globalThis.fs = fs;
const dir = process.argv[2];
const at_once = process.argv[3] === "all";
const strings = JSON.parse(fs.readFileSync(0, "utf8"));
require(dir + "/wasm_exec.js");
const go = new Go();
let exited = "";
go.exit = (c) => { exited = "the program exits with " + c; };
const real = fs.writeSync.bind(fs);
const log = console.log;
console.log = () => {};
const { instance } = await WebAssembly.instantiate(fs.readFileSync(dir + "/js.wasm"), go.importObject);
go.run(instance).catch((e) => { exited = String(e); });
for (let i = 0; i < 1000 && typeof globalThis.parse_edtf !== "function"; i++) {
  await new Promise((r) => setTimeout(r, 10));
}
const text = (v) => typeof v === "string" ? v : v && v.message !== undefined ? String(v.message) : "(" + typeof v + ") " + String(v);
const pending = Symbol();
const settle = async (s) => {
  try {
    const p = globalThis.parse_edtf(s);
    if (!p || typeof p.then !== "function") return ["no promise", text(p)];
    let timer;
    const late = new Promise((r) => { timer = setTimeout(() => r(pending), 20000); });
    const v = await Promise.race([p, late]);
    clearTimeout(timer);
    if (v === pending) return ["pending", exited];
    return [typeof v === "string" ? "resolved" : "resolved with a " + typeof v, text(v)];
  } catch (e) {
    return ["rejected", text(e) + (exited ? " " + exited : "")];
  }
};
const emit = (r) => { const b = Buffer.from(JSON.stringify(r) + "\n"); let o = 0; while (o < b.length) { try { o += real(1, b, o); } catch (e) { if (e.code !== "EAGAIN") throw e; } } };
if (at_once) {
  for (const r of await Promise.all(strings.map(settle))) emit(r);
} else {
  for (const s of strings) {
    emit(await settle(s));
    if (exited) break;
  }
}
process.exit(0);
