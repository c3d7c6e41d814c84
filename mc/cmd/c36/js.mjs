// Calls parse_edtf very many times with the strings given on stdin (a JSON array) and writes, after each round of calls,
// how large the memory of the program is, how many values of the page it holds, and how large the heap of the page is.
import fs from "node:fs";
import { createRequire } from "node:module";
const require = createRequire(import.meta.url);
globalThis.require = require;
globalThis.fs = fs;
const dir = process.argv[2];
const rounds = +process.argv[3];
const strings = JSON.parse(fs.readFileSync(0, "utf8"));
require(dir + "/wasm_exec.js");
const go = new Go();
let exited = "";
go.exit = (c) => { exited = "the program exits with " + c; };
const log = console.log;
console.log = () => {};
const { instance } = await WebAssembly.instantiate(fs.readFileSync(dir + "/js.wasm"), go.importObject);
go.run(instance).catch((e) => { exited = String(e); });
for (let i = 0; i < 1000 && typeof globalThis.parse_edtf !== "function"; i++) {
  await new Promise((r) => setTimeout(r, 10));
}
const memory = instance.exports.mem || instance.exports.memory;
const out = [];
for (let r = 0; r < rounds && !exited; r++) {
  for (const s of strings) {
    try { await globalThis.parse_edtf(s); } catch (e) {}
    if (exited) break;
  }
  await new Promise((r) => setTimeout(r, 5));
  let values = 0;
  for (const v of go._values || []) if (v !== undefined && v !== null) values++;
  globalThis.gc();
  out.push({ memory: memory.buffer.byteLength, values, heap: process.memoryUsage().heapUsed });
}
fs.writeSync(1, JSON.stringify({ exited, rounds: out }) + "\n");
process.exit(0);
