// Runs the WASI program on each list of arguments given on stdin (a JSON array of arrays), its output going to a file per list.
import fs from "node:fs";
import { WASI } from "node:wasi";
const dir = process.argv[2];
const out = process.argv[3];
const lists = JSON.parse(fs.readFileSync(0, "utf8"));
const mod = await WebAssembly.compile(fs.readFileSync(dir + "/wasi.wasm"));
for (let i = 0; i < lists.length; i++) {
  const fd = fs.openSync(out + "/" + i, "w");
  const wasi = new WASI({ version: "preview1", args: ["parse", "--", ...lists[i]], env: {}, stdout: fd, returnOnExit: true });
  const inst = await WebAssembly.instantiate(mod, wasi.getImportObject());
  let code;
  try {
    code = wasi.start(inst);
  } catch (e) {
    code = "trap " + e;
  }
  fs.closeSync(fd);
  fs.writeFileSync(out + "/" + i + ".code", String(code));
}
