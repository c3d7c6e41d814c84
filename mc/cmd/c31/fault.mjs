// Runs the WASI program once for each job given on stdin: {args, env}. Its output, standard error and exit status go to files.
import fs from "node:fs";
import { WASI } from "node:wasi";
const dir = process.argv[2];
const out = process.argv[3];
const jobs = JSON.parse(fs.readFileSync(0, "utf8"));
const mod = await WebAssembly.compile(fs.readFileSync(dir + "/wasi.wasm"));
for (let i = 0; i < jobs.length; i++) {
  const fd = fs.openSync(out + "/" + i, "w");
  const ed = fs.openSync(out + "/" + i + ".err", "w");
  const wasi = new WASI({ version: "preview1", args: ["parse", "--", ...jobs[i].args], env: jobs[i].env, stdout: fd, stderr: ed, returnOnExit: true });
  const inst = await WebAssembly.instantiate(mod, wasi.getImportObject());
  let code;
  try {
    code = wasi.start(inst);
  } catch (e) {
    code = 254;
  }
  fs.closeSync(fd);
  fs.closeSync(ed);
  fs.writeFileSync(out + "/" + i + ".code", String(code));
}
