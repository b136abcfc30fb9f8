// Sends the operations of recorded scripts to the js/wasm build through topolithSend and records what it returns.
// usage: node run.js topolith.wasm wasm_exec.js in.ndjson out.ndjson
const nodefs = require("fs");
const [wasm, exec, inp, out] = process.argv.slice(2);
globalThis.fs = {
  constants: { O_WRONLY: -1, O_RDWR: -1, O_CREAT: -1, O_TRUNC: -1, O_APPEND: -1, O_EXCL: -1, O_DIRECTORY: -1 },
  writeSync(fd, buf) { return buf.length; },
  write(fd, buf, offset, length, position, callback) { callback(null, buf.length); },
  open(p, f, m, cb) { const e = new Error("not supported"); e.code = "ENOSYS"; cb(e); },
  fsync(fd, cb) { cb(null); },
};
require(exec);

function call(...args) {
  try {
    const r = globalThis.topolithSend(...args);
    return { ret: typeof r === "string" ? r : "?" + typeof r, thrown: "" };
  } catch (e) {
    return { ret: "", thrown: String(e).slice(0, 200) };
  }
}

(async () => {
  const module = await WebAssembly.compile(nodefs.readFileSync(wasm));
  const o = nodefs.openSync(out, "w");
  for (const line of nodefs.readFileSync(inp, "utf8").split("\n")) {
    if (!line) continue;
    const job = JSON.parse(line);
    delete globalThis.topolithSend;
    const go = new Go();
    go.exit = () => {};
    const inst = await WebAssembly.instantiate(module, go.importObject);
    go.run(inst);
    for (let i = 0; i < 200 && !globalThis.topolithSend; i++) await new Promise((r) => setTimeout(r, 5));
    job.start = call("world");
    for (const op of job.ops) {
      if (op.e === "badcall") {
        op.js = call(...["item create badcall", "item create badcall2", "x"].slice(0, op.c.lim));
      } else {
        op.js = call(op.txt);
      }
      op.after = call("world");
      if (op.js.thrown || op.after.thrown) break;
    }
    nodefs.writeSync(o, JSON.stringify(job) + "\n");
  }
  nodefs.closeSync(o);
  process.exit(0);
})();
