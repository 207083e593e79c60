// Runs twiggy's WebAssembly library. One line of JSON in: a list of calls;
// one line of JSON out: what each of them gave (a number, a string as hex,
// null, or {"trap": message}).
const fs = require("fs");
const mod = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
let x, mem, objs, said;
function start() {
  const stub = () => { throw new Error("binding described at run time"); };
  const imports = {};
  for (const i of WebAssembly.Module.imports(mod)) {
    (imports[i.module] = imports[i.module] || {})[i.name] = stub;
  }
  imports.__wbindgen_placeholder__.__wbindgen_throw = (p, n) => {
    throw new Error(Buffer.from(new Uint8Array(x.memory.buffer, p, n)).toString("utf8"));
  };
  x = new WebAssembly.Instance(mod, imports).exports;
  objs = [];
}
function pass(b) {
  const p = x.__wbindgen_malloc(b.length) >>> 0;
  new Uint8Array(x.memory.buffer).set(b, p);
  return p;
}
function one(c) {
  switch (c[0]) {
    case "start":
      start();
      return null;
    case "parse": {
      const b = Buffer.from(c[1], "hex");
      objs.push(x.items_parse(pass(b), b.length) >>> 0);
      return objs.length - 1;
    }
    case "new":
      objs.push(x[c[1] + "_new"]() >>> 0);
      return objs.length - 1;
    case "set":
      x[c[2]](objs[c[1]], c[3]);
      return null;
    case "str": {
      const b = Buffer.from(c[3], "hex");
      x[c[2]](objs[c[1]], pass(b), b.length);
      return null;
    }
    case "get":
      return x[c[2]](objs[c[1]]) >>> 0;
    case "run": {
      const ret = x.__wbindgen_malloc(8) >>> 0;
      x["items_" + c[2]](ret, objs[c[1]], ...c.slice(3).map((k) => objs[k]));
      const v = new DataView(x.memory.buffer);
      const p = v.getUint32(ret, true), n = v.getUint32(ret + 4, true);
      const s = Buffer.from(new Uint8Array(x.memory.buffer, p, n)).toString("hex");
      x.__wbindgen_free(p, n);
      x.__wbindgen_free(ret, 8);
      return s;
    }
    case "free":
      x["__wbg_" + c[2] + "_free"](objs[c[1]]);
      return null;
    case "rounds":
      // the same calls again and again, each time with objects of its own
      for (let k = 0; k < c[1]; k++) {
        objs = [];
        c[2].forEach(one);
      }
      return x.memory.buffer.byteLength;
  }
  throw new Error("unknown call " + c[0]);
}
function answer(line) {
  const out = [];
  for (const c of JSON.parse(line)) {
    try {
      out.push(one(c));
    } catch (e) {
      // the innermost function that is not the panic machinery
      const at = String(e.stack).split("\n").map((l) => (/ at (\S+) \(wasm/.exec(l) || [])[1]).filter((f) => f && !/^_ZN(3std|4core|5alloc)|panic|unwind|^rust_|^wasm-function/.test(f));
      out.push({ trap: String(e), at: (at[0] || "").replace(/17h[0-9a-f]{16}E$/, "") });
      break;
    }
  }
  fs.writeSync(1, JSON.stringify(out) + "\n");
}
start();
// read and answer line by line, without the event loop
let rest = "";
const buf = Buffer.alloc(1 << 16);
for (;;) {
  let n;
  try {
    n = fs.readSync(0, buf);
  } catch (e) {
    if (e.code === "EAGAIN") continue;
    if (e.code === "EOF") break;
    throw e;
  }
  if (n === 0) break;
  rest += buf.toString("latin1", 0, n);
  let k;
  while ((k = rest.indexOf("\n")) >= 0) {
    const line = rest.slice(0, k);
    rest = rest.slice(k + 1);
    answer(line);
  }
}
