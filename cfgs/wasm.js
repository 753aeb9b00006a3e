// node wasm.js MODULE <records >answers
const fs = require('fs');
const m = new WebAssembly.Instance(new WebAssembly.Module(fs.readFileSync(process.argv[2])), {}).exports;
const i = fs.readFileSync(0);
const p = m.alloc(i.length);
new Uint8Array(m.memory.buffer, p, i.length).set(i);
const q = m.run(p, i.length);
const n = new DataView(m.memory.buffer).getUint32(q, true);
fs.writeSync(1, Buffer.alloc(0));
fs.writeFileSync(process.argv[3], Buffer.from(m.memory.buffer, q + 4, n));
