// Serves batches of calls from standard input with bld.wasm (see src/main.rs).
const fs = require('fs');
const mod = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
const fresh = () => new WebAssembly.Instance(mod, {}).exports;
let x = fresh();
function ask(batch) {
  try {
    const b = Buffer.from(batch);
    const at = x.room(b.length);
    new Uint8Array(x.memory.buffer, at, b.length).set(b);
    const n = x.answer_batch();
    return Buffer.from(new Uint8Array(x.memory.buffer, x.answer_at(), n));
  } catch (e) {
    return null;
  }
}
if (process.argv[3] === 'none') {
  console.log(ask('').toString());
} else {
  let buf = Buffer.alloc(0);
  const chunk = Buffer.alloc(1 << 16);
  for (;;) {
    let n;
    try {
      n = fs.readSync(0, chunk);
    } catch (e) {
      if (e.code === 'EAGAIN') continue;
      if (e.code === 'EOF') break;
      throw e;
    }
    if (n === 0) break;
    buf = Buffer.concat([buf, chunk.subarray(0, n)]);
    if (buf.length >= 3 && buf.subarray(buf.length - 3).toString() === '\nE\n') {
      const a = ask(buf);
      buf = Buffer.alloc(0);
      if (a === null) {
        process.stderr.write('the program was aborted\n');
        process.exit(134);
      }
      let k = 0;
      while (k < a.length) {
        try {
          k += fs.writeSync(1, a, k);
        } catch (e) {
          if (e.code !== 'EAGAIN') throw e;
        }
      }
    }
  }
}
