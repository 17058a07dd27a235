// Runs compiled wasm programs and records what can be observed: external
// calls, result, traps.
const fs = require('fs');
const jobs = JSON.parse(fs.readFileSync(process.argv[2]));
const cache = new Map();
const EOUT = 0, ERET = 3;
const i64 = (x) => x.toString();
for (const j of jobs) {
  const ev = [];
  let st = 'done';
  const put = (k, a, n) => {
    if (ev.length > 60000) throw new Error('over');
    ev.push(`[${k},${a},${n}]`);
  };
  const env = {
    vp_out: (x) => { put(EOUT, i64(x), 0); return x; },
    vp_arg_i64: (i) => BigInt.asIntN(64, BigInt(j.args[i])),
    vp_arg_i32: (i) => Number(BigInt.asIntN(32, BigInt(j.args[i]))),
    vp_arg_i1: (i) => Number(BigInt(j.args[i]) & 1n),
    vp_ret_i64: (x) => { put(ERET, i64(x), 8); return x; },
    vp_ret_i32: (x) => { put(ERET, x | 0, 4); return x; },
    vp_ret_i1: (x) => { put(ERET, x & 0xff, 1); return x; },
  };
  let inst;
  const wasi_snapshot_preview1 = {
    fd_write: (fd, iov, n, nw) => {
      const mem = new DataView(inst.exports.memory.buffer);
      let total = 0;
      const bytes = [];
      for (let k = 0; k < n; k++) {
        const p = mem.getUint32(iov + 8 * k, true), l = mem.getUint32(iov + 8 * k + 4, true);
        for (let b = 0; b < l; b++) bytes.push(mem.getUint8(p + b));
        total += l;
      }
      ev.push(`[5,${fd},[${bytes.join(',')}]]`);
      mem.setUint32(nw, total, true);
      return 0;
    },
  };
  try {
    let m = cache.get(j.file);
    if (!m) { m = new WebAssembly.Module(fs.readFileSync(j.file)); cache.clear(); cache.set(j.file, m); }
    inst = new WebAssembly.Instance(m, { env, wasi_snapshot_preview1 });
    inst.exports._start();
  } catch (e) {
    st = e instanceof WebAssembly.RuntimeError ? 'trap' : e.message === 'over' ? 'over' : 'failed: ' + e.name + ' ' + String(e.message).replace(/["\\\n]/g, ' ').slice(0, 200);
  }
  fs.writeSync(1, `{"case":"${j.case}","arg":${j.arg},"st":"${st}","ev":[${ev.join(',')}]}\n`);
}
