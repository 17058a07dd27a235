// Runs compiled wasm programs under scripted answers of fd_write and records
// every call.  jobs: [{job, file, cmds: [[op, lit, dbl]], wr: [[kind, n]]}]
const fs = require('fs');
const jobs = JSON.parse(fs.readFileSync(process.argv[2]));
const mods = new Map();
const DATA = 0, INTR = 1, END = 2;
for (const j of jobs) {
  const ev = [];
  let st = 'done', iwr = 0, inst;
  const put = (e) => { if (ev.length > 4000) throw new Error('over'); ev.push(e); };
  const env = {
    vp_op: (i) => (i < j.cmds.length ? j.cmds[i][0] : 0),
    vp_lit: (i) => j.cmds[i][1],
    vp_dbl: (i) => j.cmds[i][2],
  };
  const wasi_snapshot_preview1 = {
    fd_write: (fd, iov, n, nw) => {
      const mem = new DataView(inst.exports.memory.buffer);
      const bytes = [];
      for (let k = 0; k < n; k++) {
        const p = mem.getUint32(iov + 8 * k, true), l = mem.getUint32(iov + 8 * k + 4, true);
        for (let b = 0; b < l; b++) bytes.push(mem.getUint8(p + b));
      }
      const r = iwr < j.wr.length ? j.wr[iwr] : [END, 0];
      iwr++;
      if (r[0] === DATA || r[0] === END) {
        const k = r[0] === END ? bytes.length : Math.min(r[1], bytes.length);
        put(['w', fd, bytes, 'n', k]);
        mem.setUint32(nw, k, true);
        return 0;
      }
      // a failed call says nothing about how much it took
      mem.setUint32(nw, 1, true);
      put(r[0] === INTR ? ['w', fd, bytes, 'i'] : ['w', fd, bytes, 'x', r[1]]);
      return r[0] === INTR ? 27 : r[1];
    },
  };
  try {
    let m = mods.get(j.file);
    if (!m) { m = new WebAssembly.Module(fs.readFileSync(j.file)); mods.set(j.file, m); }
    inst = new WebAssembly.Instance(m, { env, wasi_snapshot_preview1 });
    inst.exports._start();
  } catch (e) {
    st = e.message === 'over' ? 'over' : e instanceof WebAssembly.RuntimeError ? 'trap ' + e.message : 'failed: ' + e.name + ' ' + String(e.message).slice(0, 200);
  }
  fs.writeSync(1, JSON.stringify({ job: j.job, st, ev }) + '\n');
}
