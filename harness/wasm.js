// Runs the WebAssembly library. One request per line, one answer per line.
// Blocks, inputs and outputs live in pages added beyond the heap base; after
// each call nothing outside the block of the session, the output given and the
// stack of the library may have changed in these pages.
'use strict'
const fs = require('fs')
const mod = new WebAssembly.Module(fs.readFileSync(process.argv[2]))
const imports = WebAssembly.Module.imports(mod)
const inst = new WebAssembly.Instance(mod, Object.fromEntries(imports.map(i => [i.module, { [i.name]: () => { throw new Error('import ' + i.name) } }])))
const E = inst.exports, mem = E.memory
const PAGES = 12, BASE = mem.buffer.byteLength
mem.grow(PAGES)
const SLOT = 96 * 1024, IN = BASE + 5 * SLOT + 4096, OUT = IN + 96 * 1024, END = BASE + PAGES * 65536
const M = () => Buffer.from(mem.buffer)
let seed = 1
const rnd = () => (seed = (Math.imul(seed, 1103515245) + 12345) >>> 0) >>> 16 & 255
for (let b = M(), i = BASE; i < END; i++) b[i] = rnd()
const slots = {}

function guarded(f, allowed) {
  const before = Buffer.from(M().subarray(BASE, END))
  let ret
  try { ret = f() } catch (e) { return { trap: String(e) } }
  const after = M().subarray(BASE, END)
  let at = 0, clean = 1
  for (const [lo, n] of [...allowed].sort((a, b) => a[0] - b[0]).concat([[END, 0]])) {
    if (lo - BASE > at && before.compare(after, at, lo - BASE, at, lo - BASE) !== 0) clean = 0
    at = Math.max(at, lo - BASE + n)
  }
  return { ret, clean }
}

const ops = {
  info: () => ({ imports: imports.map(i => i.name), exports: Object.keys(E) }),
  call: q => guarded(() => E[q.f](...q.a), []),
  // set-up of a session in slot q.s; q.fill: content of the block before
  setup: q => {
    const size = E[q.kind === 'enc' ? 'lc3_hr_encoder_size' : 'lc3_hr_decoder_size'](q.hr, q.us, q.size_hz)
    const p = BASE + q.s * SLOT + 64 + 4 * (q.fill & 7)
    if (size > SLOT - 256) return { trap: 'size ' + size }
    const b = M()
    seed = q.fill
    for (let i = 0; i < size; i++) b[p + i] = q.fill % 3 ? rnd() : 255 * (q.fill & 1)
    const f = (q.plain ? 'lc3_setup_' : 'lc3_hr_setup_') + (q.kind === 'enc' ? 'encoder' : 'decoder')
    const r = guarded(() => E[f](...(q.plain ? [] : [q.hr]), q.us, q.hz, q.pcm, q.mem ? p : 0), [[p, size]])
    if (r.trap) return r
    slots[q.s] = { p, size }
    return { ret: r.ret === 0 ? 0 : r.ret === p ? 1 : 2, clean: r.clean }
  },
  enc: q => {
    const t = slots[q.s], pcm = Buffer.from(q.pcm, 'base64'), b = M(), n = Math.max(0, Math.min(q.n, 2000))
    pcm.copy(b, IN)
    seed = q.fill
    for (let i = -64; i < n + 64; i++) b[OUT + 64 + i] = rnd()
    const o0 = Buffer.from(b.subarray(OUT + 64, OUT + 64 + n))
    const r = guarded(() => E.lc3_encode(q.null ? 0 : t.p, q.fmt, IN, q.stride, q.n, OUT + 64), [[t.p, t.size], [OUT + 64, n]])
    if (r.trap) return r
    const o = Buffer.from(b.subarray(OUT + 64, OUT + 64 + n))
    return { ret: r.ret, clean: r.clean, wrote: +(o.compare(o0) !== 0), out: o.toString('base64') }
  },
  dec: q => {
    const t = slots[q.s], out = Buffer.from(q.out, 'base64'), b = M()
    if (q.data !== null) Buffer.from(q.data, 'base64').copy(b, IN)
    out.copy(b, OUT)
    const r = guarded(() => E.lc3_decode(q.null ? 0 : t.p, q.data !== null ? IN : 0, q.n, q.fmt, OUT + q.gap, q.stride), [[t.p, t.size], [OUT, out.length]])
    if (r.trap) return r
    return { ret: r.ret, clean: r.clean, out: Buffer.from(b.subarray(OUT, OUT + out.length)).toString('base64') }
  },
  disable: q => guarded(() => E.lc3_encoder_disable_ltpf(slots[q.s].p), [[slots[q.s].p, slots[q.s].size]]),
  move: q => {
    const t = slots[q.s], b = M(), k = BASE + q.s * SLOT + 64
    const c = Buffer.from(b.subarray(t.p, t.p + t.size)), p = t.p === k + 32 ? k : k + 32
    b.fill(0xEE, t.p, t.p + t.size)
    c.copy(b, p)
    t.p = p
    return { ret: 0, clean: 1 }
  },
}

let buf = ''
process.stdin.setEncoding('latin1')
process.stdin.on('data', d => {
  buf += d
  let i
  while ((i = buf.indexOf('\n')) >= 0) {
    const q = JSON.parse(buf.slice(0, i))
    buf = buf.slice(i + 1)
    fs.writeSync(1, JSON.stringify(ops[q.op](q)) + '\n')
  }
})
