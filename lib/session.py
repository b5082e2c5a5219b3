"""Replays call scripts into the implementation and records the events that
Session.tla validates."""
import json, os, re, shutil, ctypes as C, numpy as np
import vc, frames, signals
from lc3 import *

# Under AddressSanitizer: exact heap blocks, no margins of our own
ASAN = os.environ.get('VERIF_ASAN') == '1'
GAP = 0 if ASAN else 24
_libc = C.CDLL(None)
_libc.malloc.restype = C.c_void_p
_libc.malloc.argtypes = [C.c_size_t]
_libc.free.argtypes = [C.c_void_p]


class Intern:
    def __init__(self):
        self.d = {}

    def __call__(self, kind, b):
        k = (kind, b)
        if k not in self.d:
            self.d[k] = len(self.d) + 1
        return self.d[k]


IDS = Intern()


class Block:
    """A memory block of exactly the announced size, between guards"""

    def __init__(self, size, rng, content=None):
        self.size = size
        if ASAN:
            self.raw = _libc.malloc(size)
            self.mem = np.ctypeslib.as_array((C.c_uint8 * size).from_address(self.raw))
            self.mem[:] = content if content is not None else np.frombuffer(rng.randbytes(size), np.uint8)
            self.ptr, self.buf, self.off = self.raw, None, 0
            return
        self.buf = np.empty(size + 256, np.uint8)
        self.buf[:] = 0xC3
        self.off = (-self.buf.ctypes.data) % 64 + 64 + 16 * rng.randrange(4)
        m = self.mem = self.buf[self.off:self.off + size]
        if content is not None:
            m[:] = content
        else:
            c = rng.randrange(4)
            if c == 0:
                m[:] = 0
            elif c == 1:
                m[:] = 0xFF
            else:
                m[:] = np.frombuffer(rng.randbytes(size), np.uint8)
        self.ptr = m.ctypes.data

    def __del__(self):
        if ASAN and getattr(self, 'raw', None):
            _libc.free(self.raw)
            self.raw = None

    def clean(self):
        return self.buf is None or bool((self.buf[:self.off] == 0xC3).all() and (self.buf[self.off + self.size:] == 0xC3).all())


def lay_in(v, fmt, stride, rng, bits=16):
    """Samples v (16- or 24-bit integers, or floats) laid out in a format and
    stride, the gaps filled with garbage. Returns (array, pointer)"""
    n = len(v)
    if bits == 16:
        w = {S16: lambda: v.astype(np.int16), S24: lambda: v.astype(np.int32) * 256,
             S24_3LE: lambda: signals.pack24(v.astype(np.int32) * 256), FLOAT: lambda: (v / 32768.).astype(np.float32)}[fmt]()
    elif bits == 24:
        w = {S24: lambda: v.astype(np.int32), S24_3LE: lambda: signals.pack24(v), FLOAT: lambda: (v / 8388608.).astype(np.float32)}[fmt]()
    else:
        w = np.ascontiguousarray(v, np.float32)
    sz = FMT_SIZE[fmt]
    raw = w.view(np.uint8).reshape(n, sz)
    tot = ((n - 1) * stride + 1) * sz
    buf = np.frombuffer(bytearray(rng.randbytes(tot + 2 * GAP)), np.uint8).copy()
    body = buf[GAP:GAP + tot]
    full = np.zeros(n * stride * sz, np.uint8).reshape(n, stride, sz)
    pad = np.concatenate([body, np.zeros(n * stride * sz - tot, np.uint8)]).reshape(n, stride, sz)
    pad[:, 0, :] = raw
    buf[GAP:GAP + tot] = pad.reshape(-1)[:tot]
    return buf, buf.ctypes.data + GAP


def out_buf(n, fmt, stride, rng):
    sz = FMT_SIZE[fmt]
    tot = ((n - 1) * stride + 1) * sz
    c = rng.randrange(3)
    buf = np.frombuffer(bytearray(rng.randbytes(tot + 2 * GAP)), np.uint8).copy()
    if c == 0:
        buf[:] = 0
    elif c == 1:
        buf[:] = 0xFF
    return buf, buf.ctypes.data + GAP


def read_out(buf, n, fmt, stride):
    """(samples bytes n x size, mask of the bytes of samples)"""
    sz = FMT_SIZE[fmt]
    tot = ((n - 1) * stride + 1) * sz
    body = np.concatenate([buf[GAP:GAP + tot], np.zeros(n * stride * sz - tot, np.uint8)]).reshape(n, stride, sz)
    mask = np.zeros((n, stride, sz), bool)
    mask[:, 0, :] = True
    m = np.zeros(len(buf), bool)
    m[GAP:GAP + tot] = mask.reshape(-1)[:tot]
    return np.ascontiguousarray(body[:, 0, :]), m


def samples(raw, fmt):
    if fmt == S16:
        return raw.reshape(-1).view(np.int16).copy()
    if fmt == S24:
        return raw.reshape(-1).view(np.int32).copy()
    if fmt == FLOAT:
        with np.errstate(invalid="ignore"):
            return raw.reshape(-1).view(np.float32) + np.float32(0)
    r = raw.astype(np.int32)
    v = r[:, 0] | r[:, 1] << 8 | r[:, 2] << 16
    return np.where(v >= 1 << 23, v - (1 << 24), v).astype(np.int32)


class World:
    """Slots holding sessions of the implementation; records the events"""

    def __init__(self, lib, rng):
        self.lib, self.rng, self.slots, self.ev = lib, rng, {}, []
        self.keep = None

    def size(self, kind, dt, sr, srp):
        f = self.lib.L.lc3_hr_encoder_size if kind == 'enc' else self.lib.L.lc3_hr_decoder_size
        return f(hr(sr), DT_US[dt], SR_HZ[srp])

    def setup(self, s, kind, dt, sr, srp, content=None, over=False):
        """over: over the block of the session in progress"""
        rng = self.rng
        size = self.size(kind, dt, sr, srp)
        old = self.slots.get(s)
        if over and old and old['blk'].size >= size:
            blk = Block(size, rng, content=old['blk'].mem[:size])
        else:
            blk = Block(size, rng, content)
        f = self.lib.L.lc3_hr_setup_encoder if kind == 'enc' else self.lib.L.lc3_hr_setup_decoder
        h = f(hr(sr), DT_US[dt], SR_HZ[sr], SR_HZ[srp] if srp != sr or rng.random() < .5 else rng.choice([0, -1]), blk.ptr)
        self.slots[s] = dict(kind=kind, dt=dt, sr=sr, srp=srp, blk=blk, h=h, pos=0)
        self.ev.append(dict(op='setup', s=s, kind=kind, dt=dt, sr=sr, srp=srp, ret=int(h == blk.ptr), clean=int(blk.clean())))

    def enc(self, s, v, n, fmt=None, stride=None, null=False, bits=16):
        rng, t = self.rng, self.slots[s]
        fmt = fmt if fmt is not None else FLOAT if bits == 32 else rng.choice([S24, S24_3LE]) if bits == 24 else rng.randrange(4)
        stride = stride or rng.choice([1, 1, 1, 2, 3, 7])
        buf, p = lay_in(v, fmt, stride, rng, bits)
        before = buf.copy()
        out = np.frombuffer(bytearray(rng.randbytes(min(max(n, 0), 2000) + (2 * GAP + 700 if GAP else 0))), np.uint8).copy()
        if rng.random() < .3:
            out[:] = rng.choice([0, 255])
        o0 = out.copy()
        r = self.lib.L.lc3_encode(None if null else t['h'], fmt, p, stride, n, out.ctypes.data + GAP)
        nn = max(min(n, len(out)), 0)
        clean = t['blk'].clean() and (buf == before).all() and (out[:GAP] == o0[:GAP]).all() and (out[GAP + nn:] == o0[GAP + nn:]).all()
        wrote = int((out != o0).any())
        b = out[GAP:GAP + nn].tobytes() if r == 0 else b''
        self.ev.append(dict(op='enc', s=s, null=int(null), n=int(n), ret=int(r), clean=int(clean), wrote=wrote, fmt=fmt, stride=stride,
                            **{'in': IDS('pcm%d' % bits, np.asarray(v).tobytes())}, res=IDS('frame', b)))
        return r, b

    def dec(self, s, data, n=None, fmt=None, stride=None, null=False, nopitch=False):
        """data None: frame lost"""
        rng, t = self.rng, self.slots[s]
        fmt = fmt if fmt is not None else rng.choice([FLOAT, FLOAT, S16, S24, S24_3LE])
        stride = stride or rng.choice([1, 1, 1, 2, 3, 7])
        ns_ = ns(t['dt'], t['srp'])
        n = (len(data) if data is not None else 0) if n is None else n
        out, p = out_buf(ns_, fmt, stride, rng)
        o0 = out.copy()
        if data is not None:
            # nothing before or after the bytes given
            m = len(data)
            ib = np.frombuffer(rng.randbytes(GAP) + data + rng.randbytes(GAP), np.uint8).copy()
            i0 = ib.copy()
            ip = ib.ctypes.data + GAP
        else:
            ip, ib = None, None
        r = self.lib.L.lc3_decode(None if null else t['h'], ip, n, fmt, p, stride)
        raw, mask = read_out(out, ns_, fmt, stride)
        clean = t['blk'].clean() and (out[~mask] == o0[~mask]).all() and (ib is None or (ib == i0).all())
        wrote = int((out != o0).any())
        x = samples(raw, fmt) if r >= 0 else None
        f = {S16: 0, S24: 1, S24_3LE: 1, FLOAT: 3}[fmt]
        self.ev.append(dict(op='dec', s=s, null=int(null), lost=int(data is None), n=int(n), fmt=f, ret=int(r), clean=int(clean), wrote=wrote,
                            srp=t['srp'], nopitch=int(nopitch), stride=stride,
                            **{'in': IDS('frame', data or b'')}, res=IDS('out%d' % f, x.tobytes()) if r >= 0 else 0))
        return r, x

    def disable(self, s):
        self.lib.L.lc3_encoder_disable_ltpf(self.slots[s]['h'])
        self.ev.append(dict(op='disable', s=s))

    def move(self, s):
        t = self.slots[s]
        b = Block(t['blk'].size, self.rng, content=t['blk'].mem)
        t['blk'].mem[:] = 0xEE
        t['old'] = t['blk']
        t['blk'], t['h'] = b, b.ptr
        self.ev.append(dict(op='move', s=s))

    def junk(self, s):
        self.ev.append(dict(op='junk', s=s))
        self.keep = [np.frombuffer(self.rng.randbytes(5000), np.uint8).copy() for _ in range(4)]


# ---------------------------------------------------------------------------
#  Material of one configuration
# ---------------------------------------------------------------------------

class Material:
    def __init__(self, lib, dt, sr, srp, rng, nframes=24):
        self.dt, self.sr, self.srp = dt, sr, srp
        n = ns(dt, srp)
        kind = rng.choice(['speech', 'pulse', 'tones', 'noise', 'switch', 'click'])
        self.pcm = signals.s16(signals.make(kind, n * nframes, SR_HZ[srp], rng)).reshape(nframes, n)
        self.pcm24 = signals.s24(signals.make(kind, n * nframes, SR_HZ[srp], rng)).reshape(nframes, n)
        self.a = signals.s16(signals.make('tones', n, SR_HZ[srp], rng))
        self.b = signals.s16(signals.make('fullnoise', n, SR_HZ[srp], rng))
        self.n1, self.n2 = frames.rand_size(dt, sr, rng), frames.rand_size(dt, sr, rng)
        self.sizes = [frames.rand_size(dt, sr, rng) if rng.random() < .4 else self.n1 for _ in range(nframes)]
        e = lib.encoder(dt, sr)
        m = ns(dt, sr)
        x = signals.s16(signals.make('pulse', m * nframes, SR_HZ[sr], rng)).reshape(nframes, m)
        self.frames = []
        off = rng.randrange(nframes)
        for k in range(nframes):
            if k == off:
                e.disable_ltpf()
            r, b = e.encode(x[k], self.n1)
            self.frames.append((b, k >= off))
        e = lib.encoder(dt, sr)
        x = signals.s16(signals.make(rng.choice(['pulse', 'speech']), m * 6, SR_HZ[sr], rng)).reshape(6, m)
        self.g = [(e.encode(x[k], self.n1)[1], False) for k in range(6)][-1]
        e = lib.encoder(dt, sr)
        e.disable_ltpf()
        x = signals.s16(signals.make('noise', m * 3, SR_HZ[sr], rng)).reshape(3, m)
        self.h = [(e.encode(x[k], self.n1)[1], True) for k in range(3)][-1]
        self.bad = []
        for _ in range(400):
            c = frames.mutate(rng.choice(self.frames)[0], rng) if rng.random() < .7 else rng.randbytes(self.n1)
            if lib.decoder(dt, sr).decode(c)[0] == 1:
                self.bad.append(c)
                if len(self.bad) == 3:
                    break
        if not self.bad:
            self.bad = [b'\xff' * self.n1]
        self.bad += self.bad


def play(w, mat, script, rng, bits=16):
    """One script of SessionGen into the world"""
    kinds = {}
    for a in script:
        s, op = a['s'], a['op']
        if op == 'setup':
            over = s in w.slots and rng.random() < .5
            w.setup(s, a['kind'], mat.dt, mat.sr, mat.srp, over=over)
        elif op == 'enc':
            t, i = w.slots[s], a['in']
            k = t['pos']
            pcm = mat.pcm24 if bits == 24 else mat.pcm
            v, n = pcm[k % len(pcm)], mat.sizes[k % len(pcm)]
            if i == 'a':
                v, n, = (mat.a, mat.n1)
            elif i == 'A':
                v, n = mat.a, mat.n2
            elif i == 'b':
                v, n = mat.b, mat.n1
            elif i == 'short':
                n = rng.choice([min_bytes(mat.dt, mat.sr) - 1, 0, -1, -2**31, 1, min_bytes(mat.dt, mat.sr) // 2])
            elif i == 'long':
                n = rng.choice([max_bytes(mat.dt, mat.sr) + 1, max_bytes(mat.dt, mat.sr) + 40])
            elif i == 'nullh':
                w.enc(s, v, n, null=True, bits=16 if i in 'abA' else bits)
                continue
            elif i == 'next':
                t['pos'] += 1
            w.enc(s, v, n, bits=16 if i in ('a', 'b', 'A') else bits)
        elif op == 'dec':
            t, i = w.slots[s], a['in']
            k = t['pos']
            d, n, null = mat.frames[k % len(mat.frames)], None, False
            if i == 'next':
                t['pos'] += 1
            elif i == 'g':
                d = mat.g
            elif i == 'h':
                d = mat.h
            elif i == 'bad':
                d = (mat.bad[0], False)
            elif i == 'bad2':
                d = (mat.bad[1], False)
            elif i == 'lost':
                d, n = (None, False), mat.n1
            elif i == 'short':
                n = rng.choice([19, 0, -1, -2**31, 1])
            elif i == 'long':
                n = rng.choice([max_bytes(mat.dt, mat.sr) + 1, 2**31 - 1, max_bytes(mat.dt, mat.sr) + 40])
            elif i == 'nullh':
                null = True
            w.dec(s, d[0], n, null=null, nopitch=d[1])
        elif op == 'disable':
            w.disable(s)
        elif op == 'move':
            w.move(s)
        elif op == 'junk':
            w.junk(s)


def incarnations(script):
    """The calls of each session of a script, apart"""
    cur, done = {}, []
    for a in script:
        if a['op'] == 'setup':
            if a['s'] in cur:
                done.append(cur[a['s']])
            cur[a['s']] = [a]
        elif a['op'] in ('enc', 'dec', 'disable') and a['s'] in cur:
            cur[a['s']].append(a)
    return done + list(cur.values())


# ---------------------------------------------------------------------------
#  Scripts and validation
# ---------------------------------------------------------------------------

def scripts(c, cfg, sim=None, depth=None):
    args = []
    if sim:
        args = ['-simulate', f'num={sim}', '-depth', str(depth or 100), '-seed', str(vc.SEED)]
    t = vc.tlc('SessionGen', cfg=cfg, args=args, workers=1 if sim else None)
    c.add_tlc(t)
    if t.rc:
        raise RuntimeError('SessionGen: ' + t.trace())
    r = t.prints()
    if sim:
        # TLC prints every successor of the last but one state: keep one of each
        out, last = [], None
        for x in r:
            p = json.dumps(x[:-1])
            if p != last:
                out.append(x)
            last = p
        r = out
    return r


def validate(c, traces, what='session', module='Session'):
    """traces: list of event lists"""
    d = vc.scratch()
    try:
        live = list(range(len(traces)))
        for _ in range(6):
            if not live:
                return
            p = vc.ndjson(os.path.join(d, 't.ndjson'), [traces[i] for i in live])
            t = vc.tlc(module, env=dict(TRACE=p))
            c.add_tlc(t)
            if t.rc == 0:
                c.traces(len(live))
                return
            m, k = re.findall(r'/\\ tr = (\d+)', t.out), re.findall(r'/\\ k = (\d+)', t.out)
            if not m or 'Conforms' not in t.out:
                raise RuntimeError('TLC: ' + t.out[-3000:])
            i, k = live[int(m[-1]) - 1], int(k[-1])
            ev = traces[i][k - 1]
            key = 'o' if 'o' in ev else 's'
            hist = [e for e in traces[i][:k] if e.get(key) == ev[key]]
            last = max(j for j, e in enumerate(hist) if e['op'] in ('setup', 'new'))
            c.violation(f'{what}: event {describe(ev)} contradicts the session model; configuration '
                        f"{ {x: hist[last][x] for x in ('kind', 'dt', 'sr', 'srp', 'hr', 'us', 'hz', 'pcm', 'n') if x in hist[last]} }, {len(hist) - last - 1} calls since set-up",
                        dict(event=ev, history=hist[last:], trace=traces[i][:k]))
            live.remove(i)
            if len(c.viol) >= 5:
                return
    finally:
        shutil.rmtree(d, ignore_errors=True)


def describe(e):
    return ' '.join(f'{k}={v}' for k, v in e.items())
