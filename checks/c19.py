"""C19: the Python classes; Block.tla, Queries.tla"""
import array, ctypes as C, gc, numpy as np
import vc, blocks, frames, queries, signals, session as S
from c18 import signal, signal24, block_sizes, wrong_sizes, channels
from lc3 import *

WATCH = False


class Maker:
    api = 'py'

    def __init__(self, M, path):
        self.M, self.path = M, path

    def __call__(self, *a):
        return blocks.Py(self.M, self.path, *a)


def enc_trace(w, cfg, n, hrm, pcm_arg, rng):
    dt, sr, srp = cfg
    nf, m = 6, ns(dt, srp)
    bits = rng.choice([16, 16, 24, 32])
    x = (signal if bits == 16 else signal24)(n, nf, m, SR_HZ[srp], rng)
    if bits == 32:
        x = ((x + np.random.default_rng(rng.getrandbits(32)).random(x.shape) - .5) / 8388608.).clip(-1, 1).astype(np.float32)
    one = 1 if bits == 32 else 0
    # levels held: within the range, whatever their sum
    x[0] = [[one or (1 << (bits - 1)) - 1] * n] * m if rng.random() < .3 else x[0]
    x[1] = -(one or 1 << (bits - 1)) if rng.random() < .3 else x[1]
    calls = []
    for k in range(nf):
        size = rng.choice(block_sizes(dt, sr, n, rng))
        given, full = x[k], x[k]
        r = rng.random()
        if r < .3:
            # less than a frame: padded with zeros
            q = rng.choice([0, 1, m - 1, rng.randrange(m)])
            given = x[k][:q]
            full = np.concatenate([given, np.zeros((m - q, n), x.dtype)])
        elif r < .5:
            # more: the rest is not looked at
            given = np.concatenate([x[k], x[(k + 1) % nf][:rng.choice([1, 5, m])]])
        calls.append((given, full, size))
    if rng.random() < .5:
        # number of values that leaves the last time step incomplete
        pass
    order = rng.random() < .5

    def mirror():
        for c in range(n):
            w.setup(c + 1, 'enc', dt, sr, srp)
            for g, f, size in calls:
                w.enc(c + 1, np.ascontiguousarray(f[:, c]), blocks.share(size, n, c), bits=bits)
    if order:
        mirror()
    for rep in range(2):
        args = 2 if n == 1 and pcm_arg == 0 and not hrm else 3
        w.new(1, 'enc', hrm, DT_US[dt], SR_HZ[sr], pcm_arg, n, rng.choice([args, args, 5]))
        for g, f, size in calls:
            r = rng.random()
            if r < .15:
                # refused, nothing consumed: for the first channel already
                s = rng.choice([-1, 0, -n, n * max_bytes(dt, sr) + n, n * min_bytes(dt, sr) - n, rng.randrange(n * (min_bytes(dt, sr) - 1))])
                w.benc(1, g, s, bits=bits, full=f)
            elif r < .25:
                # bit depths that do not exist, values that are not numbers
                if rng.random() < .5:
                    w.benc(1, g.astype(np.int16) if bits == 32 else g, size, bits=bits, full=f, pre=1, depth=rng.choice([0, 8, 20, 32, -16, 23]))
                else:
                    y = g.astype(np.float32) / 32768.
                    if y.size:
                        y.reshape(-1)[rng.randrange(y.size)] = rng.choice([np.nan, -np.nan])
                        w.benc(1, y, size, bits=32, full=np.zeros((m, n), np.float32), pre=1, depth=None)
            w.benc(1, g, size, bits=bits, full=f)
    if not order:
        mirror()
    # some channels refused: the call is
    s = rng.choice(wrong_sizes(dt, sr, n, rng))
    w.benc(1, x[0], s if abs(s) < 100000 else -1, bits=bits)


def dec_trace(w, lib, cfg, n, hrm, pcm_arg, rng):
    dt, sr, srp = cfg
    nf = 9
    m = ns(dt, sr)
    x = signal(n, nf, m, SR_HZ[sr], rng)
    E = [lib.encoder(dt, sr) for _ in range(n)]
    calls = []
    for k in range(nf):
        size = rng.choice(block_sizes(dt, sr, n, rng))
        f = [E[c].encode(np.ascontiguousarray(x[k][:, c]), blocks.share(size, n, c))[1] for c in range(n)]
        if rng.random() < .35:
            c = rng.randrange(n)
            f[c] = frames.mutate(f[c], rng) if rng.random() < .6 else b'\xff' * len(f[c])
        calls.append((f, rng.choice([S16, S24_3LE, FLOAT])))
    seen = set()
    w.setup(12, 'dec', dt, sr, srp)
    for f, fmt in calls:
        for b in f:
            if b not in seen:
                seen.add(b)
                w.dec(12, b, fmt=S16)
    # as much for the first channels, less than the least for the last
    tail = rng.randbytes(20 * n - 1)
    for c in range(n - 1):
        w.dec(12, tail[20 * c:20 * c + 20], fmt=S16)
    order = rng.random() < .5

    def mirror():
        for c in range(n):
            w.setup(c + 1, 'dec', dt, sr, srp)
            for f, fmt in calls:
                w.dec(c + 1, f[c], fmt=fmt)
    if order:
        mirror()
    for rep in range(2):
        args = 2 if n == 1 and pcm_arg == 0 and not hrm else 3
        w.new(1, 'dec', hrm, DT_US[dt], SR_HZ[sr], pcm_arg, n, rng.choice([args, args, 5]))
        for f, fmt in calls:
            if rng.random() < .15:
                s = rng.choice([0, 1, 19 * n, n * max_bytes(dt, sr) + n, rng.randrange(19 * n), n - 1])
                w.bdec(1, rng.randbytes(s), fmt=fmt)
            w.bdec(1, b''.join(f), fmt=fmt)
    if not order:
        mirror()
    if rng.random() < .5:
        w.bdec(1, rng.randbytes(n * max_bytes(dt, sr) + 1))
    else:
        w.bdec(1, tail)


class Mallinfo(C.Structure):
    _fields_ = [(k, C.c_size_t) for k in 'arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost'.split()]


def in_use():
    f = C.CDLL(None).mallinfo2
    f.restype = Mallinfo
    gc.collect()
    m = f()
    return m.uordblks + m.hblkhd


def lifetimes(w, make, rng, count):
    """Memory of objects made and let go"""
    for i in range(count):
        kind = rng.choice(['enc', 'dec'])
        dt, sr = rng.choice(CONFIGS)
        n = rng.choice([1, 2, 8])
        hrm = hr(sr)
        what = rng.choice(['good', 'used', 'pcm', 'pcm', 'bad', 'refused'])
        us, hz, pcm = DT_US[dt], SR_HZ[sr], 0
        if what == 'pcm':
            pcm = rng.choice([h for h in SR_HZ[:5] if h < hz] or [44100])
        if what == 'bad':
            us = rng.choice([7500 if hrm else 3000, us, 20000])
            hz = rng.choice([44100, hz])

        def once():
            try:
                o = make(kind, hrm, us, hz, pcm, n)
            except ValueError:
                return
            if what == 'used' and kind == 'enc':
                o.encode(np.zeros((ns(dt, sr), n), np.int16), 16, n * min_bytes(dt, sr), rng)
            if what == 'used' and kind == 'dec':
                o.decode(bytes(n * min_bytes(dt, sr)), n * min_bytes(dt, sr), S16, n, ns(dt, sr), rng)
            if what == 'refused' and kind == 'enc':
                o.encode(np.zeros((ns(dt, sr), n), np.int16), 16, 3, rng)
            if what == 'refused' and kind == 'dec':
                o.decode(bytes(3), 3, S16, n, ns(dt, sr), rng)
        for _ in range(4):
            once()
        N = 60
        a = in_use()
        for _ in range(N):
            once()
        grown = in_use() - a
        # a block of one of them is at least 1000 bytes: less than one byte in two made
        w.ev.append(dict(op='held', o=1, bytes=int(max(0, grown - N * 500)), what=f'{what} {kind} {us} {hz} {pcm} {n}', grown=int(grown)))


def unsupported(w, rng, count, recs):
    for i in range(count):
        hrm = rng.random() < .4
        us = rng.choice(DT_US * 3 + queries.BAD_US[:14])
        hz = rng.choice(SR_HZ * 3 + queries.BAD_HZ[:16])
        pcm = rng.choice([0, 0, hz] + SR_HZ + [44100, 22050, 192000, 1, 7999])
        n = channels(rng)
        if blocks.resolve(hrm, us, hz, pcm):
            continue
        kind = rng.choice(['enc', 'dec'])
        if w.new(2, kind, hrm, us, hz, pcm, n):
            recs += blocks.query_records(w.objs[2]['x'], kind, hrm, us, hz, pcm, n, rng)
            if kind == 'enc':
                w.benc(2, np.zeros((480, n), np.int16), 100 * n)
            else:
                w.bdec(2, rng.randbytes(100 * n), fmt=S16)
            w.drop(2)


def run(c):
    rng = c.rng
    lib = Lib(shim=False)
    M = blocks.py_module()
    make = Maker(M, lib.path)
    old = Maker(M, vc.build_old())
    traces, recs = [], []
    K = 8 if vc.THOROUGH else 2
    for rep in range(K):
        for dt, sr in CONFIGS:
            for srp in pcm_rates(sr):
                if srp != sr and rng.random() < .4 and not vc.THOROUGH:
                    continue
                hrm = hr(sr)
                for kind in ('enc', 'dec'):
                    n = channels(rng)
                    arg = SR_HZ[srp] if srp != sr else rng.choice([0, SR_HZ[sr], -1])
                    if not hrm and rng.random() < .2:
                        # with the defaults of the constructors
                        n, arg = 1, 0 if srp == sr else arg
                    w = blocks.BWorld(lib, rng, make)
                    if kind == 'enc':
                        enc_trace(w, (dt, sr, srp), n, hrm, arg, rng)
                    else:
                        dec_trace(w, lib, (dt, sr, srp), n, hrm, arg, rng)
                    recs += blocks.query_records(w.objs[1]['x'], kind, hrm, DT_US[dt], SR_HZ[sr], arg, n, rng)
                    w.drop(1)
                    traces.append(w.ev)
        # a library without the high-resolution interface
        for i in range(6):
            dt, sr = rng.choice([x for x in CONFIGS if not hr(x[1])])
            n = channels(rng)
            w = blocks.BWorld(lib, rng, old)
            if i % 2:
                enc_trace(w, (dt, sr, sr), n, False, 0, rng)
            else:
                dec_trace(w, lib, (dt, sr, sr), n, False, 0, rng)
            recs += blocks.query_records(w.objs[1]['x'], 'dec' if i % 2 == 0 else 'enc', False, DT_US[dt], SR_HZ[sr], 0, n, rng, old=True)
            w.drop(1)
            traces.append(w.ev)
        w = blocks.BWorld(lib, rng, make)
        unsupported(w, rng, 150, recs)
        traces.append(w.ev)
        w = blocks.BWorld(lib, rng, make)
        lifetimes(w, make, rng, 40)
        w.ev.insert(0, dict(op='new', o=1, api='py', kind='enc', hr=0, us=10000, hz=48000, pcm=0, n=1, err=0))
        traces.append(w.ev)
    c.log(len(traces), 'traces', sum(map(len, traces)), 'events', len(recs), 'queries')
    c.count('calls_of_objects', sum(e['op'] in ('benc', 'bdec') for t in traces for e in t))
    S.validate(c, traces, 'Python object', module='Block')
    queries.validate(c, recs, tag='Python object: ')
    c.sample([e for e in traces[0] if e['op'] in ('new', 'benc')][:3])
