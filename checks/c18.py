"""C18: the C++ classes; Block.tla, Queries.tla"""
import numpy as np
import vc, blocks, frames, queries, signals, session as S
from lc3 import *


def signal(n, nf, ns_, hz, rng):
    """Sample values of every channel: (nf, ns, n)"""
    x = np.stack([signals.s16(signals.make(rng.choice(signals.KINDS), ns_ * nf, hz, rng)) for _ in range(n)], 1)
    return x.reshape(nf, ns_, n)


def signal24(n, nf, ns_, hz, rng):
    x = np.stack([signals.s24(signals.make(rng.choice(['tones', 'noise', 'speech', 'square']), ns_ * nf, hz, rng)) for _ in range(n)], 1)
    return x.reshape(nf, ns_, n)


def block_sizes(dt, sr, n, rng):
    lo, hi = min_bytes(dt, sr), max_bytes(dt, sr)
    f = frames.rand_size(dt, sr, rng)
    return [n * f, n * f + rng.randrange(n), n * lo + rng.randrange(n), n * hi, max(n * lo, n * hi - rng.randrange(n))]


def wrong_sizes(dt, sr, n, rng, dec=False):
    lo, hi = 20 if dec else min_bytes(dt, sr), max_bytes(dt, sr)
    return [n * lo - 1 - rng.randrange(n), n * hi + 1 + rng.randrange(n), 0, -1, -n, -n * lo, -2**31, rng.randrange(n * lo), n * hi + n,
            -rng.randrange(2**31)]


def enc_trace(w, cfg, n, hrm, pcm_arg, rng, slots):
    """An object and C sessions side by side"""
    dt, sr, srp = cfg
    nf, m = 7, ns(cfg[0], cfg[2])
    bits = rng.choice([16, 16, 24, 32])
    x = (signal if bits == 16 else signal24)(n, nf, m, SR_HZ[srp], rng)
    if bits == 32:
        x = ((x + np.random.default_rng(rng.getrandbits(32)).random(x.shape) - .5) / 8388608.).clip(-1, 1).astype(np.float32)
    args = 2 if n == 1 and pcm_arg == 0 and not hrm else 3 if n == 1 and not hrm else 4 if not hrm else 5
    w.new(1, 'enc', hrm, DT_US[dt], SR_HZ[sr], pcm_arg, n, rng.choice([args, args, args, 5]))
    order = rng.random() < .5

    def mirror(calls):
        for c in range(min(n, slots)):
            w.setup(c + 1, 'enc', dt, sr, srp)
            for op, k, size in calls:
                if op == 'dis':
                    w.disable(c + 1)
                elif op == 'enc':
                    w.enc(c + 1, x[k][:, c], blocks.share(size, n, c), bits=bits)
    for rep in range(2):
        calls = []
        for k in range(nf):
            if rng.random() < .12:
                calls.append(('dis', 0, 0))
            if rng.random() < .25:
                # refused for one or for every channel
                s = rng.choice(wrong_sizes(dt, sr, n, rng))
                calls.append(('bad' if s <= 0 else 'enc', rng.randrange(nf), s))
            calls.append(('enc', k, rng.choice(block_sizes(dt, sr, n, rng))))
        if order:
            mirror(calls)
        if rep:
            w.reset(1)
        for op, k, size in calls:
            if op == 'dis':
                w.bdisable(1)
            else:
                w.benc(1, x[k], size, bits=bits)
        if not order:
            mirror(calls)


def dec_trace(w, lib, cfg, n, hrm, pcm_arg, rng, slots):
    dt, sr, srp = cfg
    nf = 10
    m = ns(dt, sr)
    x = signal(n, nf, m, SR_HZ[sr], rng)
    E = [lib.encoder(dt, sr) for _ in range(n)]
    stream = []
    for k in range(nf):
        size = rng.choice(block_sizes(dt, sr, n, rng))
        f = [E[c].encode(np.ascontiguousarray(x[k][:, c]), blocks.share(size, n, c))[1] for c in range(n)]
        if rng.random() < .35:
            c = rng.randrange(n)
            f[c] = frames.mutate(f[c], rng) if rng.random() < .6 else b'\xff' * len(f[c])
        stream.append(f)
    for _ in range(3):
        stream.insert(rng.randrange(len(stream) + 1), None)
    args = 2 if n == 1 and pcm_arg == 0 and not hrm else 3 if n == 1 and not hrm else 4 if not hrm else 5
    w.new(1, 'dec', hrm, DT_US[dt], SR_HZ[sr], pcm_arg, n, rng.choice([args, args, args, 5]))
    # calls: channel frames, block, size announced, format
    calls = []
    for f in stream:
        fmt = rng.randrange(4)
        if rng.random() < .25:
            s = rng.choice(wrong_sizes(dt, sr, n, rng, True))
            b = rng.randbytes(max(min(s, 7000), 1))
            at = np.cumsum([0] + [max(blocks.share(s, n, c), 0) for c in range(n)])
            calls.append(([b[at[c]:at[c + 1]] for c in range(n)] if s > 0 else None, b, s, rng.randrange(4)))
        if f is None:
            calls.append((None, None, rng.choice([0, -1, 100, 20 * n]), fmt))
        else:
            calls.append((f, b''.join(f), None, fmt))
    # every frame content once alone: whether it is good
    seen = set()
    w.setup(12, 'dec', dt, sr, srp)
    for f, d, s, fmt in calls:
        for b in f or []:
            if b not in seen:
                seen.add(b)
                w.dec(12, b, fmt=S16)
    order = rng.random() < .5

    def mirror():
        for c in range(min(n, slots)):
            w.setup(c + 1, 'dec', dt, sr, srp)
            for f, d, s, fmt in calls:
                if f is None and d is not None:
                    continue
                w.dec(c + 1, f[c] if f else None, n=None if f else rng.choice([0, 20, 100000, -1]), fmt=fmt)
    for rep in range(2):
        if rep:
            w.reset(1)
        if order and not rep:
            mirror()
        for f, d, s, fmt in calls:
            w.bdec(1, d, size=s, fmt=fmt)
        if not order and not rep:
            mirror()


def channels(rng):
    return rng.choice([1, 2, 2, 3, 4, 5, 6, 7, 8])


class Maker:
    api = 'cpp'

    def __init__(self, L):
        self.L = L

    def __call__(self, *a):
        return blocks.Cpp(self.L, *a)


def unsupported(w, rng, count, recs):
    """Objects of configurations that do not exist"""
    for i in range(count):
        hrm = rng.random() < .4
        us = rng.choice(DT_US + queries.BAD_US[:14])
        hz = rng.choice(SR_HZ + queries.BAD_HZ[:16])
        pcm = rng.choice([0, 0, hz] + SR_HZ + queries.BAD_HZ[:16])
        n = channels(rng)
        if blocks.resolve(hrm, us, hz, pcm):
            continue
        kind = rng.choice(['enc', 'dec'])
        if w.new(2, kind, hrm, us, hz, pcm, n):
            recs += blocks.query_records(w.objs[2]['x'], kind, hrm, us, hz, pcm, n, rng)
            if kind == 'enc':
                w.benc(2, np.zeros((480, n), np.int16), 100 * n)
                if w.make.api == 'cpp':
                    w.reset(2)
                    w.bdisable(2)
                w.benc(2, np.zeros((480, n), np.int16), 60 * n)
            else:
                w.bdec(2, rng.randbytes(100 * n))
                if w.make.api == 'cpp':
                    w.bdec(2, None, size=0)
            w.drop(2)


def run(c):
    rng = c.rng
    lib = Lib(shim=False)
    L = blocks.cpp_lib()
    traces, recs = [], []
    K = 12 if vc.THOROUGH else 3
    for rep in range(K):
        for dt, sr in CONFIGS:
            for srp in pcm_rates(sr):
                if srp != sr and rng.random() < .4 and not vc.THOROUGH:
                    continue
                hrm = hr(sr)
                for kind in ('enc', 'dec'):
                    n = channels(rng)
                    arg = SR_HZ[srp] if srp != sr else rng.choice([0, SR_HZ[sr], -1, -48000])
                    if not hrm and rng.random() < .2:
                        # with the defaults of the constructors
                        n, arg = 1, 0 if srp == sr else arg
                    w = blocks.BWorld(lib, rng, Maker(L))
                    if kind == 'enc':
                        enc_trace(w, (dt, sr, srp), n, hrm, arg, rng, 8)
                    else:
                        dec_trace(w, lib, (dt, sr, srp), n, hrm, arg, rng, 8)
                    recs += blocks.query_records(w.objs[1]['x'], kind, hrm, DT_US[dt], SR_HZ[sr], arg, n, rng)
                    w.drop(1)
                    traces.append(w.ev)
        w = blocks.BWorld(lib, rng, Maker(L))
        unsupported(w, rng, 150, recs)
        traces.append(w.ev)
    c.log(len(traces), 'traces', sum(map(len, traces)), 'events', len(recs), 'queries')
    c.count('calls_of_objects', sum(e['op'] in ('benc', 'bdec') for t in traces for e in t))
    S.validate(c, traces, 'C++ object', module='Block')
    queries.validate(c, recs, tag='C++ object: ')
    c.sample([e for e in traces[0] if e['op'] in ('new', 'benc')][:3])
