"""Frame corpora: encoded, mutated, random, and written from symbolic content."""
import json, numpy as np, os
import vc, signals
from lc3 import *

_T = None


def tables():
    global _T
    if _T is None:
        with open(os.path.join(vc.VERIF, 'data', 'tables.json')) as f:
            _T = json.load(f)
    return _T


def rand_size(dt, sr, rng):
    lo, hi = min_bytes(dt, sr), max_bytes(dt, sr)
    c = rng.random()
    if c < .12:
        return lo
    if c < .2:
        return hi
    if c < .6:
        return int(lo * (hi / lo) ** rng.random())
    return rng.randint(lo, hi)


def encode_session(lib, dt, sr, rng, nframes, kind=None, sr_pcm=None, vary=None, size=None, disable=None):
    """Encode one session; list of records with the history needed to replay"""
    if sr_pcm is None:
        sr_pcm = sr if rng.random() < .7 else rng.choice(pcm_rates(sr))
    kind = kind or rng.choice(signals.KINDS)
    n = ns(dt, sr_pcm)
    x = signals.make(kind, n * nframes, SR_HZ[sr_pcm], rng)
    pcm = signals.s16(x)
    e = lib.encoder(dt, sr, sr_pcm)
    vary = rng.random() < .3 if vary is None else vary
    sz = size or rand_size(dt, sr, rng)
    out = []
    for k in range(nframes):
        if vary:
            sz = rand_size(dt, sr, rng)
        if disable == k:
            e.disable_ltpf()
        r, b = e.encode(pcm[k * n:(k + 1) * n], sz)
        out.append(dict(dt=dt, sr=sr, srp=sr_pcm, n=sz, b=b, k=k, kind=kind, r=r))
    return out, pcm, e


# ---------------------------------------------------------------------------
#  Bitstream writer (generation only: what the bytes mean is decided by the
#  specification)
# ---------------------------------------------------------------------------

class Writer:
    def __init__(self):
        self.low, self.range, self.nb = 0, 0xffffff, 0    # low: big integer, nb bytes shifted out
        self.bits = []

    def put(self, v, n):
        self.bits += [(v >> i) & 1 for i in range(n)]

    def sym(self, m, s):
        r = self.range >> 10
        hi = m[s + 1] if s < 16 else 1024
        self.low += r * m[s]
        self.range = r * (hi - m[s])
        while self.range < 0x10000:
            self.low <<= 8
            self.range <<= 8
            self.nb += 1

    def used(self):
        return len(self.bits) + 8 * self.nb + 26 - self.range.bit_length()

    def frame(self, n, rng, tail=None):
        """Bytes of the frame of size n, None when it does not fit at all"""
        nbits = 25 - self.range.bit_length()
        while True:
            mask = (1 << (24 - nbits)) - 1
            val = (self.low + mask) & ~mask
            if val + mask < self.low + self.range:
                break
            nbits += 1
        total = 24 + 8 * self.nb
        fw = total - (24 - nbits)                 # forward bits that matter
        v = val >> (24 - nbits)
        room = 8 * n - len(self.bits)
        bw = list(self.bits)
        bw += [rng.getrandbits(1) if tail is None else tail for _ in range(max(0, room - fw))]
        fbits = [(v >> (fw - 1 - i)) & 1 for i in range(fw)]
        b = bytearray(n)
        for i, x in enumerate(bw[:8 * n]):
            b[n - 1 - i // 8] |= x << (i % 8)
        for i, x in enumerate(fbits[:8 * n]):
            if i // 8 >= n:
                break
            m = 0x80 >> (i % 8)
            b[i // 8] = (b[i // 8] & ~m) | (m if x else 0)
        return bytes(b)


def nbits_nq(n):
    return 4 + sum(n > l for l in (32, 64, 128, 256, 512))


def random_content(dt, sr, n, rng, style=None, pitch=None, ltpf=None, pidx=None, quiet=False):
    """A frame with randomly chosen symbols, biased to rare modes"""
    T = tables()
    style = style or rng.choice(['typical', 'sparse', 'loud', 'escape', 'lsb', 'tns', 'short', 'zeros', 'illegal', 'overfull'])
    w = Writer()
    neF = ne(dt, sr)
    bw = sr
    bwb = 0 if hr(sr) or sr == 0 else 1 if sr == 1 else 2 if sr <= 3 else 3
    if bwb:
        bw = rng.randint(0, sr) if rng.random() < .6 else sr
        ill = rng.random() < .15 and style == 'illegal'
        w.put(rng.randint(0, (1 << bwb) - 1) if ill else bw, bwb)
    nq = 2 * rng.randint(1, neF // 2)
    if style in ('escape', 'short'):
        nq = 2 * rng.randint(1, min(8, neF // 2))
    if style == 'illegal' and rng.random() < .2:
        w.put(rng.getrandbits(nbits_nq(neF)), nbits_nq(neF))
    else:
        w.put(nq // 2 - 1, nbits_nq(neF))
    lsb = 1 if style == 'lsb' or rng.random() < .1 else 0
    w.put(lsb, 1)
    g = rng.randint(0, 255) if rng.random() < .3 else rng.randint(90, 210)
    if quiet:
        g = max(0, min(255, rng.randint(20, 60) + 105 + 5 * (1 + sr) + min(8 * n // (10 * (1 + sr)), 115) - 28))
    w.put(g, 8)
    nf = 1 + (dt >= 1 and bw >= 3)
    lpcw = int(n * 8 < 120 * (1 + dt))
    for f in range(nf):
        on = style == 'tns' or rng.random() < .3
        w.put(int(on), 1)
        if on:
            o = rng.randint(0, 7 if dt > 1 or (style == 'illegal' and rng.random() < .5) else 3)
            w.sym(T['tnsorder'][lpcw], o)
            for i in range(o + 1):
                m = T['tnscoef'][i]
                w.sym(m, rng.randint(0, 16) if rng.random() < .5 else rng.choice([7, 8, 9, 6, 10]))
    pitch = int(rng.random() < .4) if pitch is None else pitch
    w.put(pitch, 1)
    w.put(rng.getrandbits(5), 5)
    w.put(rng.getrandbits(5), 5)
    msb = rng.getrandbits(1)
    w.put(msb, 1)
    w.put(rng.getrandbits(1 + msb), 1 + msb)
    w.put(rng.getrandbits(1), 1)
    lim = 15158272 + 1549824 if msb else 14 * 2390004
    top = (1 << (25 - msb)) - 1
    if style == 'illegal' and rng.random() < .5:
        mux = rng.choice([rng.randint(lim, top), lim, top])
    else:
        mux = rng.choice([rng.randint(0, lim - 1), rng.randint(0, lim - 1), lim - 1, 0,
                          rng.choice([15158271, 15158272]) if msb else 2390004 * rng.randint(1, 13) - rng.getrandbits(1)])
    w.put(mux, 25 - msb)
    if pitch:
        w.put(rng.getrandbits(1) if ltpf is None else int(ltpf), 1)
        w.put(rng.randint(0, 511) if pidx is None else pidx, 9)
    w.put(rng.getrandbits(3), 3)
    # Spectrum
    high = n > 20 * (1 + (4 + sr - 5 if hr(sr) else sr)) and sr < 6
    st = 0
    budget = 8 * n
    maxshl = 22 if hr(sr) else 14
    stop = False
    for i in range(0, nq, 2):
        lut = T['lookup'][2 * high + (0 if i < (neF + 2) // 2 else 1)][st]
        k = shl = 0
        left = budget - w.used()
        tight = left < 24 + (nq - i) * (1 if style != 'overfull' else .2)
        esc = {'escape': .8, 'loud': .5, 'lsb': .45, 'zeros': .01, 'sparse': .03}.get(style, .12)
        if tight:
            esc = 0
        hang = style == 'illegal' and rng.random() < .02
        u = v = 0
        while (rng.random() < esc and shl < maxshl) or hang:
            w.sym(T['specmodel'][lut[min(k, 3)]], 16)
            if hang and shl == maxshl:
                break
            if lsb and shl == 0:
                k, shl = k + 1, 1
                continue
            bu, bv = rng.getrandbits(1), rng.getrandbits(1)
            w.put(bu, 1)
            w.put(bv, 1)
            u |= bu << shl
            v |= bv << shl
            k, shl = min(k + 1, 3), shl + 1
        m = T['specmodel'][lut[k]]
        if tight:
            s = 0 if i < nq - 2 else rng.randint(0, 5)
        elif style in ('sparse', 'zeros') and rng.random() < .8:
            s = 0
        elif rng.random() < .5:
            s = rng.randint(0, 15)
        else:
            x, s = rng.randint(0, m[16] - 1), 0
            while s < 15 and m[s + 1] <= x:
                s += 1
        w.sym(m, s)
        u += (s % 4) << shl
        v += (s // 4) << shl
        if u:
            w.put(rng.getrandbits(1), 1)
        if v:
            w.put(rng.getrandbits(1), 1)
        st = ((st << 4) + (12 + k if k > 1 else 1 + (s % 4 + s // 4) * (k + 1))) & 255
    return w.frame(n, rng, rng.choice([None, None, 0, 1]))


def mutate(b, rng):
    b = bytearray(b)
    c = rng.random()
    if c < .5:
        for _ in range(rng.choice([1, 1, 1, 2, 4])):
            k = rng.randrange(8 * len(b)) if rng.random() < .5 else rng.choice([rng.randrange(24), 8 * len(b) - 1 - rng.randrange(90)])
            k = max(0, min(8 * len(b) - 1, k))
            b[k // 8] ^= 1 << (k % 8)
    elif c < .6:
        b[0] = b[1] = 255
        b[2] = rng.choice([0, 252, 255])
    elif c < .8:
        i = rng.randrange(len(b))
        b[i] = rng.getrandbits(8)
    else:
        k = rng.randrange(len(b))
        b[:k] = bytes(rng.getrandbits(8) for _ in range(k)) if rng.random() < .5 else b[:k]
        b[k:] = b[k:] if rng.random() < .5 else bytes(len(b) - k)
    return bytes(b)
