"""Numeric interpretation, in double precision, of what the specification says
a frame denotes: FrameSyntax.tla gives the symbols, this gives the samples.
Written from the equations of the standard, with dense matrices and plain
recursions; nothing is shared with the implementation but normative tables."""
import numpy as np
from functools import lru_cache
from lc3 import ns as NS, ne as NE, nd as ND, NS2, NS4, hr
import frames


@lru_cache(None)
def T(key):
    t = frames.tables()[key]
    return t


@lru_cache(None)
def window(dt, sr):
    return np.array(T('win')[dt][sr], np.float64)


@lru_cache(None)
def cosm(n):
    """MDCT kernel of n coefficients, n x 2n"""
    k = np.arange(n)[:, None] + .5
    t = np.arange(2 * n)[None, :] + .5 + n / 2
    # exact argument reduction: (2k+1)(2t+1+n) pi / 4n
    a = (((2 * np.arange(n)[:, None] + 1) * (2 * np.arange(2 * n)[None, :] + 1 + n)) % (8 * n)).astype(np.float64)
    return np.sqrt(2. / n) * np.cos(a * (np.pi / (4 * n)))


@lru_cache(None)
def dct16():
    k, n = np.arange(16)[:, None], np.arange(16)[None, :]
    m = np.cos(np.pi * k * (2 * n + 1) / 32) * np.sqrt(2 / 16.)
    m[0] /= np.sqrt(2)
    return m          # y = m @ x forward; x = m.T @ y inverse


def gain_offset(sr, n):
    ind = 4 + sr - 5 if hr(sr) else sr
    return min(181 if sr == 6 else 255, 105 + 5 * (1 + ind) + min((8 * n) // (10 * (1 + ind)), 115))


def gain(sr, n, g_idx):
    return 10. ** ((g_idx - gain_offset(sr, n)) / 28.)


def deenum(idx, ls, npulses, n):
    """Pyramid vector dequantisation, length n"""
    off = T('mpvq')
    c, i = [], n - 1
    while i >= 0 and idx:
        ci = 0
        while idx < off[i][npulses - ci]:
            ci += 1
        idx -= off[i][npulses - ci]
        c.append(-ci if ls else ci)
        npulses -= ci
        if ci > 0:
            ls = idx & 1
            idx >>= 1
        i -= 1
    if len(c) < n:
        c.append(-npulses if ls else npulses)
    return (c + [0] * n)[:n]


def scale_factors(f):
    shape = f['shape']
    np_a = [10, 10, 8, 6][shape]
    n_a = 10 if shape < 2 else 16
    c = deenum(f['ia'], f['lsa'], np_a, n_a)
    if shape == 0:
        c = c + deenum(f['ib'], f['lsb_b'], 1, 6)
    c = np.array((c + [0] * 16)[:16], np.float64)
    c /= np.sqrt((c * c).sum())
    base = np.array(T('lfcb')[f['lf']] + T('hfcb')[f['hf']], np.float64)
    return base + T('vqg')[shape][f['gain']] * (dct16().T @ c)


def band_gains(dt, sr, f):
    """log2 of the shaping of each band (decoder side)"""
    s = scale_factors(f)
    o = np.zeros(64)
    o[0] = o[1] = s[0]
    for i in range(15):
        d = s[i + 1] - s[i]
        o[4 * i + 2:4 * i + 6] = s[i] + d * np.array([.125, .375, .625, .875])
    d = s[15] - s[14]
    o[62], o[63] = s[15] + .125 * d, s[15] + .375 * d
    nb = len(T('bands')[dt][sr]) - 1
    if nb < 32:
        n4 = 32 % nb
        n2 = nb - n4
        r = [o[4 * i:4 * i + 4].mean() for i in range(n4)]
        r += [o[2 * (n4 + i):2 * (n4 + i) + 2].mean() for i in range(n4, n4 + n2)]
        o = np.array(r)
    elif nb < 64:
        n2 = 64 - nb
        o = np.concatenate([o[:2 * n2].reshape(-1, 2).mean(1), o[2 * n2:]])
    return o


def shaping(dt, sr, f):
    """Linear gain of each coefficient applied by the decoder"""
    g = band_gains(dt, sr, f)
    lim = T('bands')[dt][sr]
    r = np.zeros(NE(dt, sr))
    for b in range(len(lim) - 1):
        r[lim[b]:lim[b + 1]] = 2. ** g[b]
    return r


def tns_rc(f):
    q = np.round(np.sin(np.pi / 17 * np.arange(9)) * 32768) / 32768
    return [[np.sign(v) * q[abs(v)] for v in c] for c in f['tns']]


def tns_ranges(dt, bw):
    nf = 2 if dt >= 1 and bw >= 3 else 1
    n = NE(dt, min(bw, 4)) // nf
    return [(3 * (1 + dt), n)] + ([(n, 2 * n)] if nf == 2 else [])


def tns_inverse(dt, bw, f, x, jitter=None):
    rcs = tns_rc(f)
    if jitter is not None:
        rcs = [[r * (1 + jitter[(8 * i + j) % 16]) for j, r in enumerate(rc)] for i, rc in enumerate(rcs)]
    x = x.copy()
    s = [0.] * 9
    for (i0, i1), rc in zip(tns_ranges(dt, bw), rcs):
        p = len(rc)
        if p == 0:
            continue
        for k in range(p, 9):
            s[k] = 0.
        for i in range(i0, i1):
            v = x[i] - rc[p - 1] * s[p - 1]
            for k in range(p - 2, -1, -1):
                v -= rc[k] * s[k]
                s[k + 1] = s[k] + rc[k] * v
            s[0] = v
            x[i] = v
    return x


def tns_forward(dt, bw, f, x):
    rcs = tns_rc(f)
    x = x.copy()
    s = [0.] * 8
    for (i0, i1), rc in zip(tns_ranges(dt, bw), rcs):
        for i in range(i0, i1) if rc else ():
            v = x[i]
            s1 = v
            for k, r in enumerate(rc):
                s0 = s[k]
                s[k] = s1
                s1 = r * v + s0
                v += r * s0
            x[i] = v
    return x


def residual(sr, q, res):
    """Coefficients refined by the residual bits"""
    x = np.array(q, np.float64)
    nz = [i for i, v in enumerate(q) if v]
    if not nz:
        return x
    for k, b in enumerate(res):
        i, it = nz[k % len(nz)], k // len(nz)
        if hr(sr):
            x[i] += (.25 if b else -.25) * .5 ** it
        else:
            pos = q[i] > 0
            x[i] += (5 / 16 if pos else 3 / 16) if b else -(3 / 16 if pos else 5 / 16)
    return x


def spectrum(dt, sr, n, d):
    """Spectrum denoted by a frame: (before TNS, final)"""
    f, q = d['f'], d['q']
    neF = NE(dt, sr)
    g = gain(sr, n, f['g'])
    x = np.zeros(neF)
    r = residual(sr, q, f['res'])
    x[:len(q)] = r * g
    nq = len(q)
    if nq > 2 or q[0] or q[1] or f['g'] > 0 or f['nf'] < 7:
        stop = NE(dt, min(f['bw'], 4))
        w = 1 + (dt >= 2) + (dt >= 3)
        amp = g * (8 - f['nf']) / 16
        seed, z = d['seed'], 0
        nz = np.zeros(stop + w, bool)
        m = min(nq, stop)
        nz[:m] = np.array(q[:m]) != 0
        for i in range(6 * (1 + dt) - w, stop + w):
            z = 0 if nz[i] else z + 1
            if z > 2 * w:
                seed = (13849 + seed * 31821) & 0xffff
                x[i - w] = -amp if seed & 0x8000 else amp
    y = tns_inverse(dt, f['bw'], f, x)
    sh = shaping(dt, sr, f)
    # what single precision may change: the temporal envelope is a recursion
    # that can amplify its own rounding
    err = np.zeros(neF)
    if any(len(t) for t in f['tns']):
        rng = np.random.default_rng(1)
        for _ in range(2):
            p = x * (1 + 2e-7 * rng.standard_normal(neF))
            err = np.maximum(err, np.abs(tns_inverse(dt, f['bw'], f, p, 1e-7 * rng.standard_normal(16)) - y))
    return x, y * sh, np.full(neF, err.max()) * sh if err.any() else err


def pitch_lag(p, sr):
    """Lag in quarters of a sample at rate sr"""
    v = (p - 283) * 4 if p >= 440 else (p // 2 - 63) * 4 + (p & 1) * 2 if p >= 380 else (p // 4 + 32) * 4 + (p & 3)
    return (v * NS(3, sr) + 64) // 128


def pitch_samples(p):
    """Lag of a pitch index, in samples at 12.8 kHz"""
    return p - 283 if p >= 440 else p // 2 - 63 + .5 * (p & 1) if p >= 380 else p / 4 + 32


class Synth:
    """Decoder side: the samples of a session, from the control stated by
    Decoder.tla for each frame and the spectra denoted by the good frames"""

    def __init__(self, dt, sr, srp):
        self.dt, self.sr, self.srp = dt, sr, srp
        n = NS(dt, srp)
        self.n, self.nd = n, ND(dt, srp)
        self.ola = np.zeros(self.nd)
        self.hist = np.zeros(4 * n + 4096)        # filtered past
        self.xprev = np.zeros(16)                 # unfiltered past
        self.scale, self.err1 = 1., 0.

    def imdct(self, X):
        n, nd = self.n, self.nd
        Xf = np.zeros(n)
        m = min(n, len(X))
        Xf[:m] = X[:m]
        t = cosm(n).T @ Xf * np.sqrt(n / NS(self.dt, self.sr))
        w = np.zeros(2 * n)
        w[n - nd:] = window(self.dt, self.srp)[::-1]
        z = t * w
        y = z[n - nd:2 * n - nd].copy()
        y[:nd] += self.ola
        before = np.abs(self.ola).max()
        self.ola = z[2 * n - nd:].copy()
        # magnitude the precision of the result is relative to
        self.scale = max(np.abs(y).max(), before, np.abs(self.ola).max(), np.abs(t).max())
        return y

    def step(self, c, spectra, errs):
        """c: control of the frame; spectra[k]: spectrum of good frame k (1..)"""
        a = .9 ** c['a9'] * .85 ** c['a85'] if c['c'] else 1.
        e = a * errs[c['src']].sum() * np.sqrt(2. / NS(self.dt, self.sr)) if c['src'] else 0.
        self.err, self.err1 = e + self.err1, e
        X = spectra[c['src']] if c['src'] else np.zeros(NE(self.dt, self.sr))
        if c['c']:
            seed, sg = c['seed'], np.empty(len(X))
            for i in range(len(sg)):
                seed = (16831 + seed * 12821) & 0xffff
                sg[i] = -1 if seed & 0x8000 else 1
            X = a * sg * X
        y = self.imdct(X)
        past = np.abs(self.hist[-4 * self.n:]).max() if c['kind'] != 'off' else 0.
        if not hr(self.sr):
            y = self.ltpf(y, c)
        self.hist = np.concatenate([self.hist[len(y):], y])
        # the attenuation is a product of as many roundings
        self.scale = max(self.scale, past, np.abs(y).max(), 1e-3 if not c['c'] else 1e-25) * (1 + .03 * (c['a9'] + c['a85']))
        return y

    def ltpf(self, x, c):
        sr = self.srp
        w = max(4, NS4[sr] >> 4)
        nt = self.n // (1 + self.dt)
        H = len(self.hist)
        kind, old, new = c['kind'], c['old'], c['new']

        def run(src, xp, p, lo, hi, g0, g1, y):
            """y[lo:hi]: filtered src; xp: past samples of src"""
            gl = .4 - .05 * p['gi']
            num = .85 * gl * np.array(T('cnum')[sr][min(p['gi'], 3)][:w])
            den = gl * np.array(T('cden')[sr][p['lag'] & 3][:w])
            L = p['lag'] // 4
            xx = np.concatenate([xp, src])
            X0 = len(xp)
            fir = np.convolve(xx, num)[X0:X0 + len(src)]
            for i in range(lo, hi):
                b = H + i - L + w // 2 - 1
                a = fir[i] - float(den @ y[b - w + 1:b + 1][::-1])
                g = g0 + (g1 - g0) * (i - lo) / (hi - lo)
                y[H + i] = src[i] - g * a

        y = np.concatenate([self.hist, x])
        xp = self.xprev
        if kind == 'in':
            run(x, xp, new, 0, nt, 0., 1., y)
        elif kind == 'out':
            run(x, xp, old, 0, nt, 1., 0., y)
        elif kind == 'keep':
            run(x, xp, new, 0, nt, 1., 1., y)
        elif kind == 'swap':
            run(x, xp, old, 0, nt, 1., 0., y)
            run(y[H:H + nt].copy(), self.hist[-16:].copy(), new, 0, nt, 0., 1., y)
        if new['on'] and self.n > nt:
            run(x, xp, new, nt, self.n, 1., 1., y)
        self.xprev = np.concatenate([xp, x])[-16:].copy()
        return y[H:]


class Analysis:
    """Encoder side: the transform of the input history"""

    def __init__(self, dt, sr, srp):
        self.dt, self.sr, self.srp = dt, sr, srp
        self.n, self.nd = NS(dt, srp), ND(dt, srp)
        self.past = np.zeros(self.nd)

    def step(self, x):
        """x: one frame of samples on the 16-bit scale -> spectrum at the codec rate"""
        n = self.n
        t = np.concatenate([self.past, x])
        self.past = t[len(t) - self.nd:].copy()
        b = np.zeros(2 * n)
        b[:n + self.nd] = t * window(self.dt, self.srp)
        X = cosm(n) @ b
        # magnitude the precision of the result is relative to
        self.peak = max(np.abs(X).max() * np.sqrt(NS(self.dt, self.sr) / n), np.abs(b).max(), 1e-9)
        return X[:NE(self.dt, self.sr)] * np.sqrt(NS(self.dt, self.sr) / n)
