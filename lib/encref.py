"""Numeric reference of the encoder, in double precision, for the quantities
the encoder specifications reason about: transform, band energies, targets of
the envelopes, pitch correlations. The decisions taken on these quantities are
those of the TLA+ modules; here are only the formulas of the standard."""
import numpy as np
import frames, ref
from lc3 import *
from ref import T, NS, NE


def to_xs(fmt, v):
    """Samples on the 16-bit scale, as single precision keeps them"""
    v = np.asarray(v)
    if fmt == S16:
        return v.astype(np.float64)
    if fmt in (S24, S24_3LE):
        return v.astype(np.float64) / 256
    return v.astype(np.float32).astype(np.float64) * 32768


def xt_of(fmt, v):
    v = np.asarray(v)
    if fmt == S16:
        return v.astype(np.int64)
    if fmt in (S24, S24_3LE):
        return v.astype(np.int64) >> 8
    return np.clip(np.trunc(v.astype(np.float32).astype(np.float64) * 32768), -32768, 32767).astype(np.int64)


# ---------------------------------------------------------------------------
#  Pitch analysis
# ---------------------------------------------------------------------------

_RS = {0: ('rs8', 8, 5), 1: ('rs16', 4, 5), 2: ('rs24', 8, 15), 3: ('rs32', 2, 5), 4: ('rs48', 4, 15), 5: ('rs48', 4, 15), 6: ('rs96', 2, 15)}
H4 = np.array([[6877, 19121, 6877, 0], [3506, 18025, 11000, 220], [1300, 15048, 15048, 1300], [220, 11000, 18025, 3506]])
H4C = np.array([
    [0, 1.53572770e-02, -4.72963246e-02, 8.35788573e-02, 8.98638285e-01, 8.35788573e-02, -4.72963246e-02, 1.53572770e-02, 0],
    [0, 2.74547165e-03, 4.59833449e-03, -7.54404636e-02, 8.17488686e-01, 3.30182571e-01, -1.05835916e-01, 2.86823405e-02, -2.87456116e-03],
    [0, -3.00125103e-03, 2.95038503e-02, -1.30305021e-01, 6.03297008e-01, 6.03297008e-01, -1.30305021e-01, 2.95038503e-02, -3.00125103e-03],
    [0, -2.87456116e-03, 2.86823405e-02, -1.05835916e-01, 3.30182571e-01, 8.17488686e-01, -7.54404636e-02, 4.59833449e-03, 2.74547165e-03]])


class PitchRef:
    """Correlations of the input at 12.8 and 6.4 kHz"""

    def __init__(self, dt, srp):
        self.dt, self.srp = dt, srp
        key, self.p, self.m = _RS[srp]
        self.h = np.array(T(key), np.int64).reshape(self.p if len(T(key)) % self.p == 0 else 1, -1)
        self.w = self.h.shape[1]
        self.past = np.zeros(self.w - 1, np.int64)
        self.s1 = self.s2 = 0
        self.x12 = np.zeros(384, np.int64)
        self.x6 = np.zeros(178, np.int64)
        self.wrapped = False

    def step(self, xt):
        dt, p, m, w = self.dt, self.p, self.m, self.w
        n = (1 + dt) * 32
        x = np.concatenate([self.past, xt])
        self.past = x[len(x) - (w - 1):].copy()
        k = m * np.arange(n)
        un = (x[(k // p)[:, None] + np.arange(w)[None, :]] * self.h[k % p]).sum(1)
        a1, a2, b1, b2 = -2110217691, 1037111617, -2110535566, 1055267782
        y = np.empty(n, np.int64)
        s1, s2 = self.s1, self.s2
        for i, u in enumerate(un.tolist()):
            yn = (s1 + u * b2) >> 30
            if not -2 ** 31 <= yn < 2 ** 31 - 32768:
                self.wrapped = True
            s1 = s2 + u * b1 - yn * a1
            s2 = u * b2 - yn * a2
            y[i] = (yn + 32768) >> 16
        self.s1, self.s2 = s1, s2
        self.x12 = np.concatenate([self.x12[n:], y])
        o12 = 384 - n - (44 if dt == 2 else 24)
        n6 = n // 2
        c = o12 - 1 + 2 * np.arange(n6)
        X = self.x12
        y6 = (X[c] * 18477 + (X[c - 1] + X[c + 1]) * 15424 + (X[c - 2] + X[c + 2]) * 8105) >> 16
        self.x6 = np.concatenate([self.x6[n6:], y6])
        o6 = 178 - n6
        if dt == 0:
            o12, n, o6, n6 = o12 - n, 2 * n, o6 - n6, 2 * n6
        return Correlations(X, o12, n, self.x6, o6, n6)


def _dot(a, b):
    return float((int((a * b).sum()) + 32) >> 6)


class Correlations:
    def __init__(self, x12, o12, n12, x6, o6, n6):
        self.x12, self.o12, self.n12 = x12.copy(), o12, n12
        cur = x6[o6:o6 + n6]
        lag = [x6[o6 - 17 - t:o6 - 17 - t + n6] for t in range(98)]
        self.r6 = np.array([_dot(cur, l) for l in lag])
        e0 = _dot(cur, cur)
        e = np.array([_dot(l, l) for l in lag])
        d = np.sqrt(e0 * e)
        self.n6 = np.where((self.r6 > 0) & (d > 0), self.r6 / np.where(d > 0, d, 1), 0)
        self.e6 = e0
        cur = x12[o12:o12 + n12]
        # lags 28..232
        self.r12 = np.array([_dot(cur, x12[o12 - l:o12 - l + n12]) for l in range(28, 233)])

    def corr_at(self, pitch4):
        """Interpolated correlation at a lag in quarters"""
        e, f = pitch4 >> 2, pitch4 & 3
        i = e - 28
        h = H4C[f]
        return sum(h[4 + k] * self.r12[i + k] for k in range(-4, 5) if h[4 + k] and 0 <= i + k < 205)

    def nc_at(self, pitch4):
        e, f = pitch4 >> 2, pitch4 & 3
        u = self._interp(self.o12, 0)
        v = self._interp(self.o12 - e, f)
        d = np.sqrt(_dot(u, u) * _dot(v, v))
        return _dot(u, v) / d if d > 0 else None

    def _interp(self, o, f):
        x, n = self.x12, self.n12
        i = o + np.arange(n)
        h = H4[f]
        # y[k] = x[k+1] h0 + x[k] h1 + x[k-1] h2 + x[k-2] h3
        return (x[i + 1] * h[0] + x[i] * h[1] + x[i - 1] * h[2] + x[i - 2] * h[3]) >> 15


def pitch4_of(idx):
    """Lag in quarters of a sample at 12.8 kHz of a pitch index"""
    return 4 * (idx - 283) if idx >= 440 else 4 * (idx // 2 - 63) + 2 * (idx & 1) if idx >= 380 else idx + 128


# ---------------------------------------------------------------------------
#  Spectral analysis
# ---------------------------------------------------------------------------

def energies(dt, sr, X):
    lim = T('bands')[dt][sr]
    return np.array([(X[a:b] ** 2).mean() for a, b in zip(lim, lim[1:])])


def nyquist_ratio(dt, sr, e):
    nb = len(e)
    h = nb - [2, 3, 4, 2][dt]
    return e[h:].sum(), e[:h].sum()


TILT = [14, 18, 22, 26, 30, 30, 34]


def sns_target(dt, sr, n, eb, att):
    """The 16 scale factors to be quantised"""
    nb = len(eb)
    if nb < 32:
        n4 = 32 % nb
        e = np.concatenate([np.repeat(eb[:n4], 4), np.repeat(eb[n4:], 2)])
    else:
        n2 = 64 - nb
        e = np.concatenate([np.repeat(eb[:n2], 2), eb[n2:]])
    p = np.concatenate([e[:1], e, e[-1:]])
    e = .25 * p[:-2] + .5 * p[1:-1] + .25 * p[2:]
    e = e * 10. ** (np.arange(64) * TILT[sr] / 630.)
    e = np.log2(np.maximum(e, max(e.mean() * 1e-4, 2. ** -32))) / 2
    w = np.array([1, 2, 3, 3, 2, 1]) / 12.
    p = np.concatenate([e[:1], e, e[-1:]])
    s = np.array([(w * p[4 * b:4 * b + 6]).sum() for b in range(16)])
    cf = .6 if hr(sr) else .85
    if hr(sr) and 8 * n > (1150 * (1 + dt) if dt < 3 else 4400):
        cf *= .25 if dt < 3 else .35
    s = cf * (s - s.mean())
    if att:
        t = np.array([s[max(0, i - 2):i + 3].mean() for i in range(16)])
        s = (.3 if dt == 2 else .5) * (t - t.mean())
    return s


def sns_pulses(x):
    """The four pulse configurations searched on the residual x"""
    xm = np.abs(x)
    c3 = np.floor(xm * 5 / max(xm.sum(), 1e-31)).astype(int)

    def add(y, sl, k, corr, en):
        for _ in range(k):
            c2 = (corr + xm[sl]) ** 2
            e = en + 2 * y[sl] + 1
            i = int(np.argmax(c2 / e))
            corr += xm[sl][i]
            en += 2 * y[sl][i] + 1
            y[sl.start + i] += 1
        return corr, en
    corr, en = float((c3 * xm).sum()), float((c3 * c3).sum())
    corr, en = add(c3, slice(0, 16), 6 - c3.sum(), corr, en)
    c2 = c3.copy()
    corr, en = add(c2, slice(0, 16), 2, corr, en)
    c1 = c2.copy()
    corr -= (c1[10:] * xm[10:]).sum()
    en -= (c1[10:] ** 2).sum()
    c1[10:] = 0
    corr, en = add(c1, slice(0, 10), 10 - c1.sum(), corr, en)
    c0 = c1.copy()
    add(c0, slice(10, 16), 1, corr, en)
    return [np.where(x < 0, -c, c) for c in (c0, c1, c2, c3)]


def sns_choice(s):
    """Distances of the target to the code books"""
    lf = ((s[:8] - np.array(T('lfcb'))) ** 2).sum(1)
    hf = ((s[8:] - np.array(T('hfcb'))) ** 2).sum(1)
    return lf, hf


def sns_stage2(s, lf, hf, f):
    """Error of the best combination, and of the one transmitted"""
    base = np.array(T('lfcb')[lf] + T('hfcb')[hf], np.float64)
    x = ref.dct16() @ (s - base)
    best = []
    for shape, c in enumerate(sns_pulses(x)):
        cn = c / np.sqrt((c * c).sum())
        best += [(((x - g * cn) ** 2).sum(), shape, gi) for gi, g in enumerate(T('vqg')[shape])]
    own = ((s - ref.scale_factors(f)) ** 2).sum()
    return best, own


TNS_SUB = {
    0: [[3, 10, 20], [3, 20, 40], [3, 30, 60], [3, 40, 80], [3, 51, 100]],
    1: [[6, 23, 40], [6, 43, 80], [6, 63, 120], [6, 43, 80, 120, 160], [6, 53, 100, 150, 200]],
    2: [[9, 26, 43, 60], [9, 46, 83, 120], [9, 66, 123, 180], [9, 46, 82, 120, 159, 200, 240], [9, 56, 103, 150, 200, 250, 300]],
    3: [[12, 34, 57, 80], [12, 61, 110, 160], [12, 88, 164, 240], [12, 61, 110, 160, 213, 266, 320], [12, 74, 137, 200, 266, 333, 400]]}
LAGW = np.array([1, 9.98028026e-01, 9.92135406e-01, 9.82391584e-01, 9.68910791e-01, 9.51849807e-01, 9.31404933e-01, 9.07808230e-01, 8.81323137e-01])


def tns_corr(dt, bw, x, tol):
    """Per filter: (autocorrelation, error on it), None when nothing is known"""
    mo = 4 if dt <= 1 else 8
    nf = 2 if dt >= 1 and bw >= 3 else 1
    nsub = 3 if dt >= 2 else 2
    sub = TNS_SUB[dt][min(bw, 4)]
    out = []
    for f in range(nf):
        r, d = np.zeros(mo + 1), np.zeros(mo + 1)
        r[0] = nsub
        for s in range(nsub):
            v, t = (u[sub[f * nsub + s]:sub[f * nsub + s + 1]] for u in (x, tol))
            e = (v * v).sum()
            # deviations of the samples, taken as independent, at 6 sigma
            q = np.sqrt((t * t).sum() / max(e, 1e-60))
            if q > .1 or e < 1e-18:
                r = None
                break
            for k in range(1, mo + 1):
                c = (v[:len(v) - k] * v[k:]).sum() / e
                r[k] += c
                w = np.zeros(len(v))
                w[:-k] += v[k:]
                w[k:] += v[:-k]
                w -= 2 * c * v
                d[k] += np.sqrt(((w * t) ** 2).sum()) / e + q * q
        if r is None:
            out.append(None)
            continue
        out.append((r * LAGW[:mo + 1], d * LAGW[:mo + 1] + 2e-7 * nsub))
    return out


def levinson(r):
    a, err = np.zeros(len(r)), r[0]
    a[0] = 1
    for k in range(1, len(r)):
        rc = -(r[k] + (a[1:k] * r[k - 1:0:-1]).sum()) / err
        err *= 1 - rc * rc
        b = a.copy()
        b[1:k] = a[1:k] + rc * a[k - 1:0:-1]
        b[k] = rc
        a = b
    return r[0] / err, a


def reflection(a):
    mo = len(a) - 1
    rc, b = np.zeros(mo), a[1:].copy()
    for k in range(mo - 1, -1, -1):
        rc[k] = b[k]
        b = (b[:k] - rc[k] * b[:k][::-1]) / (1 - rc[k] ** 2)
    return rc


def tns_measures(r):
    """Prediction gain, reflection coefficients without and with weighting"""
    g, a = levinson(r)
    w = a * (1 - .15 * (2 - min(g, 2)) / .5) ** np.arange(len(a))
    return np.concatenate([[g], reflection(a), reflection(w)])


def tns_intervals(r, d):
    """The same, with the first order effect of errors d of the autocorrelation"""
    m = tns_measures(r)
    e = np.zeros(len(m))
    for k in range(1, len(r)):
        for sg in (-1, 1):
            p = r.copy()
            p[k] += sg * d[k]
            if levinson(p)[0] < 0:
                return None
            e += np.abs(tns_measures(p) - m) * .75
    e = e * 1.5 + 2e-5
    return None if not np.isfinite(e).all() or e[1:].max() > .2 else (m - e, m + e)


class EncRef:
    """Follows an encoder session"""

    def __init__(self, dt, sr, srp):
        self.dt, self.sr, self.srp = dt, sr, srp
        self.an = ref.Analysis(dt, sr, srp)
        self.pitch = PitchRef(dt, srp)
        self.past = np.zeros(16, np.int64)

    def step(self, fmt, v):
        xs, xt = to_xs(fmt, v), xt_of(fmt, v)
        a = dict(xt=np.concatenate([self.past[-6:], xt]))
        self.past = np.concatenate([self.past, xt])[-16:]
        a['X'] = self.an.step(xs)
        a['peak'] = self.an.peak
        a['e'] = energies(self.dt, self.sr, a['X'])
        a['nn'] = nyquist_ratio(self.dt, self.sr, a['e'])
        a['corr'] = self.pitch.step(xt)
        return a


def shaped(dt, sr, f, X):
    """Spectrum after the transmitted spectral envelope is taken off"""
    return X / ref.shaping(dt, sr, f)


def normalised(dt, sr, n, f, X):
    """In units of the quantiser, the transmitted envelopes and gain undone"""
    y = ref.tns_forward(dt, f['bw'], f, shaped(dt, sr, f, X))
    return y / ref.gain(sr, n, f['g'])


# ---------------------------------------------------------------------------
#  Rate loop
# ---------------------------------------------------------------------------

def frame_budget(dt, sr, n, f):
    """Bits left for the spectrum by the other fields"""
    ne_ = NE(dt, sr)
    nq = 4 + sum(ne_ > l for l in (32, 64, 128, 256, 512))
    b = 8 * n - (nq + 3 + int(hr(sr)) + min((n - 1) // 160, 2))
    b -= 0 if hr(sr) else int(sr > 0) + int(sr > 1) + int(sr > 3)
    b -= 1 + 10 * f['pitchp'] + 38 + 8 + 3
    w = int(n * 8 < 120 * (1 + dt))
    for rc in f['tns']:
        t = 2048
        if rc:
            t += T('tnsorderbits')[w][len(rc) - 1] + sum(T('tnscoefbits')[i][8 + v] for i, v in enumerate(rc))
        b -= (t + 2047) >> 11
    return b


def db(e):
    return 10 * np.log10(e)


def energy4(dt, sr, n, y):
    """Energies in dB of the groups of four coefficients, and the peak"""
    x2 = (y.reshape(-1, 4) ** 2).sum(1)
    peak = np.abs(y).max()
    nf = 0.
    if hr(sr):
        c = {0: (-6, -6), 1: (0, 0), 3: (2, 5)}[dt][sr - 5]
        reg = min(max(8 * n * 4 // (125 * (1 + dt)) + c, 6), 23)
        m0 = 1e-5 + np.abs(y).sum()
        m1 = 1e-5 + (np.abs(y) * np.arange(len(y))).sum()
        m = 1.6 * m0 / ((1 + dt) * m1)
        low = 8 - min(np.floor(m + .5), 8)
        nf = peak * 2. ** -reg * 2. ** -low
    return db(np.maximum(x2 + nf, 1e-10)), peak


def gain_search(E, nbits, g_off):
    """Gain estimated from the energies"""
    g = 255 - g_off
    for i in (128, 64, 32, 16, 8, 4, 2, 1):
        gn = (g - i) * 20 / 28.
        j = np.where(E >= gn)[0]
        v = 0.
        if len(j):
            d = E[:j[-1] + 1] - gn
            v = np.where(d < 0, 2.7, np.where(d < 43, d + 7, 2 * d - 36)).sum()
        if v <= nbits * 1.4:
            g -= i
    return g


def gain_min(sr, peak, g_off):
    lim = 32767 * (256 if hr(sr) else 1)
    g = 255 - g_off
    for i in (128, 64, 32, 16, 8, 4, 2, 1):
        if lim * 10 ** ((g - i) / 28) > peak:
            g -= i
    return g


def spectrum_bits(dt, sr, n, a, budget=None):
    """Bits counted for the quantised magnitudes a (even length).
    -> (bits, last significant, LSB mode)"""
    ind = 4 + sr - 5 if hr(sr) else sr
    lsb_ok = n >= 20 * (3 + ind) and sr < 6
    high = n > 20 * (1 + ind) and sr < 6
    nE = NE(dt, sr)
    bits, lut3, lk = 0, T('specbits'), T('lookup')
    nl = nend = bend = 0
    st = 0
    lim = budget * 2048 if budget is not None else 1 << 60
    for i in range(0, len(a), 2):
        if bits > lim:
            break
        u, v = int(a[i]), int(a[i + 1])
        lut = lk[2 * high + (0 if i < (nE + 2) // 2 else 1)][st]
        s = (u != 0) + (v != 0)
        bits += s * 2048
        m, k = (u | v) >> 2, 0
        if m:
            if lsb_ok:
                bits += lut3[lut[k]][16] - 2 * 2048
                k += 1
                nl += 2 + (u == 1) + (v == 1)
                m >>= 1
            while m:
                bits += lut3[lut[min(k, 3)]][16]
                m >>= 1
                k += 1
            bits += k * 2 * 2048
            u >>= k
            v >>= k
            k = min(k, 3)
        bits += lut3[lut[k]][u + 4 * v]
        if s and bits <= lim:
            nend, bend = i + 2, bits
        st = ((st << 4) + (12 + k if k > 1 else 1 + (u + v) * (k + 1))) & 255
    lsb = lsb_ok and bend + nl * 2048 > lim
    if budget is None:
        bend += nl * 2048
    return (bend + 2047) // 2048, nend, lsb


ADJ = [(80, 500, 850), (230, 1025, 1700), (380, 1550, 2550), (530, 2075, 3400), (680, 2600, 4250), (680, 2600, 4250), (830, 3125, 5100)]


def gain_adjust(dt, sr, g_idx, nbits, budget, g_min):
    t = ADJ[sr]
    den = 48
    if nbits < t[0]:
        delta = 3 * (nbits + 48)
    elif nbits < t[1]:
        n0, rg = 3 * (t[0] + 48), t[1] - t[0]
        delta = n0 * rg + (nbits - t[0]) * (t[1] - n0)
        den *= rg
    else:
        delta = min(nbits, t[2])
    delta = (delta + den // 2) // den
    if hr(sr):
        if nbits <= budget:
            return 0
        fac = 1 + (dt <= 1) + (dt <= 0) * (1 + (nbits >= 520))
        return min(g_idx + fac + (fac * (nbits - budget)) // delta, 255) - g_idx
    if nbits < budget - (delta + 2):
        return -(g_idx > g_min)
    if nbits > budget:
        return (g_idx < 255) + (g_idx < 254 and nbits >= budget + delta)
    return 0
