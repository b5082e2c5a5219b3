"""C15: pitch and postfilter signalling (Pitch.tla)"""
import numpy as np
import vc, encoder, signals
from encoder import *


def vowel(n, hz, rng, f0=None, noise=None):
    """Pulses through a resonance, pitch constant, gliding or jumping, with
    noise that makes the correlation cross the thresholds"""
    r = np.random.default_rng(rng.getrandbits(32))
    f = f0 or rng.uniform(58, 390)
    t = np.arange(n) / hz
    m = rng.random()
    if f0:
        fr = np.full(n, f)
    elif m < .4:
        fr = f * (1 + rng.uniform(0, .08) * np.sin(2 * np.pi * rng.uniform(.5, 4) * t))
    elif m < .7:
        fr = f * 2. ** np.linspace(0, rng.uniform(-1, 1), n)
    else:
        fr = np.repeat([rng.uniform(58, 390) for _ in range(1 + n // int(.04 * hz))], int(.04 * hz))[:n]
    ph = np.cumsum(fr) / hz
    d = np.diff(np.floor(ph), prepend=0)
    x = np.zeros(n)
    i = np.where(d > 0)[0]
    # band-limited position of the pulses
    for j in i:
        fpos = (ph[j] - np.floor(ph[j])) / (fr[j] / hz)
        x[j] += 1 - fpos
        if j > 0:
            x[j - 1] += fpos
    h = np.exp(-np.arange(300) * 48000 / hz / rng.uniform(10, 120)) * np.cos(np.arange(300) * 2 * np.pi * rng.uniform(200, 2500) / hz)
    x = np.convolve(x, h)[:n]
    x /= np.abs(x).max() + 1e-9
    lv = rng.uniform(-3, -.3) if noise is None else noise
    env = 1 + (rng.random() < .5) * .8 * np.sin(2 * np.pi * rng.uniform(2, 15) * t)
    return x * 10 ** rng.uniform(-2, -.2) * env / 1.8 + r.standard_normal(n) * 10 ** (lv - 1)


def nyquist(n, hz, rng):
    """Periodic, and at times most of the energy at the top of the band"""
    t = np.arange(n)
    x = vowel(n, hz, rng, noise=-4) * .3
    x = x - .3 * np.roll(x, 1)
    on = np.repeat([rng.random() < .5 for _ in range(1 + n // int(.02 * hz))], int(.02 * hz))[:n]
    return x * np.where(on, rng.choice([.05, .3]), 1) + .5 * on * np.cos(np.pi * t * rng.uniform(.94, .995)) * rng.choice([.2, 1, 1.6])


def kept(n, hz, dt, rng):
    """A pitch that is activated, then kept on at correlations that would not
    activate it, through frames dominated by the top of the band"""
    t = np.arange(n) / hz
    r = np.random.default_rng(rng.getrandbits(32))
    f0 = rng.uniform(75, 360)
    top = .8 * min(hz / 2, 4500)
    x = sum(np.cos(2 * np.pi * f0 * j * t + rng.uniform(0, 6)) for j in range(1, 60) if j * f0 < top)
    x /= x.std()
    u = rng.uniform(.90, .945)
    e = r.standard_normal(n)
    # noise of the band of the correlations
    E = np.fft.rfft(e)
    E[np.fft.rfftfreq(n, 1 / hz) > 5000] = 0
    e = np.fft.irfft(E, n)
    e *= np.sqrt(1 / u - 1) / e.std()
    n0 = int(hz * .01 * (5 if dt == 3 else 7))
    e[:n0] *= .1
    x = .01 * (x + e)
    f = int(hz * DT_US[dt] * 1e-6)
    for k in range(n0 // f + 1, n // f - 1):
        if rng.random() < .3:
            w = np.hanning(2 * f)
            x[(k - 1) * f:(k + 1) * f] += .4 * w * np.cos(np.pi * np.arange(2 * f) * rng.uniform(.97, .99))
    return x


def edges(n, hz, f, rng):
    """Periods where the resolution of the lag changes, and its ends, a new one
    every few frames"""
    e = np.repeat([rng.choice([32, 33, 126, 127, 128, 155, 156, 157, 158, 226, 227, 228]) + rng.choice([-.75, -.5, -.25, 0, .25, .5, .75])
                   for _ in range(1 + n // (6 * f))], 6 * f)[:n]
    ph = 2 * np.pi * np.cumsum(12800 / np.maximum(e, 32)) / hz
    x = sum(np.cos(ph * j + rng.uniform(0, 6)) / j ** .5 for j in range(1, 33))
    r = np.random.default_rng(rng.getrandbits(32))
    return x / np.abs(x).max() * .5 + r.standard_normal(n) * 1e-3


def mixed(n, hz, rng, noise):
    """Runs of frames with and without a pitch, around the thresholds"""
    x = vowel(n, hz, rng, noise=-4)
    r = np.random.default_rng(rng.getrandbits(32))
    seg = int(.01 * hz * rng.choice([1, 2, 3]))
    g = np.repeat([10 ** rng.choice([-4, -2, rng.uniform(-2, 0)]) for _ in range(1 + n // seg)], seg)[:n]
    return x + noise * r.standard_normal(n) * g


def frame(s, k, off, free):
    d, a, h = s['den'][k], s['a'][k], hr(s['sr'])
    f, C = d['f'], a['corr']
    p4 = encref.pitch4_of(f['pitch']) if f['pitchp'] else 0
    ny = near_nyquist(s, k)
    o = dict(present=f['pitchp'], active=f['ltpf'], pitch=p4, off=off, free=free, ny=ny, want=[], ncp=0)
    if off or free:
        return o
    rel = lambda v, m: np.round(v * (2 ** 28 / m) if m else v * 0).astype(np.int64).tolist()
    rw = C.r6 * (1 - .5 / 97 * np.arange(98))
    m = np.abs(C.r6).max()
    nc = np.round(np.minimum(C.n6, 4) * 65536).astype(np.int64)
    # energies that vanish in the rounding of the sums
    nc[(C.n6 == 0) & (C.r6 > 0)] = -1
    o.update(rw=rel(rw, np.abs(rw).max()), r=rel(C.r6, m), nc=nc.tolist(), r12=[], rq=[], ncp=0)
    if f['pitchp']:
        r12 = C.r12[4:201]
        m = np.abs(C.r12).max()
        v = C.nc_at(p4)
        o.update(r12=rel(r12, m), rq=rel(np.array([C.corr_at(p) for p in range(125, 628)]), m), ncp=-1 if v is None else max(int(round(v * 65536)), 0))
    return o


def run(c):
    lib, rng = Lib(), c.rng
    K = 8 if vc.THOROUGH else 1
    ss = []
    def add(kind, x, dt, sr, sp, nf, **k):
        fmt = rng.choice([S16, S16, S24, FLOAT])
        if rng.random() < .1:
            x = x * 10 ** rng.uniform(0, .5) / max(np.abs(x).max(), 1e-9)
        x = np.clip(x, -1, 1)
        pcm = signals.s16(x) if fmt == S16 else signals.s24(x) if fmt == S24 else x.astype(np.float32)
        s = session(dt, sr, rng, srp=sp, kind=kind, nframes=nf, fmt=fmt, gain=1, pcm=pcm, disable=k.get('disable'), sizes=k.get('sizes'))
        s['want'] = k.get('want')
        ss.append(s)
    for dt, sr in CONFIGS:
        for i in range((8 if not hr(sr) else 4) * K):
            sp = sr if i % 3 else rng.choice(pcm_rates(sr))
            nf = {0: 40, 1: 24, 2: 18, 3: 16}[dt]
            n = ns(dt, sp) * nf
            hz = SR_HZ[sp]
            m = i % 8
            if m < 3:
                add('vowel', vowel(n, hz, rng), dt, sr, sp, nf)
            elif m < 5:
                add('mixed', mixed(n, hz, rng, 10 ** rng.uniform(-2, -.5)), dt, sr, sp, nf)
            elif m == 5:
                add('nyquist', nyquist(n, hz, rng), dt, sr, sp, nf)
            elif m == 6:
                add('disabled', vowel(n, hz, rng, noise=-4), dt, sr, sp, nf, disable=rng.randrange(nf))
            else:
                kind = rng.choice(signals.KINDS)
                add(kind, signals.make(kind, n, hz, rng), dt, sr, sp, nf)
        for i in range(4 * K if not hr(sr) else 0):
            nf = {0: 48, 1: 30, 2: 22, 3: 18}[dt]
            add('kept', kept(ns(dt, sr) * nf, SR_HZ[sr], dt, rng), dt, sr, sr, nf)
        for i in range(2 * K if not hr(sr) else 0):
            nf = {0: 96, 1: 66, 2: 48, 3: 42}[dt]
            add('edges', edges(ns(dt, sr) * nf, SR_HZ[sr], ns(dt, sr), rng), dt, sr, sr, nf)
        # a period that is kept
        f0 = rng.uniform(12800 / 220, 12800 / 36)
        nf = {0: 40, 1: 20, 2: 14, 3: 12}[dt]
        n = ns(dt, sr) * nf
        t = np.arange(n) / SR_HZ[sr]
        x = sum(np.cos(2 * np.pi * f0 * j * t + rng.uniform(0, 6)) / j ** rng.uniform(0, 1) for j in range(1, 40) if j * f0 < 3000)
        add('periodic', x / np.abs(x).max() * 10 ** rng.uniform(-1.5, -.2), dt, sr, sr, nf, want=4 * 12800 / f0)
        add('silence', signals.make('silence', n, SR_HZ[sr], rng), dt, sr, sr, nf)
    play(lib, ss, False)
    denote(c, ss)
    analyse(ss)
    c.log(sum(len(s['b']) for s in ss), 'frames encoded and analysed')
    jobs = []
    for s in ss:
        if any(not d or not d['ok'] for d in s['den']):
            k = [not d or not d['ok'] for d in s['den']].index(True)
            c.violation(f"the frame cannot be decoded ({where(s, k)})", dict(session=brief(s, k)))
            return
    global _SS
    _SS = ss
    with pool() as ex:
        recs = list(ex.map(_record, range(len(ss)), chunksize=4))
    c.log('correlations')
    report(c, ss, validate(c, 'Pitch', recs), 'postfilter signalling')
    cov = {}
    def hit(x, v=1):
        cov[x] = cov.get(x, 0) + int(v)
    for r in recs:
        p = None
        for f in r['fr']:
            hit('frames')
            hit('with_a_pitch', f['present'])
            hit('active', f['active'])
            hit('near_nyquist', f['ny'] == 1)
            hit('near_nyquist_with_a_pitch', f['ny'] == 1 and f['present'])
            hit('active_after_near_nyquist_below_activation', bool(p) and p['ny'] == 1 and f['active'] and 0 < f.get('ncp', 0) <= 61603)
            hit('disabled', f['off'])
            hit('lag_at_126_to_128', f['present'] and 503 <= f['pitch'] <= 515)
            hit('lag_at_155_to_158', f['present'] and 619 <= f['pitch'] <= 635)
            hit('lag_at_the_ends', f['present'] and (f['pitch'] <= 136 or f['pitch'] >= 904))
            hit('not_followed', f['free'])
            if p:
                hit('activations', f['active'] and not p['active'])
                hit('deactivations', p['active'] and not f['active'])
                hit('kept_on_by_lag', p['active'] and f['active'] and 0 < f.get('ncp', 0) <= 58982)
            p = f
    c.cov['features'] = cov
    s = ss[0]
    c.sample(dict(dt=s['dt'], sr=s['sr'], kind=s['kind'], signalled=[[f['present'], f['active'], f['pitch'], f.get('ncp')] for f in recs[0]['fr']]))


def _record(i):
    s = _SS[i]
    fr, free = [], False
    for k in range(len(s['b'])):
        free = free or bool(s['a'][k]['wrapped'])
        off = s['disable'] is not None and k >= s['disable']
        fr.append(frame(s, k, off, free))
    if s['want'] and not fr[-1]['free'] and 128 <= s['want'] <= 880:
        fr[-1]['want'] = [int(round(64 * s['want'])), 4]
    return dict(dt=s['dt'], hr=hr(s['sr']), fr=fr)
