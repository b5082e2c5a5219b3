"""C25: the gain of encoded frames, over whole sessions (Rate.tla)"""
import numpy as np
import vc, encoder, encref, ref, signals
from encoder import *

EMPTY = -1000000


def energies(dt, sr, n, y, tol):
    """Energies of the groups at least and at most, in 1/1024 dB; peak too"""
    lo, hi = np.maximum(np.abs(y) - tol, 0), np.abs(y) + tol
    el, eh = (lo.reshape(-1, 4) ** 2).sum(1), (hi.reshape(-1, 4) ** 2).sum(1)
    pl, ph = lo.max(), hi.max()
    nl = nh = 0.
    if hr(sr):
        # adaptive noise floor
        c = {0: (-6, -6), 1: (0, 0), 3: (2, 5)}[dt][sr - 5]
        reg = min(max(8 * n * 4 // (125 * (1 + dt)) + c, 6), 23)
        i = np.arange(len(y))
        def m(a, b):
            return 1.6 * (1e-5 + a.sum()) / ((1 + dt) * (1e-5 + (b * i).sum()))
        # errors are smaller in the mean
        l, h = np.maximum(np.abs(y) - tol / 4, 0), np.abs(y) + tol / 4
        ml, mh = m(l, h) * (1 - 1e-5), m(h, l) * (1 + 1e-5)
        low = lambda v: 8 - min(np.floor(v + .5), 8)
        nl, nh = pl * 2. ** -(reg + low(ml)), ph * 2. ** -(reg + low(mh))
    db = lambda v: 10240 * np.log10(np.maximum(v, 1e-10))
    peak = lambda v: int(20480 * np.log10(v)) if v > 1e-20 else -400000
    # 1/1024 dB: the logarithm of the encoder, and rounding here and in Rate.tla
    return (np.floor(db(el + nl)).astype(int) - 3).tolist(), (np.ceil(db(eh + nh)).astype(int) + 2).tolist(), peak(pl) - 2, peak(ph) + 2


def _record(a):
    s, k = a
    d = s['den'][k]
    r = spectrum(s, k)
    if r is None:
        return None
    (y, tol), f, dt, sr, n = r, d['f'], s['dt'], s['sr'], s['sizes'][k]
    o = dict(n=n, g=f['g'], pitchp=f['pitchp'], tns=f['tns'])
    if not s['a'][k]['peak']:
        y, tol = np.zeros(len(y)), np.zeros(len(y))
    o['el'], o['eh'], o['pl'], o['ph'] = energies(dt, sr, n, y, tol)
    if not y.any():
        o['pl'] = o['ph'] = EMPTY
    off = ref.gain_offset(sr, n)
    bud = encref.frame_budget(dt, sr, n, f)
    lo = encref.gain_search(np.array(o['el']) / 1024, bud + 42, off) - 1
    hi = encref.gain_search(np.array(o['eh']) / 1024, bud - 42, off) + 1
    gl, gh = (encref.gain_min(sr, 10. ** (o[v] / 20480), off) for v in ('pl', 'ph'))
    lo, hi = max(lo, gl - 1), max(hi, gh + 1)
    g = f['g'] - off
    cand = [v for v in range(lo, hi + 1) if v <= g] if hr(sr) else [v for v in range(lo, hi + 1) if g - 2 <= v <= g + 1]
    if o['ph'] == EMPTY:
        cand = [-off]
    o['m'] = []
    for v in cand:
        a, b = magnitudes(y, tol, 10. ** (v / 28), hr(sr))
        nz = np.flatnonzero(b)
        e = (int(nz[-1]) + 2) // 2 * 2 if len(nz) else 0
        a, b = np.minimum(a[:e], 1 << 24), np.minimum(b[:e], 1 << 24)
        w = b - a
        # magnitudes that may count differently
        q = np.where(b <= 16, 0, np.ceil(np.log2(np.maximum(b + 1, 16))).astype(int) - 3)
        if ((w > 8) & (w > a >> 3)).any() or ((a >> q) != (b >> q)).sum() > 24:
            o['m'].append(dict(g=v, lo=[], hi=[], wide=1))
            continue
        o['m'].append(dict(g=v, wide=0, lo=a.tolist(), hi=[] if (a == b).all() else b.tolist()))
    return o


def record(s):
    fr = []
    for k in range(len(s['b'])):
        r = _record((s, k))
        if r is None:
            break
        fr.append(r)
    return dict(dt=s['dt'], sr=s['sr'], fr=fr)


def run(c):
    lib, rng = Lib(), c.rng
    K = 10 if vc.THOROUGH else 1
    ss = []
    for dt, sr in CONFIGS:
        for i in range(16 * K):
            nf = rng.choice([10, 14, 20])
            lo, hi = min_bytes(dt, sr), max_bytes(dt, sr)
            sz = frames.rand_size(dt, sr, rng)
            sizes = [sz] * nf if i % 3 else [rng.choice([lo, hi, sz]) for _ in range(nf)] if i % 2 else None
            ss.append(session(dt, sr, rng, kind=signals.KINDS[(3 * i + dt + sr + rng.randrange(3)) % len(signals.KINDS)], nframes=nf, sizes=sizes,
                              disable=rng.randrange(nf) if rng.random() < .2 else None, gain=rng.choice([1, 1, 1, .1, .003])))
    # noise floor of the high-resolution mode: quiet, peaked spectra and rates that reach it
    for dt, sr in CONFIGS:
        for i in range(36 * K if hr(sr) else 0):
            lo, hi = min_bytes(dt, sr), max_bytes(dt, sr)
            ss.append(session(dt, sr, rng, srp=sr, fmt=FLOAT, kind=['tone', 'lowband', 'square', 'tones', 'dc', 'sweep'][i % 6], nframes=8,
                              sizes=[rng.choice([lo, hi, hi, (lo + hi) // 2, rng.randint(lo, hi)])] * 8, gain=10. ** -(i // 6 + rng.random() * 1.5)))
    play(lib, ss, False)
    denote(c, ss)
    analyse(ss)
    c.log(sum(len(s['b']) for s in ss), 'frames encoded and analysed')
    with pool() as ex:
        recs = list(ex.map(record, ss, chunksize=2))
    c.log('energies')
    judge(c, ss, recs)


def judge(c, ss, recs):
    xs = validate(c, 'Rate', recs)
    if any(x['why'] == 'no data' for x in xs):
        raise RuntimeError(f"no data: {next(x for x in xs if x['why'] == 'no data')}")
    c.log('gains validated')
    report(c, ss, [x for x in xs if x['why']], 'gain index')
    cov = {}
    for x in xs:
        i = x['info']
        if x['why']:
            continue
        keys = ['frames', 'decided' if i['n'] == 1 and len(i['adj']) == 1 else 'several']
        if i['reset']:
            keys.append('by_range')
        if len(i['adj']) == 1:
            keys.append(f"adjusted_{min(i['adj'][0], 3):+d}")
        for kk in keys:
            cov[kk] = cov.get(kk, 0) + 1
    c.cov['gains'] = cov
    s = ss[len(ss) // 2]
    c.sample(dict(dt=s['dt'], sr=s['sr'], kind=s['kind'], sizes=s['sizes'], gains=[f['g'] for f in recs[len(ss) // 2]['fr']]))
