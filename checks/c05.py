"""C05: encoded frames. FrameSyntax.tla parses each of them whole; Quantiser.tla
decides the coefficients they must hold."""
import numpy as np
import vc, encoder, signals
from encoder import *


def run(c):
    lib, rng = Lib(), c.rng
    K = 8 if vc.THOROUGH else 1
    ss = []
    for dt, sr in CONFIGS:
        for i in range(14 * K):
            kind = signals.KINDS[(i * 5 + dt + sr) % len(signals.KINDS)]
            nf = 8
            fmt = rng.choice([S16, S16, S24, FLOAT])
            lo, hi = min_bytes(dt, sr), max_bytes(dt, sr)
            m = i % 7
            sizes = [lo] * nf if m == 0 else [hi] * nf if m == 1 else [rng.choice([lo, lo + 1, hi]) for _ in range(nf)] if m == 2 else \
                [rng.randint(lo, min(hi, lo + 30)) for _ in range(nf)] if m == 3 else None
            ss.append(session(dt, sr, rng, kind=kind, nframes=nf, fmt=fmt, sizes=sizes, gain=rng.choice([1, 1, 1, .05, .001]),
                              disable=rng.randrange(nf) if rng.random() < .1 else None))
        # full scale, from one frame to the next
        for i in range(6 * K):
            nf, srp = 6, rng.choice(pcm_rates(sr))
            n = ns(dt, srp)
            t = np.arange(nf * n)
            w = rng.random() * .5 * 10 ** -rng.randrange(0, 3)
            x = np.sin(2 * np.pi * (w * t + rng.random()))
            x = np.sign(x + 1e-9) if i % 2 else x
            for k in range(nf):
                if rng.random() < .3:
                    x[k * n:(k + 1) * n] *= rng.choice([0, 1e-4, -1])
            ss.append(session(dt, sr, rng, srp=srp, kind='full scale', nframes=nf, fmt=FLOAT, gain=1, pcm=x.astype(np.float32)))
    play(lib, ss)
    recs, own = [], []
    for s in ss:
        d = lib.decoder(s['dt'], s['sr'], s['srp'])
        for k, b in enumerate(s['b']):
            if s['r'][k] != 0 or len(b) != s['sizes'][k]:
                c.violation(f"lc3_encode returned {s['r'][k]} ({where(s, k)})", dict(session=brief(s, k)))
            ret = d.decode(b, S16)[0]
            recs.append(syntax.rec(s['dt'], s['sr'], b, ret, 1))
            own.append((s, k))
    c.log(len(recs), 'frames encoded')
    den = syntax.parse(c, recs)
    for s in ss:
        s['den'] = [None] * len(s['b'])
    for (s, k), d in zip(own, den):
        s['den'][k] = d
    if c.viol:
        return
    c.log('syntax checked')
    mined = mine(c, rng, 600000 if vc.THOROUGH else 40000, 12 if vc.THOROUGH else 4)
    c.log(len(mined), 'frames mined')
    denote_mined(c, mined)
    for s in mined:
        if s['ret']:
            c.violation(f"lc3_encode or lc3_decode refuses a frame ({where(s, 1)})", dict(session=brief(s)))
    if c.viol:
        return
    ss += mined
    analyse(ss)
    c.log('inputs analysed')
    q, w = [], []
    for s in ss:
        for k in range(len(s['b'])):
            r = qrecord(s, k) if s['den'][k] else None
            if r:
                q.append(r)
                w.append((s, k))
    quantiser(c, q, w)

