"""C06: the spectrum of encoded frames is the one of the input (Quantiser.tla),
at every PCM rate, over any sequence of sizes"""
import numpy as np
import vc, encoder, signals
from encoder import *


def run(c):
    lib, rng = Lib(), c.rng
    ss = corpus(rng, 96 if vc.THOROUGH else 12)
    for dt, sr in CONFIGS:
        for srp in pcm_rates(sr):
            # the whole band, at all rates; samples beyond the reach of a frame
            ss.append(session(dt, sr, rng, srp=srp, kind='noise', nframes=5, fmt=FLOAT, gain=1))
            n = ns(dt, srp)
            x = np.zeros(6 * n)
            for _ in range(4):
                x[rng.randrange(6 * n)] = rng.uniform(-1, 1)
            ss.append(session(dt, sr, rng, srp=srp, kind='impulses', nframes=6, fmt=FLOAT, gain=1, pcm=x.astype(np.float32), sizes=[max_bytes(dt, sr)] * 6))
    play(lib, ss)
    c.log(sum(len(s['b']) for s in ss), 'frames encoded')
    denote(c, ss)
    c.log('denoted')
    analyse(ss)
    c.log('inputs analysed')
    q, w = [], []
    for s in ss:
        for k in range(len(s['b'])):
            r = qrecord(s, k)
            if r:
                q.append(r)
                w.append((s, k))
            elif s['gain'] <= 1:
                c.violation(f"the frame cannot be decoded ({where(s, k)})", dict(session=brief(s, k)))
            else:
                c.count('over_range_input_skipped')
    quantiser(c, q, w)
