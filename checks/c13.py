"""C13: samples of whole sessions; FrameSyntax.tla, Decoder.tla and ref.py"""
import vc, frames, signals, decref
from lc3 import *


def run(c):
    lib, rng = Lib(shim=False), c.rng
    ss = []
    K = 7 if vc.THOROUGH else 1
    cfgs = [(dt, sr, srp) for dt, sr in CONFIGS for srp in pcm_rates(sr)]
    for _ in range(K):
        for dt, sr, srp in cfgs:
            if hr(sr):
                o, _, _ = frames.encode_session(lib, dt, sr, rng, 8, sr_pcm=sr)
                ss.append(dict(dt=dt, sr=sr, srp=srp, frames=[r['b'] for r in o[:4]] + [None] + [r['b'] for r in o[4:]]))
                continue
            # small frames keep the filter on: sizes around the gain steps
            for kind in ('pulse', 'mix'):
                n = ns(dt, sr)
                nf = 30 if dt < 2 else 20
                x = signals.s16(signals.make('pulse' if kind == 'pulse' else rng.choice(['speech', 'tone', 'switch']), n * nf, SR_HZ[sr], rng)).reshape(nf, n)
                e = lib.encoder(dt, sr)
                steps = gain_sizes(dt, srp)
                seq = []
                sz = rng.choice(steps)
                for k in range(nf):
                    if rng.random() < .35:
                        sz = rng.choice(steps)
                    r, b = e.encode(x[k], sz)
                    seq.append(b)
                    if rng.random() < .08:
                        seq += [None] * rng.choice([1, 1, 2, 4])
                # frames out of another context: any lag, any flag, any position
                for _ in range(10 if kind == 'mix' else 2):
                    m = rng.choice(steps)
                    f = frames.random_content(dt, sr, m, rng, rng.choice(['typical', 'zeros', 'sparse', 'short']), pitch=1, ltpf=rng.random() < .85,
                                              pidx=rng.choice([0, 511, 510, 379, 380, 439, 440, None, None, None]), quiet=True)
                    i = rng.randrange(len(seq) + 1)
                    seq[i:i] = [f] * rng.choice([1, 1, 2, 3])
                ss.append(dict(dt=dt, sr=sr, srp=srp, frames=seq))
            # the filter mostly on: lags kept, changed, extreme, at every position of the history
            seq, p = [], rng.randrange(512)
            low = [n for n in range(20, 401) if gi(dt, srp, n) < 4] or [20]
            sz = rng.choice(low)
            for k in range(36 if dt < 2 else 24):
                if rng.random() < .4:
                    p = rng.choice([rng.randrange(512), 511, 0, max(0, min(511, p + rng.choice([-1, 1, 2, -3])))])
                if rng.random() < .25:
                    sz = rng.choice(low)
                seq.append(frames.random_content(dt, sr, sz, rng, rng.choice(['typical', 'sparse', 'zeros']), pitch=1, ltpf=rng.random() < .95, pidx=p, quiet=True))
                if rng.random() < .06:
                    seq.append(None)
            ss.append(dict(dt=dt, sr=sr, srp=srp, frames=seq))
    c.log(len(ss), 'sessions', sum(len(s['frames']) for s in ss), 'frames')
    decref.check(c, lib, ss, 'samples of a session')
    kinds = {}
    for s in ss:
        for l in s['log']:
            kinds[l['kind']] = kinds.get(l['kind'], 0) + 1
    c.cov['transitions_of_the_filter'] = kinds
    c.sample([{x: l[x] for x in ('c', 'src', 'kind', 'old', 'new')} for l in ss[-3]['log'][:6]])


def gain_sizes(dt, srp):
    """Frame sizes around the steps of the gain"""
    r = set()
    for n in range(20, 401):
        if gi(dt, srp, n) != gi(dt, srp, n - 1) and n > 20:
            r |= {n - 1, n}
    r |= {20, 24, 30, 40, 400}
    return sorted(r) + [20, 22, 26, 30, 36]


def gi(dt, srp, n):
    b = n * 32 // (1 + dt)
    b = (6 * b + 5) // 10 if dt == 0 else b - 160 if dt == 1 else b
    return max(max(b, 0) // 80, 3 + srp) - (3 + srp)
