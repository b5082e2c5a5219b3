"""C10: formats and strides; Session.tla (same values, same result) and Rounding.tla"""
import os, re, shutil
import numpy as np
import vc, frames, signals, session as S
from lc3 import *


def exact(f, bits):
    v = f.astype(np.float64) * (1 << (bits - 1))
    ok = np.isfinite(v)
    v = np.where(ok, v, -1e9)
    m = np.floor(v)
    r = v - m
    h = np.where(r == 0, 0, np.where(np.abs(r - .5) <= 2. ** -16, 2, np.where(r < .5, 1, 3)))
    return m.astype(np.int64), h


def run(c):
    lib, rng = Lib(shim=False), c.rng
    traces, recs = [], []
    K = 6 if vc.THOROUGH else 1
    cfgs = [(dt, sr, srp) for dt, sr in CONFIGS for srp in pcm_rates(sr)]
    for rep in range(K):
        for ci, (dt, sr, srp) in enumerate(cfgs):
            full = srp == sr or rng.random() < .3 or vc.THOROUGH
            n = ns(dt, srp)
            # encoders: the same values in every format, and strides
            w = S.World(lib, rng)
            nf = 8
            kind = rng.choice(signals.KINDS)
            x = signals.make(kind, n * nf, SR_HZ[srp], rng)
            v16 = signals.s16(x).reshape(nf, n).copy()
            v24 = signals.s24(signals.make(rng.choice(['tones', 'noise', 'fullnoise', 'speech', 'quiet', 'square']), n * nf, SR_HZ[srp], rng)).reshape(nf, n).copy()
            for v, lo, hi in ((v16, -32768, 32767), (v24, -2**23, 2**23 - 1)):
                for _ in range(4):
                    v[rng.randrange(nf), rng.randrange(n)] = rng.choice([lo, hi, 0, -1, 1])
            v24[-1] += rng.randint(-127, 127) * (abs(v24[-1]) < 2**23 - 200)
            sizes = [frames.rand_size(dt, sr, rng) for _ in range(nf)]
            for fmt in range(4):
                for st in ((1, rng.choice([2, 3, 5, 8])) if full else (rng.choice([1, 2, 3]),)):
                    w.setup(1, 'enc', dt, sr, srp)
                    for k in range(nf):
                        w.enc(1, v16[k], sizes[k], fmt=fmt, stride=st)
            for fmt in (S24, S24_3LE, None):
                w.setup(1, 'enc', dt, sr, srp)
                for k in range(nf):
                    w.enc(1, v24[k], sizes[k], fmt=fmt if fmt is not None else rng.choice([S24, S24_3LE]),
                          stride=rng.choice([1, 2, 4]), bits=24)
            traces.append(w.ev)
            # decoders: the same frames, four sessions in four formats
            if not full:
                continue
            w = S.World(lib, rng)
            stream = []
            e = lib.encoder(dt, sr)
            m = ns(dt, sr)
            y = signals.s16(signals.make(rng.choice(['square', 'fullnoise', 'tones', 'speech', 'pulse', 'dc', 'ampmod']), m * 10, SR_HZ[sr], rng)).reshape(10, m)
            for k in range(10):
                sz = frames.rand_size(dt, sr, rng) if rng.random() < .5 else max(min_bytes(dt, sr), sizes[0])
                stream.append(e.encode(y[k], sz)[1])
            for k in range(3):
                stream.insert(rng.randrange(len(stream)), None)
            for _ in range(6):
                stream.insert(rng.randrange(len(stream)), frames.random_content(dt, sr, frames.rand_size(dt, sr, rng), rng, rng.choice(['loud', 'typical', 'escape', 'lsb', 'tns'])))
            stream += [None] * 3
            for s in range(4):
                w.setup(s + 1, 'dec', dt, sr, srp)
            for k, b in enumerate(stream):
                o = {}
                for s in range(4):
                    fmt = (s + k) % 4
                    r, o[fmt] = w.dec(s + 1, b, fmt=fmt, stride=rng.choice([1, 1, 2, 3]))
                m24, h24 = exact(o[FLOAT], 24)
                m16, h16 = exact(o[FLOAT], 16)
                recs.append(dict(dt=dt, sr=sr, srp=srp, m24=m24.tolist(), h24=h24.tolist(), m16=m16.tolist(), h16=h16.tolist(),
                                 s24=o[S24].tolist(), p24=o[S24_3LE].tolist(), s16=o[S16].tolist()))
                c.count('clipped_samples', int((np.abs(o[FLOAT]) >= 1).sum()))
            traces.append(w.ev)
    c.log(len(traces), 'traces', sum(map(len, traces)), 'events', len(recs), 'frames in four formats')
    S.validate(c, traces, 'formats')
    d = vc.scratch()
    try:
        chunk = 600
        for lo in range(0, len(recs), chunk):
            part = recs[lo:lo + chunk]
            t = vc.tlc('Rounding', env=dict(SAMPLES=vc.ndjson(os.path.join(d, 'r'), part)))
            c.add_tlc(t)
            if t.rc == 0:
                c.traces(len(part))
                continue
            fr = re.findall(r'fr = (\d+)', t.out)
            inv = re.findall(r'Invariant (\w+) is violated', t.out)
            r = part[int(fr[-1]) - 1]
            bad = [i for i in range(len(r['s16'])) if abs(r['m16'][i] - r['s16'][i]) > 1 or abs(r['m24'][i] - r['s24'][i]) > 1 or r['s24'][i] != r['p24'][i]][:4]
            c.violation(f"outputs of a decoder in different formats disagree ({inv}): dt={r['dt']} sr={r['sr']} srp={r['srp']} samples {bad}: "
                        + str([{k: r[k][i] for k in ('m24', 's24', 'p24', 'm16', 's16')} for i in bad]), r)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    c.count('samples_compared', sum(len(r['s16']) for r in recs))
    c.sample({k: v if isinstance(v, int) else v[:6] for k, v in recs[0].items()} if recs else {})
