"""C07: encode calls against Session.tla"""
import vc, asan, session as S
from lc3 import *


def run(c):
    lib, rng = Lib(shim=False), c.rng
    k = 10 if vc.THOROUGH else 1
    scr = S.scripts(c, 'SessionGen_Enc.cfg')
    rng.shuffle(scr)
    traces = []
    cfgs = [(dt, sr, srp) for dt, sr in CONFIGS for srp in pcm_rates(sr)]
    rng.shuffle(cfgs)
    for rep in range(k):
        for i in range(0, len(scr), 24):
            dt, sr, srp = cfgs[(i // 24 + rep * 7) % len(cfgs)]
            mat = S.Material(lib, dt, sr, srp, rng, 8)
            w = S.World(lib, rng)
            for s in scr[i:i + 24]:
                S.play(w, mat, s, rng)
            traces.append(w.ev)
    # the limits of every configuration
    for dt, sr, srp in cfgs:
        mat = S.Material(lib, dt, sr, srp, rng, 4)
        w = S.World(lib, rng)
        lo, hi = min_bytes(dt, sr), max_bytes(dt, sr)
        ok = [lo, lo + 1, hi - 1, hi, rng.randint(lo, hi)]
        no = [lo - 1, hi + 1, 0, -1, 1, -2**31, 19, 626, lo // 2, 2**31 - 1, hi + 100]
        for v in range(3):
            w.setup(1, 'enc', dt, sr, srp)
            for j, n in enumerate(ok):
                # a refused call in between must not be felt
                if v and rng.random() < .7:
                    w.enc(1, mat.b, rng.choice([x for x in no if x < lo or x > hi]))
                if v and rng.random() < .2:
                    w.enc(1, mat.b, n, null=True)
                w.enc(1, mat.pcm[j % 4], n)
        traces.append(w.ev)
    ev = sum(map(len, traces))
    c.log(len(traces), 'traces', ev, 'events')
    S.validate(c, traces, 'encode')
    c.count('encode_calls', sum(e['op'] == 'enc' for t in traces for e in t))
    c.count('refused_calls', sum(e['op'] == 'enc' and e['ret'] == -1 for t in traces for e in t))
    c.sample(traces[0][:4])
    if not c.viol:
        asan.run(c, 'enc')
    c.note('call sequences: all of length 4 over 6 abstract inputs; data, formats, strides and gap contents sampled')
