"""C08: decode calls against Session.tla"""
import vc, asan, session as S
from lc3 import *


def run(c):
    lib, rng = Lib(shim=False), c.rng
    k = 8 if vc.THOROUGH else 1
    scr = S.scripts(c, 'SessionGen_Dec.cfg')
    rng.shuffle(scr)
    traces = []
    cfgs = [(dt, sr, srp) for dt, sr in CONFIGS for srp in pcm_rates(sr)]
    rng.shuffle(cfgs)
    for rep in range(k):
        for i in range(0, len(scr), 48):
            dt, sr, srp = cfgs[(i // 48 + rep * 7) % len(cfgs)]
            mat = S.Material(lib, dt, sr, srp, rng, 6)
            w = S.World(lib, rng)
            for s in scr[i:i + 48]:
                S.play(w, mat, s, rng)
            traces.append(w.ev)
    for dt, sr, srp in cfgs:
        mat = S.Material(lib, dt, sr, srp, rng, 6)
        w = S.World(lib, rng)
        hi = max_bytes(dt, sr)
        for v in range(3):
            w.setup(1, 'dec', dt, sr, srp)
            for j in range(8):
                d, nop = mat.frames[j % 6]
                if v and rng.random() < .6:
                    w.dec(1, mat.g[0], rng.choice([19, 0, -1, 1, -2**31, hi + 1, hi + 2, 2**31 - 1, 401 if hi <= 400 else 626]))
                if v and rng.random() < .2:
                    w.dec(1, d, null=True)
                if j == 5:
                    # a null input is a lost frame whatever the length
                    w.dec(1, None, [0, 20, -1, hi + 1, 2**31 - 1, -2**31, 1, 19][(dt + sr) % 8])
                elif j == 6:
                    for n in (20, hi):
                        w.dec(1, (d * 40)[:n])
                else:
                    w.dec(1, d, nopitch=nop)
        traces.append(w.ev)
    c.log(len(traces), 'traces', sum(map(len, traces)), 'events')
    S.validate(c, traces, 'decode')
    c.count('decode_calls', sum(e['op'] == 'dec' for t in traces for e in t))
    for r in (-1, 0, 1):
        c.count(f'returned_{r}', sum(e['op'] == 'dec' and e['ret'] == r for t in traces for e in t))
    c.sample(traces[0][:4])
    if not c.viol:
        asan.run(c, 'dec')
    if not c.viol:
        asan.run(c, 'syntax')
    c.note('call sequences: all of length 4 over 8 abstract inputs; frames, formats, strides and gap contents sampled')
