"""C11: damaged is lost, and recovery; Session.tla"""
import vc, frames, session as S
from lc3 import *


def run(c):
    lib, rng = Lib(shim=False), c.rng
    traces = []
    scr = S.scripts(c, 'SessionGen_Dec.cfg')
    rng.shuffle(scr)
    loss = S.scripts(c, 'SessionGen_Loss.cfg', sim=400 if vc.THOROUGH else 100, depth=70)
    cfgs = [(dt, sr, srp) for dt, sr in CONFIGS for srp in pcm_rates(sr)]
    rng.shuffle(cfgs)
    for i, s in enumerate(loss):
        dt, sr, srp = cfgs[i % len(cfgs)]
        mat = S.Material(lib, dt, sr, srp, rng)
        w = S.World(lib, rng)
        # the stream without losses: what the good frames are like
        for off in range(1 if i % 2 else 2):
            w.setup(1, 'dec', dt, sr, srp)
            for k in range(len(mat.frames)):
                d, nop = mat.frames[(k + off * 7) % len(mat.frames)]
                w.dec(1, d, nopitch=nop)
        # the script, its concealed frames lost, damaged in one way or another
        for v in range(4):
            for a in s:
                if a['op'] == 'dec' and a['in'] in ('bad', 'lost') and w.slots:
                    b = [None, mat.bad[0], mat.bad[1], None if rng.random() < .5 else rng.choice(mat.bad)][v]
                    w.dec(a['s'], b, mat.n1 if b is None else None)
                elif a['op'] == 'dec' and a['in'] == 'next' and rng.random() < .4 and v == 0:
                    S.play(w, mat, [a], rng)
                else:
                    S.play(w, mat, [a], rng)
        traces.append(w.ev)
    for i in range(0, len(scr) if vc.THOROUGH else 1024, 64):
        dt, sr, srp = cfgs[(i // 64) % len(cfgs)]
        mat = S.Material(lib, dt, sr, srp, rng, 6)
        w = S.World(lib, rng)
        for s in scr[i:i + 64]:
            S.play(w, mat, s, rng)
        traces.append(w.ev)
    # every kind of damage, at each position in its field: same aftermath as a loss
    k = 10 if vc.THOROUGH else 1
    for dt, sr in CONFIGS:
        srp = rng.choice(pcm_rates(sr))
        mat = S.Material(lib, dt, sr, srp, rng, 6)
        n = mat.n1
        bads = []
        for _ in range(60 * k):
            b = rng.choice([frames.mutate(mat.g[0], rng), frames.random_content(dt, sr, n, rng, rng.choice(['illegal', 'overfull', 'escape', 'tns'])),
                            rng.randbytes(n), frames.mutate(mat.frames[rng.randrange(6)][0], rng)])
            if lib.decoder(dt, sr).decode(b)[0] == 1:
                bads.append(b)
        w = S.World(lib, rng)
        for b in [None] + bads[:25 * k]:
            w.setup(1, 'dec', dt, sr, srp)
            w.dec(1, mat.frames[0][0], fmt=FLOAT)
            w.dec(1, mat.g[0], fmt=FLOAT)
            for x in (b, b):
                w.dec(1, x, n if x is None else None, fmt=FLOAT)
            w.dec(1, mat.frames[1][0], fmt=FLOAT)
            w.dec(1, b, n if b is None else None, fmt=FLOAT)
            w.dec(1, mat.frames[2][0], fmt=FLOAT)
            c.count('damaged_frames')
        traces.append(w.ev)
    c.log(len(traces), 'traces', sum(map(len, traces)), 'events')
    S.validate(c, traces, 'concealment')
    c.count('concealed_frames', sum(e['op'] == 'dec' and e['ret'] == 1 for t in traces for e in t))
    c.count('recoveries', sum(a['op'] == 'dec' and a['ret'] == 1 and b['op'] == 'dec' and b['ret'] == 0 for t in traces for a, b in zip(t, t[1:])))
    c.sample(traces[0][-6:])
    c.note('independence of the past after two good frames is checked on frames without pitch information')
