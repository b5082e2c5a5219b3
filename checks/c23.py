"""C23: reduced builds; Queries.tla with the options of the build, Session.tla
on sessions of the full and of the reduced library together"""
import random
import vc, asan, frames, signals, session as S
from queries import *

BUILDS = [(0, 0), (0, 1), (1, 0)]


def defs(plus, hrm):
    # one option alone may also be left to its default
    return [f'-DLC3_PLUS={plus}'] + [f'-DLC3_PLUS_HR={hrm}']


def supported(plus, hrm, dt, sr):
    return (plus or dt >= 2) and (hrm or not hr(sr))


def calls(lib, rng, K):
    recs = []
    for h in (False, True):
        for us in US + BAD_US[:12]:
            for hz in HZ + BAD_HZ[:12]:
                deep = us in US and hz in HZ
                for q in ('samples', 'delay', 'esize', 'dsize'):
                    recs.append(record(lib, q, h, us, hz))
                    if not h:
                        recs.append(record(lib, q, h, us, hz, plain=True))
                for _ in range(K if deep else 1):
                    for q in ('bytes', 'bitrate', 'block'):
                        a = rng.choice([0, 20, 100, 64000, IMAX, rng.randrange(700), rng.randrange(10**6), -1])
                        recs.append(record(lib, q, h, us, hz, nch=rng.randint(1, 8), a=a))
                        if not h and deep:
                            recs.append(record(lib, q, h, us, hz, nch=rng.randint(1, 8), a=a, plain=True))
                for dec in (0, 1):
                    for pcm in HZ + [0, -1, 44100] if deep else [0, 48000]:
                        recs.append(setup_record(lib, dec, h, us, hz, pcm, True))
                        if not h:
                            recs.append(setup_record(lib, dec, h, us, hz, pcm, True, plain=True))
                    recs.append(setup_record(lib, dec, h, us, hz, 0, False))
    return recs


def script(w, s, mat, kind, seed):
    """The same calls on whatever library"""
    rng = random.Random(seed)
    w.setup(s, kind, mat.dt, mat.sr, mat.srp)
    lo, hi = min_bytes(mat.dt, mat.sr), max_bytes(mat.dt, mat.sr)
    if kind == 'enc':
        bits = rng.choice([16, 16, 24])
        for k in range(len(mat.pcm)):
            if k == 17:
                w.disable(s)
            n = rng.choice([mat.sizes[k], mat.sizes[k], lo, hi, lo - 1, hi + 1, rng.randint(lo, hi)])
            w.enc(s, (mat.pcm if bits == 16 else mat.pcm24)[k], n, bits=bits)
    else:
        for k in range(len(mat.frames) + 10):
            b = mat.frames[k % len(mat.frames)][0]
            b = rng.choice([b, b, b, b, b, None, mat.bad[0], frames.mutate(b, rng), b[:20], rng.randbytes(len(b))])
            w.dec(s, b, fmt=rng.choice([S16, S24, FLOAT, FLOAT]))
        for k in range(12):
            w.dec(s, None, fmt=FLOAT)


def run(c):
    rng = c.rng
    full = Lib(vc.build_lib('full', vc.STRICT), shim=False)
    K = 6 if vc.THOROUGH else 2
    for plus, hrm in BUILDS:
        name = f'LC3_PLUS={plus} LC3_PLUS_HR={hrm}'
        d = defs(plus, hrm)
        strict = Lib(vc.build_lib('red', vc.STRICT, d), shim=False)
        prod = Lib(vc.build_lib('red', vc.CFLAGS, d), shim=False)
        recs = calls(prod, rng, 4 * K) + calls(strict, rng, 2)
        c.count('queries_refused', sum(r['ret'] in (-1, 0) for r in recs))
        validate(c, recs, cfg=f'Queries_Calls_{plus}{hrm}.cfg', tag=f'build {name}: ')
        traces = []
        for rep in range(K):
            for dt, sr in CONFIGS:
                if not supported(plus, hrm, dt, sr):
                    continue
                for srp in pcm_rates(sr):
                    if srp != sr and rng.random() < .4 and not vc.THOROUGH:
                        continue
                    mat = S.Material(full, dt, sr, srp, rng, 20)
                    w1, w2 = S.World(full, rng), S.World(strict, rng)
                    w2.ev = w1.ev
                    for kind in ('enc', 'dec'):
                        seed = rng.random()
                        script(w1, 1, mat, kind, seed)
                        script(w2, 2, mat, kind, seed)
                    traces.append(w1.ev)
        c.log(name, len(recs), 'queries,', len(traces), 'traces,', sum(map(len, traces)), 'events')
        S.validate(c, traces, f'build {name} beside the full build')
        asan.run(c, 'all', defs=d, only=[x for x in CONFIGS if supported(plus, hrm, *x)])
    c.sample(dict(build=name, query=recs[len(recs) // 3]))
    c.sample(dict(build=name, event=traces[0][5]))
    c.note('outputs are compared between builds with strict floating point arithmetic: value-changing optimisations are free to differ between builds')
