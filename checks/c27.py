"""C27: the optimised Arm code is the same codec. 32-bit SIMD: Session.tla over
the portable and the optimised library together; so for the integer Advanced SIMD code. Transforms:
the specifications of the encoder and of the decoder on the optimised library"""
import random
import numpy as np
import vc, asan, frames, signals, decref, encoder, session as S
from lc3 import *


def script(w, s, mat, kind, seed):
    """The same calls on whatever library; the state left by each call of the
    encoder goes with its output"""
    rng = random.Random(seed)
    w.setup(s, kind, mat.dt, mat.sr, mat.srp, content=np.frombuffer(rng.randbytes(w.size(kind, mat.dt, mat.sr, mat.srp)), np.uint8))
    if kind == 'enc':
        bits = rng.choice([16, 16, 24])
        for k in range(len(mat.pcm)):
            w.enc(s, (mat.pcm if bits == 16 else mat.pcm24)[k], mat.sizes[k], bits=bits)
            e = w.ev[-1]
            e['res'] = S.IDS('state', str(e['res']).encode() + w.slots[s]['blk'].mem.tobytes())
    else:
        for k in range(len(mat.frames) + 6):
            b = mat.frames[k % len(mat.frames)][0]
            b = rng.choice([b, b, b, b, None, mat.bad[0], frames.mutate(b, rng)])
            w.dec(s, b, fmt=rng.choice([S16, S24, S24_3LE, FLOAT]))


def voiced(n, hz, rng):
    """A pitch that wanders, with harmonics: correlations at all lags"""
    t = np.arange(n) / hz
    f = np.interp(t, np.linspace(0, t[-1] + 1e-9, 6), [rng.uniform(60, 360) for _ in range(6)])
    ph = 2 * np.pi * np.cumsum(f) / hz
    x = sum(np.cos(j * ph + rng.uniform(0, 6)) / j for j in range(1, 20) if j * 360 < hz / 2)
    x = x / np.abs(x).max() * 10 ** rng.uniform(-2, -.1)
    return np.clip(x + 10 ** rng.uniform(-5, -2) * np.random.default_rng(rng.getrandbits(32)).standard_normal(n), -1, .9999)


def exact(c, rng, variant, name):
    ref_ = Lib(vc.build_lib('full', vc.STRICT), shim=False)
    arm = Lib(vc.build_arm(variant, vc.STRICT), shim=False)
    traces = []
    for rep in range(6 if vc.THOROUGH else 1):
        for dt, sr in CONFIGS:
            for srp in pcm_rates(sr):
                mat = S.Material(ref_, dt, sr, srp, rng, 20)
                n = ns(dt, srp)
                x = voiced(20 * n, SR_HZ[srp], rng)
                if rng.random() < .4:
                    x[rng.randrange(len(x)):] = 0
                mat.pcm, mat.pcm24 = signals.s16(x).reshape(20, n), signals.s24(x).reshape(20, n)
                w1, w2 = S.World(ref_, rng), S.World(arm, rng)
                w2.ev = w1.ev
                for kind in ('enc', 'dec'):
                    seed = rng.random()
                    script(w1, 1, mat, kind, seed)
                    script(w2, 2, mat, kind, seed)
                traces.append(w1.ev)
    c.log(name, len(traces), 'traces,', sum(map(len, traces)), 'events')
    S.validate(c, traces, name + ' beside the portable code')
    c.count('calls_compared_bit_for_bit', sum(map(len, traces)))
    c.sample(traces[0][3])


def neon(c, rng):
    lib = Lib(vc.build_arm('neon', vc.CFLAGS), shim=False)
    K = 6 if vc.THOROUGH else 1
    # --- encoder: spectra of all transform sizes, from all rates ---
    ss = encoder.corpus(rng, 24 * K // 6 + 2)
    for dt, sr in CONFIGS:
        for srp in pcm_rates(sr):
            ss.append(encoder.session(dt, sr, rng, srp=srp, kind='noise', nframes=4, fmt=FLOAT, gain=1))
    encoder.play(lib, ss, False)
    encoder.denote(c, ss)
    encoder.analyse(ss)
    q, w = [], []
    for s in ss:
        for k in range(len(s['b'])):
            r = encoder.qrecord(s, k)
            if r:
                q.append(r)
                w.append((s, k))
            else:
                c.violation(f"Advanced SIMD: the frame cannot be decoded ({encoder.where(s, k)})", dict(session=encoder.brief(s, k)))
    encoder.quantiser(c, q, w)
    # --- pitch and postfilter signalling ---
    import c15
    ps = []
    for dt, sr in CONFIGS:
        if hr(sr):
            continue
        for i in range(3 * K):
            nf = {0: 24, 1: 16, 2: 12, 3: 10}[dt]
            srp = sr if i % 2 else rng.choice(pcm_rates(sr))
            x = voiced(ns(dt, srp) * nf, SR_HZ[srp], rng)
            s = encoder.session(dt, sr, rng, srp=srp, kind='voiced', nframes=nf, fmt=S16, gain=1, pcm=signals.s16(x))
            s['want'] = None
            ps.append(s)
    encoder.play(lib, ps, False)
    encoder.denote(c, ps)
    encoder.analyse(ps)
    c15._SS = ps
    with encoder.pool() as ex:
        recs = list(ex.map(c15._record, range(len(ps)), chunksize=4))
    encoder.report(c, ps, encoder.validate(c, 'Pitch', recs), 'Advanced SIMD: postfilter signalling')
    c.count('frames_with_a_pitch', sum(f['present'] for r in recs for f in r['fr']))
    # --- decoder: every sample ---
    ds = []
    for dt, sr in CONFIGS:
        for srp in pcm_rates(sr):
            for _ in range(K):
                o, _, _ = frames.encode_session(lib, dt, sr, rng, 8, kind=rng.choice(signals.KINDS), sr_pcm=sr)
                seq = [r['b'] if rng.random() < .85 else None for r in o]
                ds.append(dict(dt=dt, sr=sr, srp=srp, frames=seq))
    decref.check(c, lib, ds, 'Advanced SIMD')


def built(c, variant):
    """Code using more of the Arm extensions than the emulation knows is not
    judged"""
    try:
        vc.build_arm(variant, vc.STRICT)
        return True
    except RuntimeError as e:
        c.count('not_built_' + variant)
        c.log(str(e)[:1000])
        c.note(variant + ': the code needs more than the emulated intrinsics, not judged')
        return False


def run(c):
    ok = {v: built(c, v) for v in vc.ARM}
    for v, name in (('simd32', '32-bit SIMD code'), ('neonint', 'integer Advanced SIMD code')):
        if ok[v]:
            exact(c, c.rng, v, name)
    if ok['neon']:
        neon(c, c.rng)
    for v in ('simd32', 'neon'):
        if ok[v]:
            asan.run(c, 'all', path=vc.build_arm(v, vc.ASAN))
    c.note('the intrinsics are emulated, as the Arm documentation defines them; the integer code (all of the 32-bit SIMD, the postfilter analysis of Advanced SIMD) is compared bit for bit under strict floating point')
