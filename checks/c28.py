"""C28: the WebAssembly library is the same codec; Queries.tla on its queries
and set-ups, Session.tla on its sessions and those of the native library
together"""
import random, shutil
import numpy as np
import vc, frames, signals, wasm, session as S
from queries import *

API = ['lc3_hr_frame_samples', 'lc3_frame_samples', 'lc3_hr_frame_bytes', 'lc3_frame_bytes', 'lc3_hr_frame_block_bytes', 'lc3_frame_block_bytes',
       'lc3_hr_resolve_bitrate', 'lc3_resolve_bitrate', 'lc3_hr_delay_samples', 'lc3_delay_samples', 'lc3_hr_encoder_size', 'lc3_encoder_size',
       'lc3_hr_decoder_size', 'lc3_decoder_size', 'lc3_hr_setup_encoder', 'lc3_setup_encoder', 'lc3_hr_setup_decoder', 'lc3_setup_decoder',
       'lc3_encoder_disable_ltpf', 'lc3_encode', 'lc3_decode']


def calls(w, rng, K):
    recs = []
    for h in (False, True):
        for us in US + BAD_US[:12]:
            for hz in HZ + BAD_HZ[:12]:
                deep = us in US and hz in HZ
                for q in ('samples', 'delay', 'esize', 'dsize'):
                    for plain in (False, True) if not h else (False,):
                        recs.append(record(w, q, h, us, hz, plain=plain))
                for _ in range(K if deep else 1):
                    for q in ('bytes', 'bitrate', 'block'):
                        a = rng.choice([0, 20, 100, 64000, IMAX, IMIN, rng.randrange(700), rng.randrange(10**6), rng.randrange(1 << 31), -1])
                        recs.append(record(w, q, h, us, hz, nch=rng.choice([1, 2, 3, 8, rng.randint(1, 64)]), a=a))
                        if not h and deep:
                            recs.append(record(w, q, h, us, hz, nch=rng.randint(1, 8), a=a, plain=True))
                for dec in (0, 1):
                    for pcm in HZ + [0, -1, 44100] if deep else [0, 48000]:
                        recs.append(w.setup_record(rng, dec, h, us, hz, pcm, True))
                        if not h:
                            recs.append(w.setup_record(rng, dec, h, us, hz, pcm, True, plain=True))
                    recs.append(w.setup_record(rng, dec, h, us, hz, 0, False))
    return recs


def low(n, f, rng):
    """Below the second line or so, at a level that changes, over little noise"""
    t = np.arange(n) / f
    x = .5 * np.cos(np.pi * rng.uniform(0, 2) * t + rng.uniform(0, 6)) * 10 ** rng.uniform(-2, 0)
    return x + rng.choice([0, 10 ** rng.uniform(-8, -3)]) * np.random.default_rng(rng.getrandbits(32)).standard_normal(n) * (1 + t % 3)


def script(w, s, mat, kind, seed, fast=False):
    """The same calls on whatever library"""
    rng = random.Random(seed)
    w.setup(s, kind, mat.dt, mat.sr, mat.srp)
    lo, hi = min_bytes(mat.dt, mat.sr), max_bytes(mat.dt, mat.sr)
    if kind == 'enc':
        bits = rng.choice([16, 16, 24, 32])
        for k in range(len(mat.pcm)):
            if k == 15:
                w.disable(s)
            if rng.random() < .15:
                w.move(s)
            n = rng.choice([mat.sizes[k], mat.sizes[k], lo, hi, lo - 1, hi + 1, 0, -1, rng.randint(lo, hi)])
            w.enc(s, (mat.pcm if bits == 16 else mat.pcm24 if bits == 24 else mat.pcmf)[k], n, bits=bits, null=rng.random() < .03)
    else:
        for k in range(len(mat.frames) + 8):
            if rng.random() < .15:
                w.move(s)
            b = mat.frames[k % len(mat.frames)][0]
            b = rng.choice([b, b, b, b, b, None, mat.bad[0], frames.mutate(b, rng), b[:20], rng.randbytes(len(b)), rng.randbytes(hi)])
            m = None
            if b is not None and rng.random() < .05:
                m = rng.choice([19, 0, -1, hi + 1, IMAX, IMIN])
            w.dec(s, b, m, fmt=rng.choice([S16, S24, S24_3LE, FLOAT, FLOAT]), null=rng.random() < .03)
        for k in range(6):
            w.dec(s, None, fmt=FLOAT)


def run(c):
    rng = c.rng
    for tool in ('node', 'wasm-ld', 'clang'):
        if not shutil.which(tool):
            c.note(tool + ' is not installed: not judged')
            return
    full = Lib(vc.build_lib('full', vc.STRICT), shim=False)
    K = 24 if vc.THOROUGH else 1
    for name, flags in (('strict floating point', wasm.STRICT), ('the flags of the Makefile', wasm.FAST)):
        try:
            path = wasm.build('wasm', flags)
        except RuntimeError as e:
            # a library function that wasm/ does not define
            c.count('not_built')
            c.log(str(e)[:800])
            c.note(name + ': not built, not judged')
            continue
        w = wasm.Wasm(path)
        try:
            if w.info['imports'] or not set(API) <= set(w.info['exports']):
                c.violation(f"{name}: imports {w.info['imports']}, missing exports {sorted(set(API) - set(w.info['exports']))}", w.info)
                continue
            recs = calls(w, rng, 4 * K)
            c.count('queries', len(recs))
            validate(c, recs, tag=f'WebAssembly, {name}: ')
            traces = []
            strict = flags == wasm.STRICT
            for rep in range(K):
                for dt, sr in CONFIGS:
                    for srp in pcm_rates(sr):
                        if not strict and srp != sr:
                            continue
                        mat = S.Material(full, dt, sr, srp, rng, 18)
                        n, m = ns(dt, srp), rng.random()
                        mat.pcmf = (mat.pcm24 / 8388608 * .9).astype(np.float32)
                        if m < .8:
                            # sums at their largest; or all of the energy in the first lines
                            x = signals.make('fullnoise', 18 * n, SR_HZ[srp], rng) if m < .3 else low(18 * n, n, rng)
                            mat.pcmf = x.astype(np.float32).reshape(18, n)
                            mat.pcm, mat.pcm24 = signals.s16(x).reshape(18, n), signals.s24(x).reshape(18, n)
                        a, b = S.World(full, rng), wasm.World(w, rng)
                        if strict:
                            b.ev = a.ev
                        for kind in ('enc', 'dec'):
                            seed = rng.random()
                            if strict:
                                script(a, 1, mat, kind, seed)
                            script(b, 2, mat, kind, seed)
                            script(b, 3, mat, kind, seed)
                        traces.append(b.ev)
            c.log(name, len(recs), 'queries,', len(traces), 'traces,', sum(map(len, traces)), 'events')
            S.validate(c, traces, f'WebAssembly, {name}' + (', beside the native library' if strict else ''))
            c.count('calls_of_sessions', sum(map(len, traces)))
            c.sample(dict(build=name, query=recs[len(recs) // 3]))
            c.sample(dict(build=name, event=traces[0][-3]))
        except wasm.Trap as e:
            c.violation(f'WebAssembly, {name}: {e.args[0]}', dict(call=e.args[1]))
        finally:
            w.close()
    c.note('frames and samples are compared with those of the native library bit for bit, both compiled with strict floating point; '
           'with the flags of the Makefile: acceptance, verdicts, determinism, memory')
