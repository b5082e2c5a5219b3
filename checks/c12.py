"""C12: concealment; Decoder.tla states source, attenuation and signs"""
import numpy as np
import vc, frames, signals, decref
from lc3 import *


def run(c):
    lib, rng = Lib(shim=False), c.rng
    ss = []
    K = 8 if vc.THOROUGH else 1
    cfgs = [(dt, sr, srp) for dt, sr in CONFIGS for srp in pcm_rates(sr)]
    for _ in range(K):
        for dt, sr, srp in cfgs:
            if srp != sr and rng.random() < .5 and not vc.THOROUGH:
                continue
            for pat in range(4 if srp == sr else 3):
                o, _, _ = frames.encode_session(lib, dt, sr, rng, 10, kind=rng.choice(['noise', 'tones', 'speech', 'pulse', 'fullnoise']), sr_pcm=sr, disable=0 if pat else None)
                fs = [r['b'] for r in o]
                bad = frames.random_content(dt, sr, len(fs[0]), rng, 'illegal')
                lost = lambda: None if rng.random() < .7 else frames.mutate(rng.choice(fs), rng) if rng.random() < .8 else bad
                if pat == 0:
                    # lost from the start, then bursts of every length
                    seq = [lost() for _ in range(rng.randint(1, 3))]
                    for b in fs[:7]:
                        seq += [b] * rng.choice([1, 1, 2]) + [lost() for _ in range(rng.choice([1, 2, 3, 4, 5, 8, 9, 12]))]
                elif pat == 1:
                    seq = fs[:2] + [None] * rng.choice([20, 40]) + fs[2:4] + [None] * 5 + fs[4:6]
                elif pat == 3:
                    # beyond the range of any small counter
                    seq = fs[:2] + [rng.choice([None, None, bad]) for _ in range(rng.choice([140, 270]))] + fs[2:3] + [None] * 5 + fs[3:5] + [None] * 9
                else:
                    seq = []
                    for b in fs:
                        seq.append(b if rng.random() < .5 else lost())
                ss.append(dict(dt=dt, sr=sr, srp=srp, frames=seq))
    c.log(len(ss), 'sessions', sum(len(s['frames']) for s in ss), 'frames')
    decref.check(c, lib, ss, 'concealment')
    st = {}
    for s in ss:
        run_ = 0
        for l in s['log']:
            run_ = run_ + 1 if l['c'] else 0
            if run_:
                st[min(run_, 10)] = st.get(min(run_, 10), 0) + 1
    c.cov['concealed_by_position_in_burst'] = st
    c.sample([{x: l[x] for x in ('c', 'src', 'a9', 'a85', 'seed')} for l in ss[0]['log'][:12]])

    # endless bursts: silence in the end, for ever, in every format
    for dt, sr in CONFIGS:
        srp = rng.choice(pcm_rates(sr))
        x = signals.s16(signals.make(rng.choice(['square', 'fullnoise']), 4 * ns(dt, sr), SR_HZ[sr], rng)).reshape(4, -1)
        e = lib.encoder(dt, sr)
        fs = [e.encode(v, max_bytes(dt, sr))[1] for v in x]
        if rng.random() < .5:
            fs.append(frames.random_content(dt, sr, max_bytes(dt, sr), rng, 'loud'))
        d = lib.decoder(dt, sr, srp)
        never = lib.decoder(dt, sr, srp)
        for b in fs:
            d.decode(b)
        n = 1500 if vc.THOROUGH else 700
        peaks = []
        for k in range(n):
            fmt = rng.choice([S16, S24, S24_3LE, FLOAT])
            r, y = d.decode(None, fmt=fmt)
            m = float(np.abs(y).max()) * 32768 if fmt == FLOAT else peak(y, fmt)
            peaks.append(m)
            if k >= 120 and not m <= max(1e9 * .86 ** k, .6):
                c.violation(f'endless burst: dt={dt} sr={sr} srp={srp}: peak {m} at loss {k} in format {fmt}', dict(dt=dt, sr=sr, srp=srp, frames=[b.hex() for b in fs], loss=k, fmt=fmt))
                break
            if fmt == FLOAT and k > 600 and m > 1e-20:
                c.violation(f'endless burst: dt={dt} sr={sr} srp={srp}: peak {m} at loss {k}, float output', dict(dt=dt, sr=sr, srp=srp, frames=[b.hex() for b in fs], loss=k))
                break
            r, z = never.decode(None, fmt=fmt)
            if z.any():
                c.violation(f'concealment without any good frame is not silent: dt={dt} sr={sr} srp={srp} loss {k} format {fmt}', dict(dt=dt, sr=sr, srp=srp, loss=k, fmt=fmt))
                break
        c.count('endless_burst_frames', len(peaks))
    c.note('the fade is compared sample by sample over bursts of up to 270 frames, by its peak up to 1500')


def peak(y, fmt):
    if fmt == S16:
        return float(np.abs(y.astype(np.int32)).max())
    if fmt == S24:
        return float(np.abs(y).max()) / 256
    v = y.reshape(-1, 3).astype(np.int32)
    v = v[:, 0] | v[:, 1] << 8 | v[:, 2] << 16
    return float(np.abs(np.where(v >= 1 << 23, v - (1 << 24), v)).max()) / 256
