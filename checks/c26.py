"""C26: spectral and temporal envelopes of encoded frames (Envelope.tla)"""
import numpy as np
import vc, encoder, encref, ref, signals
from encoder import *


def targets(s, k):
    """Scale factors the frame may have to code, with their errors"""
    f, dt, sr, n, a = s['den'][k]['f'], s['dt'], s['sr'], s['sizes'][k], s['a'][k]
    root, t = np.sqrt(a['e']), XTOL / 3 * a['peak']
    lo, hi = np.maximum(root - t, 0) ** 2, (root + t) ** 2
    base = np.array(ref.T('lfcb')[f['lf']] + ref.T('hfcb')[f['hf']], np.float64)
    out = []
    for att in (0, 1) if dt >= 2 and s['srp'] in (3, 4) and not hr(sr) else (0,):
        m, l, h = (encref.sns_target(dt, sr, n, e, att) for e in (a['e'], lo, hi))
        e = np.maximum(np.abs(h - m), np.abs(l - m)) * 2 + np.abs(h - l).max() + 3e-5
        x, dx = ref.dct16() @ (m - base), np.abs(ref.dct16()) @ e
        wide = int(e.max() > .01)
        out.append(dict(wide=wide, t=np.round(m * 65536).astype(int).tolist(), e=np.minimum(np.ceil(e * 65536) + 1, 1000).astype(int).tolist(),
                        x=np.round(x * 4096).astype(int).tolist(), dx=int(np.ceil(np.sqrt((dx * dx).mean()) * 4096)) + 1))
    return out


def predictions(s, k):
    """Measures of the prediction of each temporal filter"""
    f, dt, sr, a = s['den'][k]['f'], s['dt'], s['sr'], s['a'][k]
    sh = ref.shaping(dt, sr, f)
    x, tol = a['X'] / sh, XTOL / 3 * a['peak'] / sh + 1e-6 * np.abs(a['X'] / sh) + 1e-12
    out = []
    for rd in encref.tns_corr(dt, f['bw'], x, tol):
        m = rd and encref.tns_intervals(*rd)
        if m is None:
            out.append(dict(ok=0, gl=0, gh=0, u=[], w=[]))
            continue
        lo, hi = m
        mo = (len(lo) - 1) // 2
        fx = lambda v: int(np.clip(v, -2, 2) * 2 ** 20)
        rc = [dict(l=fx(l), h=fx(h)) for l, h in zip(lo[1:], hi[1:])]
        out.append(dict(ok=1, gl=int(min(np.floor(lo[0] * 4096), 1 << 28)), gh=int(min(np.ceil(hi[0] * 4096), 1 << 28)), u=rc[:mo], w=rc[mo:]))
    return out


def record(s):
    out = []
    for k, d in enumerate(s['den']):
        if not d or not d['ok']:
            out.append(None)
            continue
        f = d['f']
        out.append(dict(dt=s['dt'], sr=s['sr'], n=s['sizes'][k], bw=f['bw'], lf=f['lf'], hf=f['hf'], shape=f['shape'], gain=f['gain'], ia=f['ia'],
                        lsa=f['lsa'], ib=f['ib'], lsb=f['lsb_b'], tns=f['tns'], ny=near_nyquist(s, k), alt=targets(s, k), lpc=predictions(s, k)))
    return out


def run(c):
    lib, rng = Lib(), c.rng
    K = 10 if vc.THOROUGH else 1
    ss = []
    for dt, sr in CONFIGS:
        for i in range(36 * K):
            ss.append(session(dt, sr, rng, kind=signals.KINDS[(3 * i + dt + sr + rng.randrange(3)) % len(signals.KINDS)], nframes=8))
        # down to nothing: the least noise floor
        for i in range(3 * K):
            ss.append(session(dt, sr, rng, kind=rng.choice(['lowband', 'tones', 'speech', 'noise']), fmt=FLOAT, gain=10. ** -rng.uniform(4.5, 8), nframes=6))
    play(lib, ss, False)
    denote(c, ss)
    analyse(ss)
    c.log(sum(len(s['b']) for s in ss), 'frames encoded and analysed')
    with pool() as ex:
        rr = list(ex.map(record, ss, chunksize=2))
    c.log('targets and predictions')
    judge(c, ss, rr)


def judge(c, ss, rr):
    recs, own = [], []
    for s, l in zip(ss, rr):
        for k, r in enumerate(l):
            if r is None:
                c.violation(f"the frame cannot be decoded ({where(s, k)})", dict(session=brief(s, k)))
                continue
            recs.append(r)
            own.append((s, k))
    out = frames_through(c, 'Envelope', recs)
    bad, cov = set(), {}
    for r, (s, k), x in zip(recs, own, out):
        for key, v in (('frames', 1), ('spectral_decided', x['info']['known']), ('filters', len(r['lpc'])), ('filters_decided', sum(l['ok'] for l in r['lpc'])),
                       ('filters_on', sum(map(bool, r['tns']))), ('near_nyquist', r['ny'] == 1), ('weighted', r['n'] * 8 < 120 * (1 + r['dt'])),
                       (f"shape_{r['shape']}", 1)):
            cov[key] = cov.get(key, 0) + int(v)
        if not x['ok'] and id(s) not in bad:
            bad.add(id(s))
            c.violation(f"{x['why']} ({where(s, k)})", dict(session=brief(s, k), record=r, spec=x))
    c.cov['envelopes'] = cov
    s, k = own[len(own) // 2]
    c.sample(dict(dt=s['dt'], sr=s['sr'], kind=s['kind'], frame=s['b'][k].hex(), verdict=out[len(own) // 2]))
