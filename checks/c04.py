"""C04: the spectrum of a good frame. FrameSyntax.tla gives the denotation of
the frame, ref.py its numeric value; compared with the spectrum the decoder
keeps and with the samples it outputs."""
import numpy as np
import vc, frames, decref, ref
from lc3 import *

STYLES = ['typical', 'sparse', 'loud', 'escape', 'lsb', 'tns', 'short', 'zeros']


def run(c):
    lib, rng = Lib(), c.rng
    ss = []
    k = 14 if vc.THOROUGH else 1
    for dt, sr in CONFIGS:
        for st in STYLES * (4 * k):
            n = frames.rand_size(dt, sr, rng)
            if st in ('short', 'escape') and rng.random() < .5:
                n = rng.randint(20, min(60, max_bytes(dt, sr)))
            ss.append(dict(dt=dt, sr=sr, srp=sr, frames=[frames.random_content(dt, sr, n, rng, st)]))
        for _ in range(4 * k):
            o, _, _ = frames.encode_session(lib, dt, sr, rng, 5)
            for r in o[1:]:
                ss.append(dict(dt=dt, sr=sr, srp=sr, frames=[r['b']]))
        # the verdict and the spectrum do not depend on the PCM rate
        for srp in pcm_rates(sr)[1:]:
            for st in ('typical', 'tns'):
                ss.append(dict(dt=dt, sr=sr, srp=srp, frames=[frames.random_content(dt, sr, frames.rand_size(dt, sr, rng), rng, st)]))
    # FrameSyntax verdict first: keep the good ones
    den = decref.denote(c, ss)
    ss = [s for s in ss if den[s['dt'], s['sr'], s['frames'][0]]['ok']]
    # a good frame, then a lost one: everything the frame holds gets out
    for s in ss:
        s['frames'] = s['frames'] + [None]
    c.log(len(ss), 'good frames')
    orig = decref.denote
    decref.denote = lambda c_, s_: den
    try:
        decref.check(c, lib, ss, 'decoded samples of one frame')
    finally:
        decref.denote = orig
    cov = {}
    def hit(x):
        cov[x] = cov.get(x, 0) + 1
    for s in ss:
        d = s['den'][0]
        f = d['f']
        hit('frames')
        hit(f"shape{f['shape']}")
        hit('lsb_mode') if f['lsb'] else hit('residual_mode')
        hit('tns') if any(len(t) for t in f['tns']) else None
        hit('residual_bits') if len(f['res']) else None
        hit('noise_full') if f['nf'] == 0 else None
        hit('narrow') if f['bw'] < s['sr'] else None
        hit('escape') if max(map(abs, d['q']), default=0) > 15 else None
        hit('tns_two') if len(f['tns']) == 2 and all(len(t) for t in f['tns']) else None
    c.cov['features'] = cov
    s = ss[0]
    c.sample(dict(dt=s['dt'], sr=s['sr'], frame=s['frames'][0].hex(), q=s['den'][0]['q'][:12], fields={k: v for k, v in s['den'][0]['f'].items() if k not in ('res', 'rc')}))
    if lib.S is None:
        c.note('the state structures could not be read: spectra compared through the samples only')
        return
    # coefficient by coefficient
    bad, good = [], 0
    for s in ss:
        d = lib.decoder(s['dt'], s['sr'], s['srp'])
        d.decode(s['frames'][0])
        try:
            x = d.spectrum().astype(np.float64)
        except Exception:
            x = np.zeros(0)
        _, y, err = s['spec'][0]
        if len(x) != len(y):
            bad.append((s, 0, 0, 0, 0))
            continue
        e = np.abs(x - y)
        tol = 1.5e-5 * np.abs(y) + 8 * err + 1e-30
        w = np.where(~(e <= tol))[0]
        if len(w):
            bad.append((s, w[0], x[w[0]], y[w[0]], len(w) / len(y)))
        else:
            good += 1
        c.count('coefficients_compared', len(y))
    if good < len(ss) // 2 and not c.viol:
        c.note('the layout of the state is not the one known: spectra compared through the samples only')
        return
    for s, i, a, b, fr in bad[:4]:
        c.violation(f"spectrum: dt={s['dt']} sr={s['sr']} coefficient {i} is {a:.7g}, the frame denotes {b:.7g} ({fr:.0%} of the coefficients differ): frame {s['frames'][0].hex()}",
                    dict(session=decref.brief(s), coefficient=int(i)))
