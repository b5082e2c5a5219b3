"""Decoder sessions against the specification: FrameSyntax.tla says what each
frame denotes, Decoder.tla what synthesises each frame, ref.py computes the
samples in double precision."""
import concurrent.futures, multiprocessing, os, shutil
import numpy as np
import vc, ref, syntax
from lc3 import *

PCM_TOL = 6e-6


def denote(c, sessions, ret=True):
    """Denotation of every distinct frame of the sessions -> dict (dt, sr, bytes)"""
    keys = {}
    for s in sessions:
        for b in s['frames']:
            if b is not None:
                keys.setdefault((s['dt'], s['sr'], b), None)
    ks = list(keys)
    den = syntax.parse(c, [syntax.rec(dt, sr, b) for dt, sr, b in ks])
    return dict(zip(ks, den))


def control(c, sessions, den):
    recs = []
    for s in sessions:
        fs = []
        for b in s['frames']:
            d = den[s['dt'], s['sr'], b] if b is not None else None
            ok = bool(d and d['ok'])
            f = d['f'] if ok else None
            fs.append(dict(g=int(ok), n=len(b) if b is not None else 0, pp=f['pitchp'] if ok else 0,
                           act=f['ltpf'] if ok else 0, pi=f['pitch'] if ok else 0))
        recs.append(dict(dt=s['dt'], sr=s['sr'], srp=s['srp'], frames=fs))
    d = vc.scratch()
    try:
        t = vc.tlc('Decoder', env=dict(SESSIONS=vc.ndjson(os.path.join(d, 's'), recs)))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    c.add_tlc(t)
    if t.rc:
        raise RuntimeError('Decoder.tla: ' + t.trace())
    out = [None] * len(sessions)
    for x in t.prints():
        out[x['ss'] - 1] = x['log']
    return out


def _synth(a):
    s, log, spectra, errs = a
    y = ref.Synth(s['dt'], s['sr'], s['srp'])
    r, past = [], 0.
    for c in log:
        v = y.step(c, spectra, errs)
        past = .5 * past + y.err
        r.append((v, PCM_TOL * y.scale + 8 * past))
    return r


def _spectra(a):
    dt, sr, n, d = a
    return ref.spectrum(dt, sr, n, d) if d and d['ok'] else None


def pool():
    return concurrent.futures.ProcessPoolExecutor(vc.NCPU, mp_context=multiprocessing.get_context('fork'))


def check(c, lib, sessions, what, limit=4):
    """Decode each session, compare verdicts and samples. Adds to the sessions
    `den' (denotations), `log' (control), `spec' (spectra), `pcm', `ret'."""
    den = denote(c, sessions)
    for s in sessions:
        d = lib.decoder(s['dt'], s['sr'], s['srp'])
        s['ret'], s['pcm'] = [], []
        for b in s['frames']:
            r, y = d.decode(b)
            s['ret'].append(r)
            s['pcm'].append(y)
    logs = control(c, sessions, den)
    keys = list(den)
    with pool() as ex:
        sp = dict(zip(keys, ex.map(_spectra, [(k[0], k[1], len(k[2]), den[k]) for k in keys], chunksize=16)))
        args = []
        for s, log in zip(sessions, logs):
            s['log'] = log
            s['den'] = [den[s['dt'], s['sr'], b] if b is not None else None for b in s['frames']]
            s['spec'] = [sp[s['dt'], s['sr'], b] if b is not None else None for b in s['frames']]
            args.append((dict(dt=s['dt'], sr=s['sr'], srp=s['srp']), log, {k + 1: x[1] for k, x in enumerate(s['spec']) if x is not None},
                         {k + 1: x[2] for k, x in enumerate(s['spec']) if x is not None}))
        for s, r in zip(sessions, ex.map(_synth, args, chunksize=2)):
            s['ref'] = r
    nbad = 0
    for s in sessions:
        c.traces(1)
        for k, (y, (v, tol)) in enumerate(zip(s['pcm'], s['ref'])):
            want = s['log'][k]['c']
            if s['ret'][k] != want:
                c.violation(f"{what}: lc3_decode returned {s['ret'][k]}, the frame syntax says {want}: dt={s['dt']} sr={s['sr']} srp={s['srp']} frame {k}",
                            dict(session=brief(s), frame=k))
                nbad += 1
                break
            u = np.clip(v, -32768, 32768)
            g = y.astype(np.float64) * 32768
            e = np.abs(g - u)
            c.count('samples_compared', len(g))
            if not (e <= tol).all():
                i = int(np.argmax(np.where(np.isfinite(e), e, 1e30)))
                l = s['log'][k]
                c.violation(f"{what}: dt={s['dt']} sr={s['sr']} srp={s['srp']} frame {k} sample {i}: got {g[i]:.6g}, specified {u[i]:.6g} "
                            f"(tolerance {tol:.3g}); control {dict((x, l[x]) for x in ('c', 'src', 'a9', 'a85', 'kind', 'old', 'new'))}",
                            dict(session=brief(s), frame=k, sample=i))
                nbad += 1
                break
        if nbad >= limit:
            break
    return nbad


def brief(s):
    return dict(dt=s['dt'], sr=s['sr'], srp=s['srp'], frames=[b.hex() if b is not None else None for b in s['frames']])
