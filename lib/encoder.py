"""Encoder sessions: played on the code under test, frames denoted by
FrameSyntax.tla, inputs analysed by encref.py; the encoder specifications
compare the two."""
import concurrent.futures, multiprocessing, os, re, shutil
import numpy as np
import vc, encref, frames, ref, signals, syntax
from lc3 import *

XTOL = 1.5e-6       # single precision of the transform, relative to its peak


def samples(kind, n, hz, fmt, rng, gain=1.):
    """Input values of a format"""
    x = signals.make(kind, n, hz, rng) * gain
    if fmt == S16:
        return signals.s16(x)
    if fmt in (S24, S24_3LE):
        return signals.s24(x)
    return x.astype(np.float32)


def session(dt, sr, rng, srp=None, kind=None, nframes=8, fmt=None, sizes=None, disable=None, gain=None, pcm=None):
    srp = (sr if rng.random() < .6 else rng.choice(pcm_rates(sr))) if srp is None else srp
    kind = kind or rng.choice(signals.KINDS)
    fmt = rng.choice([S16, S16, S24, FLOAT]) if fmt is None else fmt
    if gain is None:
        gain = rng.choice([1, 1, 1, .1, .01, 1])
    if sizes is None:
        sz = frames.rand_size(dt, sr, rng)
        m = rng.random()
        sizes = [sz] * nframes if m < .5 else [frames.rand_size(dt, sr, rng) for _ in range(nframes)] if m < .8 else \
            [rng.choice([min_bytes(dt, sr), max_bytes(dt, sr), sz]) for _ in range(nframes)]
    n = ns(dt, srp)
    if pcm is None:
        pcm = samples(kind, n * nframes, SR_HZ[srp], fmt, rng, gain)
    return dict(dt=dt, sr=sr, srp=srp, kind=kind, fmt=fmt, sizes=sizes, pcm=pcm, disable=disable, gain=gain)


def corpus(rng, per=8, nframes=8, configs=CONFIGS, kinds=None):
    ss = []
    for dt, sr in configs:
        for i in range(per):
            k = (kinds or signals.KINDS)
            ss.append(session(dt, sr, rng, kind=k[(i + rng.randrange(len(k))) % len(k)], nframes=nframes,
                              disable=rng.randrange(nframes) if rng.random() < .1 else None))
    return ss


def play(lib, ss, state=True):
    """Encode: adds b[k], r[k], st[k]"""
    state = state and lib.S is not None
    for s in ss:
        e = lib.encoder(s['dt'], s['sr'], s['srp'])
        n = ns(s['dt'], s['srp'])
        s['b'], s['r'], s['st'] = [], [], []
        for k, sz in enumerate(s['sizes']):
            if s['disable'] == k:
                e.disable_ltpf()
            v = s['pcm'][k * n:(k + 1) * n]
            if s['fmt'] == S24_3LE:
                v = signals.pack24(v)
            r, b = e.encode(v, sz, s['fmt'])
            s['b'].append(b)
            s['r'].append(r)
            s['st'].append(e.state() if state else None)


def denote(c, ss, enc=0, ret=-1):
    recs = [syntax.rec(s['dt'], s['sr'], b, ret, enc) for s in ss for b in s['b']]
    den = syntax.parse(c, recs)
    i = 0
    for s in ss:
        s['den'] = den[i:i + len(s['b'])]
        i += len(s['b'])


def _analyse(a):
    dt, sr, srp, fmt, pcm, nf = a
    E = encref.EncRef(dt, sr, srp)
    n = ns(dt, srp)
    out = []
    for k in range(nf):
        x = E.step(fmt, pcm[k * n:(k + 1) * n])
        x['wrapped'] = E.pitch.wrapped
        out.append(x)
    return out


def analyse(ss):
    with pool() as ex:
        for s, a in zip(ss, ex.map(_analyse, [(s['dt'], s['sr'], s['srp'], s['fmt'], s['pcm'], len(s['sizes'])) for s in ss], chunksize=4)):
            s['a'] = a


def pool():
    return concurrent.futures.ProcessPoolExecutor(vc.NCPU, mp_context=multiprocessing.get_context('fork'))


def brief(s, k=None):
    """What it takes to replay"""
    n = ns(s['dt'], s['srp'])
    m = len(s['sizes']) if k is None else k + 1
    return dict(dt=s['dt'], sr=s['sr'], srp=s['srp'], fmt=s['fmt'], kind=s['kind'], sizes=s['sizes'][:m], disable=s['disable'],
                pcm=np.asarray(s['pcm'][:m * n]).tolist(), frames=[b.hex() for b in s.get('b', [])[:m]])


def where(s, k):
    return f"dt={s['dt']} sr={s['sr']} pcm={s['srp']} fmt={s['fmt']} kind={s['kind']} gain={s['gain']} frame {k} of {s['sizes'][k]} bytes"


# ---------------------------------------------------------------------------
#  Spectrum in quantiser units, with the tolerance of single precision
# ---------------------------------------------------------------------------

def spectrum(s, k):
    """-> (shaped and TNS filtered spectrum y, tolerance on it), or None"""
    d, a = s['den'][k], s['a'][k]
    if not d or not d['ok']:
        return None
    f, dt, sr = d['f'], s['dt'], s['sr']
    sh = ref.shaping(dt, sr, f)
    x = a['X'] / sh
    y = ref.tns_forward(dt, f['bw'], f, x)
    t = XTOL * a['peak'] / sh
    m = t.copy()
    for j in range(1, 9):
        m[j:] = np.maximum(m[j:], t[:-j])
    amp = np.ones(len(x))
    for (i0, i1), rc in zip(ref.tns_ranges(dt, f['bw']), ref.tns_rc(f)):
        amp[i0:i1] = min(np.prod([1 + abs(r) for r in rc]), 16) if rc else 1
    loc = np.abs(x)
    for j in range(1, 9):
        loc[j:] = np.maximum(loc[j:], np.abs(x)[:-j])
    return y, m * amp + 1e-6 * loc * amp + 1e-12


def magnitudes(y, tol, g, h):
    """Bounds of the quantised magnitudes at gain g"""
    z, t = np.abs(y) / g, tol / g
    off = .5 if h else .375
    return np.floor(np.maximum(z - t, 0) + off).astype(np.int64), np.floor(z + t + off).astype(np.int64)


def qrecord(s, k):
    """Record of Quantiser.tla, or None"""
    r = spectrum(s, k)
    if r is None:
        return None
    (y, tol), d = r, s['den'][k]
    f, h, n = d['f'], hr(s['sr']), s['sizes'][k]
    g = ref.gain(s['sr'], n, f['g'])
    lo, hi = magnitudes(y, tol, g, h)
    z, t = np.abs(y) / g, tol / g
    q = np.array(d['q'])
    nq = len(q)
    def ints(v, m):
        return np.clip(v, -m, m).astype(np.int64).tolist()
    li, ln = f['rc'] if f['lsb'] else (0, 0)
    return dict(dt=s['dt'], sr=s['sr'], n=n, bw=f['bw'], nq=nq, lsb=f['lsb'], pitchp=f['pitchp'], nf=f['nf'], tns=f['tns'],
                res=list(f['res']), li=li, ln=ln, q=np.abs(q).tolist(), neg=(q < 0).astype(int).tolist(),
                sg=(((y[:nq] < 0) == (q < 0)) | (z[:nq] < t[:nq])).astype(int).tolist(),
                d=ints(np.round((z[:nq] - np.abs(q)) * 2 ** 20), 2 ** 29), t=ints(np.ceil(t[:nq] * 2 ** 20) + 1, 2 ** 29),
                lo=ints(lo, 1 << 24), hi=ints(hi, 1 << 24),
                zl=ints(np.floor(np.maximum(z - t, 0) * 4096), 1 << 21), zh=ints(np.ceil((z + t) * 4096), 1 << 21))


def frames_through(c, module, recs, chunk=1500):
    """Runs a frame specification; returns the verdict of each record"""
    d = vc.scratch()
    out = [None] * len(recs)
    try:
        for lo in range(0, len(recs), chunk):
            p = vc.ndjson(os.path.join(d, 'f.ndjson'), recs[lo:lo + chunk])
            t = vc.tlc(module, env=dict(FRAMES=p))
            c.add_tlc(t)
            if t.rc:
                raise RuntimeError(f'{module}: ' + t.trace())
            for x in t.prints():
                out[lo + x['fr'] - 1] = x
            os.unlink(p)
        if None in out:
            raise RuntimeError(f'{module}: {out.count(None)} records without a verdict')
        c.traces(len(recs))
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------------------
#  Sessions through a trace specification: TLC prints, for each frame that is
#  not a step of the specification, why
# ---------------------------------------------------------------------------

def validate(c, module, recs, cfg=None, timeout=800, chunks=None, count=None):
    """Runs `module` on the records (one behaviour each) in parallel chunks;
    returns the values it prints, with x['i'] = index of the record"""
    if not recs:
        return []
    chunks = min(chunks or vc.NCPU, len(recs))
    d = vc.scratch()
    try:
        def one(j):
            part = list(range(j, len(recs), chunks))
            p = vc.ndjson(os.path.join(d, f'{j}.ndjson'), [recs[i] for i in part])
            t = vc.tlc(module, cfg, env=dict(TRACE=p), workers=1, timeout=timeout, mem='3g')
            return part, t
        out = []
        with concurrent.futures.ThreadPoolExecutor(vc.NCPU) as ex:
            for part, t in ex.map(one, range(chunks)):
                c.add_tlc(t)
                if t.rc:
                    raise RuntimeError(f'{module}: ' + t.trace())
                for x in t.prints():
                    x['i'] = part[x['tr'] - 1]
                    out.append(x)
        c.traces(len(recs) if count is None else count)
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def report(c, ss, xs, what):
    """Violations of the frames the specification refused"""
    seen = set()
    for x in sorted(xs, key=lambda x: (x['i'], x.get('k', 0))):
        s = ss[x['i']]
        if id(s) in seen:
            continue
        seen.add(id(s))
        k = x.get('k', 1) - 1
        c.violation(f"{what}: {x['why']} ({where(s, k)}) {x.get('info', '')}", dict(session=brief(s, k), spec=x))


def quantiser(c, q, w):
    """Frame records through Quantiser.tla"""
    out = frames_through(c, 'Quantiser', q)
    c.log('quantisation checked')
    bad, cov = set(), {}
    for r, (s, k), x in zip(q, w, out):
        for key, v in (('frames', 1), ('truncated', x['full']), ('least_significant_bits', r['lsb']), ('decided_to_the_end', x['full'] or x['seen'] >= ne(r['dt'], r['sr'])),
                       ('coefficients', r['nq']), ('residual_bits', len(r['res'])), ('empty', r['nq'] == 2 and not any(r['q']))):
            cov[key] = cov.get(key, 0) + int(v)
        if not x['ok'] and id(s) not in bad:
            bad.add(id(s))
            c.violation(f"encoded frame: {x['why']} ({where(s, k)})", dict(session=brief(s, k), frame=s['b'][k].hex(), quantiser=x))
    c.cov['quantiser'] = cov
    if q:
        s, k = w[len(w) // 2]
        c.sample(dict(dt=s['dt'], sr=s['sr'], kind=s['kind'], frame=s['b'][k].hex(), nq=q[len(w) // 2]['nq'], verdict=out[len(w) // 2]))


# ---------------------------------------------------------------------------
#  What the transmitted spectral envelope tells
# ---------------------------------------------------------------------------

STOL = 2e-3         # on squared distances of scale factors


def sns_excess(s, k, att):
    """By how much the transmitted envelope is farther from its target than
    the nearest one: (first half, second half, both stages)"""
    f, dt, sr = s['den'][k]['f'], s['dt'], s['sr']
    t = encref.sns_target(dt, sr, s['sizes'][k], s['a'][k]['e'], att)
    lf, hf = encref.sns_choice(t)
    best, own = encref.sns_stage2(t, f['lf'], f['hf'], f)
    return lf[f['lf']] - lf.min(), hf[f['hf']] - hf.min(), own - min(b[0] for b in best)


def near_nyquist(s, k):
    """Energy concentrated near Nyquist: 0, 1, or 2 when not known"""
    a = s['a'][k]
    hi, lo = a['nn']
    t = XTOL * a['peak'] * len(a['e']) ** .5
    def gt(c):
        return (max(np.sqrt(hi) + c * t, 0)) ** 2 > 30 * max(np.sqrt(lo) - c * t, 0) ** 2
    return 2 if gt(1) != gt(-1) or abs(hi - 30 * lo) < 1e-4 * hi else int(hi > 30 * lo)


def attack_evidence(s, k):
    """1: only an envelope under attack, 0: only one without, -1: unknown"""
    d = s['den'][k]
    if not d or not d['ok']:
        return -1
    c = [max(sns_excess(s, k, a)) <= STOL for a in (0, 1)]
    return 1 if c == [False, True] else 0 if c == [True, False] else -1


# ---------------------------------------------------------------------------
#  Frames found in long sessions
# ---------------------------------------------------------------------------

def mine(c, rng, count, keep, recipes=(0, 1, 2, 3)):
    """Sessions of two frames, the second of them encoded in the course of a
    long session: s['b'][1]"""
    exe = vc.build('miner', [vc.harness('miner.c')] + vc.lib_sources(), vc.CFLAGS)
    d = vc.scratch()
    try:
        jobs = [(dt, sr, r, rng.randrange(1 << 30)) for dt, sr in CONFIGS for r in recipes]
        def one(j):
            i, (dt, sr, r, seed) = j
            p = os.path.join(d, str(i))
            m = max(200, int(count * 160 / max(160, ns(dt, sr))))
            x = vc.subprocess.run([exe, str(int(hr(sr))), str(DT_US[dt]), str(SR_HZ[sr]), str(r), str(seed), str(m), str(keep), p], timeout=600)
            if -x.returncode in (4, 6, 7, 8, 11):
                raise ValueError(f'the library crashed with signal {-x.returncode} ({DT_US[dt]} us, {SR_HZ[sr]} Hz, inputs {r} of seed {seed})')
            if x.returncode:
                raise RuntimeError(f'miner: {x.returncode}')
            with open(p, 'rb') as f:
                return m, f.read()
        ss = []
        with concurrent.futures.ThreadPoolExecutor(vc.NCPU) as ex:
            for (dt, sr, r, seed), (m, b) in zip(jobs, ex.map(one, enumerate(jobs))):
                n = ns(dt, sr)
                sz = 16 + 4 * n + 640
                c.count('mined_from_frames', m)
                seen = set()
                for o in range(0, len(b), sz):
                    h = np.frombuffer(b[o:o + 16], np.int32)
                    if int(h[1]) in seen:
                        continue
                    seen.add(int(h[1]))
                    ss.append(dict(dt=dt, sr=sr, srp=sr, kind=f'mined recipe {r} seed {seed} frame {h[1]}', fmt=S16, sizes=[int(h[2])] * 2, disable=None, gain=1,
                                   pcm=np.frombuffer(b[o + 16:o + 16 + 4 * n], np.int16).copy(), ret=int(h[3]),
                                   b=[b'', b[o + 16 + 4 * n:o + 16 + 4 * n + int(h[2])]]))
        return ss
    finally:
        shutil.rmtree(d, ignore_errors=True)


def denote_mined(c, ss):
    den = syntax.parse(c, [syntax.rec(s['dt'], s['sr'], s['b'][1], s['ret'], 1) for s in ss])
    for s, d in zip(ss, den):
        s['den'] = [None, d]
