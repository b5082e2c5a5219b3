"""C16: bandwidth signalled by encoded frames (Bandwidth.tla)"""
import numpy as np
import vc, encoder, signals
from encoder import *

CUT = [4000, 8000, 12000, 16000, 24000]


def limited(n, hz, fc, rng, tilt=True):
    """Noise up to a cut-off frequency"""
    r = np.random.default_rng(rng.getrandbits(32))
    X = np.fft.rfft(r.standard_normal(n))
    f = np.arange(len(X)) * hz / n
    X[f > fc] = 0
    if tilt and rng.random() < .3:
        X[f < rng.uniform(0, fc)] *= 10 ** rng.uniform(-3, 0)
    x = np.fft.irfft(X, n)
    return x / np.abs(x).max()


def _table(name):
    t = open(os.path.join(vc.VERIF, 'spec', 'Bandwidth.tla')).read()
    t = re.search(name + r' == (<<.*?>>)\n\n', t, re.S)[1]
    return eval(t.replace('<<', '[').replace('>>', ']'))


def decide(dt, sr, e, T):
    """Used to find inputs on the edge of decisions, which are Bandwidth.tla's"""
    R, L = T[0][dt][sr - 1], T[1][dt]
    b0 = 0
    for b, (i, j) in enumerate(R):
        if e[i:j + 1].mean() >= (20 if b == 0 else 10):
            b0 = b + 1
    if b0 == sr:
        return sr
    i0, l = R[b0][0], L[b0]
    return b0 if any(e[i - l] > [31.6227766, 199.5262315, 100, 100][b0] * e[i] for i in range(i0 - l + 1, i0 + 2)) else sr


def edges(dt, sr, rng, T):
    """Two inputs that differ by the level of a part, on both sides of a
    decision taken on their last frame"""
    n, hz, nf = ns(dt, sr), SR_HZ[sr], 4
    b = rng.randrange(sr)
    f = np.fft.rfftfreq(n * nf, 1 / hz)
    for _ in range(12):
        r = np.random.default_rng(rng.getrandbits(32))
        def noise(w):
            x = np.fft.irfft(np.fft.rfft(r.standard_normal(n * nf)) * w, n * nf)
            return x / np.abs(x).max()
        fc = CUT[b] * rng.uniform(.75, 1.1)
        A = noise(np.where(f < fc, 1, 10 ** (-rng.uniform(0, 60) / 20))) * 10 ** rng.uniform(-3.5, -.4)
        lo = rng.choice([0, fc, CUT[b] * rng.uniform(.8, 1.2)])
        B = noise(np.where(f >= lo, 1, 0)) * .5
        X = []
        for x in (A, B):
            an = encref.EncRef(dt, sr, sr).an
            for k in range(nf):
                y = an.step(encref.to_xs(FLOAT, x[k * n:(k + 1) * n].astype(np.float32)))
            X.append(y)
        d = lambda a: decide(dt, sr, encref.energies(dt, sr, X[0] + a * X[1]), T)
        u = [10 ** rng.uniform(-5, -3.2), 10 ** rng.uniform(-3.2, -1)]
        if d(u[0]) == d(u[1]):
            continue
        for _ in range(40):
            m = (u[0] * u[1]) ** .5
            u = [m, u[1]] if d(m) == d(u[0]) else [u[0], m]
        g = 1 + 10 ** rng.uniform(-2.7, -1.3)
        return [A + u[0] / g * B, A + u[1] * g * B]
    return []


def run(c):
    lib, rng = Lib(), c.rng
    T = _table('Regions'), _table('Steps')
    K = 10 if vc.THOROUGH else 1
    ss = []
    for dt, sr in CONFIGS:
        for sp in pcm_rates(sr):
            nf, n = 8, ns(dt, sp)
            for i in range((10 if sp == sr else 4) * K):
                m = i % 5
                want = -1
                fmt = rng.choice([S16, S24, FLOAT])
                if m == 0 and not hr(sr):
                    # confined to a band, well over the threshold, or using all of it
                    b = rng.randrange(sr + 1)
                    x = limited(n * nf, SR_HZ[sp], CUT[b] * .97 if b < sr else SR_HZ[sp], rng, False) * .5
                    if b == sr:
                        x = np.random.default_rng(rng.getrandbits(32)).uniform(-.7, .7, n * nf)
                    want = b if dt >= 2 or b == sr else -1      # short transforms leak past the cut-off
                    fmt = FLOAT
                elif m < 3:
                    # cut-off anywhere, level around the thresholds
                    x = limited(n * nf, SR_HZ[sp], rng.uniform(500, SR_HZ[sp] / 2), rng) * 10 ** rng.uniform(-4, -.3)
                elif m == 3:
                    # tilts and steps of spectrum near the thresholds of the drop
                    r = np.random.default_rng(rng.getrandbits(32))
                    X = np.fft.rfft(r.standard_normal(n * nf))
                    f = np.arange(len(X)) * SR_HZ[sp] / (n * nf)
                    fc = rng.choice([4000, 8000, 12000, 16000]) * rng.uniform(.85, 1.15)
                    X *= np.where(f > fc, 10 ** (-rng.uniform(10, 30) / 20), 1)
                    x = np.fft.irfft(X, n * nf)
                    x *= 10 ** rng.uniform(-4.2, -1) / np.abs(x).max()
                else:
                    x = signals.make(rng.choice(signals.KINDS), n * nf, SR_HZ[sp], rng)
                x = np.clip(x, -1, .99996)
                pcm = signals.s16(x) if fmt == S16 else signals.s24(x) if fmt == S24 else x.astype(np.float32)
                s = session(dt, sr, rng, srp=sp, kind=f'bandwidth {m}', nframes=nf, fmt=fmt, gain=1, pcm=pcm)
                s['want'] = want
                ss.append(s)
    for dt in range(4):
        for sr in range(1, 5):
            for _ in range(12 * K):
                for x in edges(dt, sr, rng, T):
                    ss.append(session(dt, sr, rng, srp=sr, kind='edge', nframes=4, fmt=FLOAT, gain=1, pcm=np.clip(x, -1, 1).astype(np.float32)))
                    ss[-1]['want'] = -1
    play(lib, ss, False)
    denote(c, ss)
    analyse(ss)
    c.log(sum(len(s['b']) for s in ss), 'frames encoded and analysed')
    recs, own = [], []
    for s in ss:
        for k, d in enumerate(s['den']):
            if not d or not d['ok']:
                c.violation(f"the frame cannot be decoded ({where(s, k)})", dict(session=brief(s, k)))
                continue
            a = s['a'][k]
            r, t = np.sqrt(a['e']), XTOL * a['peak']
            lo, hi = np.maximum(r - t, 0) ** 2 * (1 - 1e-5), (r + t) ** 2 * (1 + 1e-5)
            lg = lambda v: np.round(np.log2(np.maximum(v, 2. ** -60)) * 65536).astype(int).tolist()
            cut = lambda v: np.minimum(v * 256, 1 << 24).astype(int).tolist()
            recs.append(dict(dt=s['dt'], sr=s['sr'], bw=d['f']['bw'], want=s['want'] if k == len(s['b']) - 1 else -1,
                             last=[d['f']['bw'] for d in s['den'][2:] if d and d['ok']], el=cut(lo), eh=cut(np.ceil(hi * 256) / 256), ll=lg(lo), lh=lg(hi)))
            own.append((s, k))
    out = frames_through(c, 'Bandwidth', recs)
    bad = set()
    for r, (s, k), x in zip(recs, own, out):
        c.count('frames')
        c.count('decided', x['n'] == 1)
        c.count('narrow', r['bw'] < r['sr'])
        c.count('on_the_edge', s['kind'] == 'edge' and k == 3)
        c.count('on_the_edge_decided', s['kind'] == 'edge' and k == 3 and x['n'] == 1)
        c.count('confined_input', r['want'] != -1)
        if not x['ok'] and id(s) not in bad:
            bad.add(id(s))
            c.violation(f"{x['why']} ({where(s, k)})", dict(session=brief(s, k), frame=s['b'][k].hex(), record=r))
    s, k = own[0]
    c.sample(dict(dt=s['dt'], sr=s['sr'], kind=s['kind'], frame=s['b'][k].hex(), bw=recs[0]['bw']))
