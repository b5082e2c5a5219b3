"""C17: end to end delay (Stream.tla) on signals known at any time"""
import numpy as np
import vc, encoder, signals
from encoder import *


def stream(a):
    path, dt, sr, se, sd, seed = a
    lib = Lib(path, shim=False)
    import random
    rng = random.Random(seed)
    ne_, nd_ = ns(dt, se), ns(dt, sd)
    he, hd = SR_HZ[se], SR_HZ[sd]
    q = lib.L.lc3_hr_delay_samples(hr(sr), DT_US[dt], hd)
    N = ne_ * rng.randint(14, 20) - rng.choice([0, 1, ne_ // 2, rng.randrange(ne_)])
    De = max(lib.L.lc3_hr_delay_samples(hr(sr), DT_US[dt], he), 0)
    nf = (N + De + ne_ - 1) // ne_
    # tones all over the band of the codec, quiet enough never to clip
    fmax = .42 * SR_HZ[sr]
    # a whole number of input samples, also at the rate of the decoder
    m = 24
    f = np.array([rng.uniform(80, fmax) for _ in range(m)])
    p = np.array([rng.uniform(0, 2 * np.pi) for _ in range(m)])
    # bursts, so that the position in time is not that of a tone only
    T = N / he
    env = lambda t: (.6 + .4 * np.sin(2 * np.pi * t * 7.3 / T * 2.1)) * ((t >= -1e-9) & (t < T - 1e-9))
    x = lambda t: (.5 / m) * env(t) * np.cos(2 * np.pi * f[None, :] * t[:, None] + p).sum(1)
    pcm = np.zeros(nf * ne_, np.float32)
    pcm[:N] = x(np.arange(N) / he)
    e, d = lib.encoder(dt, sr, se), lib.decoder(dt, sr, sd)
    nb = max_bytes(dt, sr)
    y = []
    for k in range(nf):
        r, b = e.encode(pcm[k * ne_:(k + 1) * ne_], nb, FLOAT)
        y.append(np.asarray(d.decode(b, None, FLOAT)[1], np.float64).reshape(-1)[:nd_])
    y = np.concatenate(y)
    n = int(np.floor((N - 1) * hd / he)) + 1
    z0 = x(np.arange(n) / hd)
    def snr(s, lo=0., hi=1.):
        """Agreement at a delay of s samples of the output"""
        i = np.arange(int(lo * n), int(hi * n))
        j = np.round(i + s).astype(int)
        fr = s - round(s)
        z = x((i - fr) / hd) if fr else z0[i]
        ok = (j >= 0) & (j < len(y))
        err = np.where(ok, z - y[np.clip(j, 0, len(y) - 1)], z)
        return 10 * np.log10((z ** 2).sum() / ((err ** 2).sum() + 1e-20) + 1e-20)
    c = {s: snr(s) for s in range(-2, 3 * nd_)}
    best = max(c, key=c.get)
    fine = {16 * best + i: snr(best + i / 16) for i in range(-15, 16)}
    # the whole sample when nothing is clearly better
    b = max(fine, key=fine.get)
    sh = b if fine[b] > c[best] + 1 else 16 * best
    cs = lambda v: int(round(100 * max(min(v, 1e4), -1e4)))
    return dict(dt=dt, sr=sr, se=se, sd=sd, query=q, shift=sh, n=N, frames=nf, snr=cs(fine[sh]), other=cs(max(v for s, v in c.items() if abs(16 * s - sh) >= 32)),
                head=cs(snr(sh / 16, 0, .04)), tail=cs(snr(sh / 16, .96, 1)))


def run(c):
    lib = Lib(shim=False)
    jobs = []
    for dt, sr in CONFIGS:
        for se in pcm_rates(sr):
            for sd in pcm_rates(sr):
                for i in range(24 if vc.THOROUGH else 3):
                    jobs.append((lib.path, dt, sr, se, sd, c.rng.getrandbits(32)))
    with pool() as ex:
        recs = list(ex.map(stream, jobs, chunksize=2))
    c.log(len(recs), 'streams')
    out = frames_through(c, 'Stream', recs)
    for r, x, j in zip(recs, out, jobs):
        if not x['ok']:
            c.violation(f"{x['why']} (dt={r['dt']} sr={r['sr']} encoder PCM {r['se']} decoder PCM {r['sd']})", dict(record=r, seed=j[-1]))
    c.cov['streams'] = len(recs)
    c.cov['least_snr_db'] = min(r['snr'] for r in recs) / 100
    c.sample(recs[0])
    c.sample(recs[-1])
