"""C14: attack detector (Attack.tla): sessions of any sizes, carried state and
transmitted envelopes"""
import numpy as np
import vc, encoder, signals
from encoder import *


def attacks(n, hz, rng):
    """Bursts of any level at any place"""
    r = np.random.default_rng(rng.getrandbits(32))
    t = np.arange(n) / hz
    x = r.standard_normal(n) * 10 ** rng.uniform(-4.5, -2)
    env = np.zeros(n)
    i = 0
    while i < n:
        i += int(rng.expovariate(1 / (.012 * hz))) + 1
        a, tau = 10 ** rng.uniform(-3, 0), 10 ** rng.uniform(-4, -1.5)
        m = min(n - i, int(6 * tau * hz) + 1)
        if m > 0:
            env[i:i + m] += a * np.exp(-np.arange(m) / hz / tau)
    c = np.sin(2 * np.pi * rng.uniform(300, 7500) * t) if rng.random() < .5 else r.standard_normal(n)
    return np.clip(x + env * c * rng.choice([1, 1, 1, 3]), -1, 1)


def detect(dt, sp, x):
    """First frame under attack of 16-bit samples; used to find inputs on the
    edge of detection, the decision is that of Attack.tla"""
    m, nb = (2, 3)[sp == 4], 3 if dt == 2 else 4
    lo = np.concatenate([[0, 0], x.astype(np.int64).reshape(-1, m).sum(1) >> (1 if m == 2 else 2)])
    h = (3 * lo[2:] - 4 * lo[1:-1] + lo[:-2]) >> 3
    en = an = 0
    for b, e in enumerate(((h * h) >> 5).reshape(-1, 40).sum(1).tolist()):
        a = max(an >> 2, en)
        en, an = e, a
        if (e >> 3) > a + (a >> 4):
            return b // nb
    return -1


def edge(dt, sp, nf, rng):
    """Two inputs that differ by the least change that makes an attack"""
    n = ns(dt, sp)
    r = np.random.default_rng(rng.getrandbits(32))
    for _ in range(20):
        base = r.standard_normal(n * nf) * 10 ** rng.uniform(.8, 2.5)
        # rise slowly enough not to be an attack by itself
        base *= np.minimum(1, np.exp((np.arange(n * nf) - 2.5 * n) / (.6 * n)))
        k = rng.randrange(3, nf - 1)
        blk = n // (3 if dt == 2 else 4)
        at = k * n + rng.randrange(3 if dt == 2 else 4) * blk
        sh = np.zeros(n * nf)
        m = rng.choice([blk, blk // 2, 2 * blk])
        t = np.arange(min(m, n * nf - at))
        sh[at:at + len(t)] = np.cos(rng.uniform(.1, 1.2) * t) if rng.random() < .5 else r.uniform(-1, 1, len(t))
        mk = lambda a: np.clip(np.round(base + a * sh), -32768, 32767).astype(np.int16)
        if detect(dt, sp, mk(0)) >= 0 or detect(dt, sp, mk(20000)) < 0:
            continue
        lo, hi = 0., 20000.
        for _ in range(40):
            mid = (lo + hi) / 2
            lo, hi = (lo, mid) if detect(dt, sp, mk(mid)) >= 0 else (mid, hi)
        return mk(lo), mk(hi)
    return None


def run(c):
    lib, rng = Lib(), c.rng
    K = 10 if vc.THOROUGH else 1
    ss = []
    def sizes(dt, sp, nf, sr):
        lo, hi = min_bytes(dt, sr), max_bytes(dt, sr)
        if hr(sr) or sp not in (3, 4) or dt < 2:
            return [frames.rand_size(dt, sr, rng) for _ in range(nf)]
        a = (61 if sp == 3 else 75) if dt == 2 else (81 if sp == 3 else 100)
        edge = [a - 1, a, a + 1, 149, 150, 60, 81, 99, 400, 120]
        m = rng.random()
        base = rng.choice([a, 120, 149, 140])
        return [base] * nf if m < .25 else [rng.choice(edge) for _ in range(nf)] if m < .6 else \
            [base if rng.random() < .7 else rng.choice([20, a - 1, 150, 400]) for _ in range(nf)]
    for dt in (2, 3):
        for sp in (3, 4):
            for sr in range(sp + 1):
                for i in range((12 if sr == sp else 4) * K):
                    nf = 16
                    n = ns(dt, sp)
                    fmt = rng.choice([S16, S16, S24, FLOAT])
                    kind = 'attacks' if i % 4 else rng.choice(['click', 'pulse', 'switch', 'ampmod', 'square', 'fullnoise', 'lsb'])
                    x = attacks(n * nf, SR_HZ[sp], rng) if kind == 'attacks' else signals.make(kind, n * nf, SR_HZ[sp], rng)
                    pcm = signals.s16(x) if fmt == S16 else signals.s24(x) if fmt == S24 else x.astype(np.float32)
                    ss.append(session(dt, sr, rng, srp=sp, kind=kind, nframes=nf, fmt=fmt, gain=1, sizes=sizes(dt, sp, nf, sr), pcm=pcm,
                                      disable=rng.randrange(nf) if rng.random() < .3 else None))
    # on the edge of detection
    for dt in (2, 3):
        for sp in (3, 4):
            for i in range(14 * K):
                nf = 7
                for x in edge(dt, sp, nf, rng) or ():
                    sr = sp if i % 3 else rng.randrange(sp + 1)
                    sz = rng.choice([120, 149, 130])
                    ss.append(session(dt, sr, rng, srp=sp, kind='edge', nframes=nf, fmt=S16, gain=1, sizes=[sz] * nf, pcm=x))
    # elsewhere, never
    for dt, sr in CONFIGS:
        for sp in pcm_rates(sr):
            if not (dt >= 2 and sp in (3, 4)):
                for _ in range(2 * K):
                    nf, n = 8, ns(dt, sp)
                    ss.append(session(dt, sr, rng, srp=sp, kind='attacks', nframes=nf, fmt=S16, gain=1, sizes=sizes(dt, sp, nf, sr),
                                      pcm=signals.s16(attacks(n * nf, SR_HZ[sp], rng))))
    play(lib, ss)
    denote(c, ss)
    analyse(ss)
    c.log(sum(len(s['b']) for s in ss), 'frames encoded and analysed')
    recs = []
    for s in ss:
        fr = []
        for k in range(len(s['b'])):
            st = s['st'][k]
            run_ = s['dt'] >= 2 and s['srp'] in (3, 4)
            fr.append(dict(n=s['sizes'][k], x=s['a'][k]['xt'].tolist() if run_ else [], ev=attack_evidence(s, k),
                           st=[st['en1'], st['an1'], st['p_att']] if st else []))
        recs.append(dict(dt=s['dt'], sp=s['srp'], fr=fr))
    if not recs[0]['fr'][0]['st']:
        c.note('the state structures could not be read: attacks seen through the transmitted envelopes only')
    c.log('envelopes examined')
    xs = validate(c, 'Attack', recs)
    report(c, ss, xs, 'attack detector')
    c.cov['edge_sessions'] = sum(s['kind'] == 'edge' for s in ss)
    ev = [f['ev'] for r in recs for f in r['fr']]
    c.cov['envelopes_under_attack'], c.cov['envelopes_without'] = ev.count(1), ev.count(0)
    c.cov['frames'] = len(ev)
    c.cov['attacks_carried'] = sum(1 for r in recs for f in r['fr'] if f['st'] and f['st'][2] > 0)
    s = ss[0]
    c.sample(dict(dt=s['dt'], sr=s['sr'], sizes=s['sizes'], states=[f['st'] for f in recs[0]['fr']], evidence=[f['ev'] for f in recs[0]['fr']]))
