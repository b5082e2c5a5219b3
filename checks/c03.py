"""C03: the verdict on a frame is that of FrameSyntax.tla, whatever the history."""
import vc, frames, syntax
from lc3 import *

def boundary(lib, dt, sr, rng):
    """Frames at the edge of exhaustion: the count field is moved to where the
    implementation changes its mind, and both sides are submitted."""
    n = frames.rand_size(dt, sr, rng)
    n = min(n, 150)
    b = bytearray(rng.randbytes(n)) if rng.random() < .5 else bytearray(frames.random_content(dt, sr, n, rng, 'typical'))
    neF, nb = ne(dt, sr), frames.nbits_nq(ne(dt, sr))
    bwb = 0 if hr(sr) or sr == 0 else 1 if sr == 1 else 2 if sr <= 3 else 3

    def withnq(v):
        c = bytearray(b)
        for i in range(nb):
            k = bwb + i
            m = 1 << (k % 8)
            c[n - 1 - k // 8] = (c[n - 1 - k // 8] & ~m) | (m if (v >> i) & 1 else 0)
        if bwb:
            c[n - 1] = (c[n - 1] & ~((1 << bwb) - 1)) | sr
        return bytes(c)
    d = lib.decoder(dt, sr)
    lo, hi = 0, neF // 2 - 1
    if d.decode(withnq(lo))[0] != 0:
        return [withnq(rng.randint(0, hi))]
    while hi - lo > 1:
        m = (lo + hi) // 2
        if d.decode(withnq(m))[0] == 0:
            lo = m
        else:
            hi = m
    return [withnq(v) for v in {lo, hi, max(0, lo - 1), min(neF // 2, hi + 1)}]


def corpus(lib, c, k):
    rng, out = c.rng, []
    for dt, sr in CONFIGS:
        for _ in range(2 * k):
            o, _, _ = frames.encode_session(lib, dt, sr, rng, 4)
            for r in o[1:]:
                out.append((dt, sr, r['b']))
                for _ in range(2):
                    out.append((dt, sr, frames.mutate(r['b'], rng)))
            # another configuration's frame, another length
            r = o[-1]
            ot, os_ = rng.choice(CONFIGS)
            b = r['b'][:max_bytes(ot, os_)]
            out.append((ot, os_, b))
            cut = rng.randint(20, len(r['b'])) if len(r['b']) > 20 else 20
            out.append((dt, sr, r['b'][:cut] if rng.random() < .5 else r['b'][-cut:]))
        for _ in range(20 * k):
            n = frames.rand_size(dt, sr, rng)
            out.append((dt, sr, frames.random_content(dt, sr, n, rng)))
        for _ in range(4 * k):
            out.append((dt, sr, rng.randbytes(rng.randint(20, max_bytes(dt, sr)))))
        for _ in range(6 * k):
            out += [(dt, sr, b) for b in boundary(lib, dt, sr, rng)]
        for n in (20, 21, min_bytes(dt, sr), max_bytes(dt, sr)):
            for f in (bytes(n), b'\xff' * n, frames.random_content(dt, sr, n, rng)):
                out.append((dt, sr, f))
    return out


def run(c):
    lib = Lib()
    rng = c.rng
    k = 12 if vc.THOROUGH else 1
    frs = corpus(lib, c, k)
    recs, hist = [], {}
    for dt, sr, b in frs:
        r, _ = lib.decoder(dt, sr).decode(b)
        recs.append(syntax.rec(dt, sr, b, r))
        # the verdict again, in the middle of a session at some PCM rate
        if (dt, sr) not in hist or rng.random() < .05:
            hist[dt, sr] = lib.decoder(dt, sr, rng.choice(pcm_rates(sr)))
        if rng.random() < .1:
            hist[dt, sr].decode(None)
        r2, _ = hist[dt, sr].decode(b, fmt=rng.choice([S16, S24, FLOAT]))
        c.count('verdicts_in_session')
        if r2 != r:
            c.violation(f'verdict depends on history: dt={dt} sr={sr} fresh={r} in session={r2} bytes={b.hex()}',
                        dict(frame=recs[-1], session_verdict=r2))
    c.count('implementation_good', sum(r['ret'] == 0 for r in recs))
    c.count('implementation_bad', sum(r['ret'] == 1 for r in recs))
    c.log(len(recs), 'frames')
    den = syntax.parse(c, recs, emit=True)
    why = {}
    for d in den:
        if d:
            why[d['why'] or 'good'] = why.get(d['why'] or 'good', 0) + 1
    c.cov['outcomes'] = why
    c.cov['exact_fit_frames'] = sum(1 for d in den if d and d['ok'] and d['left'] <= 1)
    i = next((i for i, d in enumerate(den) if d and d['why'] == 'shape'), 0)
    c.sample(dict(dt=recs[i]['dt'], sr=recs[i]['sr'], n=recs[i]['n'], bytes=bytes(recs[i]['b']).hex(),
                  ret=recs[i]['ret'], outcome=den[i] and (den[i]['why'] or 'good')))
    c.note('frames are compared one by one: sampled, not all byte strings')
