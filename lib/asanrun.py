import os, sys, random
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vc, lc3, frames, session as S

path, scenario, pid = sys.argv[1:4]
rng = random.Random(f'{pid}-{vc.SEED}-asan')
lib = lc3.Lib(path, shim=False)
only = eval(os.environ.get('VERIF_ONLY', 'None'))
K = 8 if vc.THOROUGH else 1
calls = 0


def sizes(dt, sr):
    lo, hi = lc3.min_bytes(dt, sr), lc3.max_bytes(dt, sr)
    return [lo, hi, frames.rand_size(dt, sr, rng)]


for _ in range(K):
    for dt, sr in only or lc3.CONFIGS:
        for srp in lc3.pcm_rates(sr):
            print('@', dict(dt=dt, sr=sr, srp=srp), flush=True)
            if scenario in ('all', 'enc', 'dec'):
                mat = S.Material(lib, dt, sr, srp, rng, 6)
                w = S.World(lib, rng)
                if scenario != 'dec':
                    w.setup(1, 'enc', dt, sr, srp)
                    for k in range(8):
                        w.enc(1, mat.pcm[k % 6], rng.choice(sizes(dt, sr)), fmt=k % 4, stride=1 + k // 4)
                if scenario != 'enc':
                    w.setup(2, 'dec', dt, sr, srp)
                    for k in range(8):
                        b = mat.frames[rng.randrange(6)][0]
                        b = rng.choice([b, b, b, rng.choice(mat.bad), frames.mutate(b, rng), None,
                                        frames.random_content(dt, sr, rng.choice(sizes(dt, sr)), rng), rng.randbytes(20), b[:20]])
                        w.dec(2, b, fmt=k % 4, stride=1 + k // 4)
                    for _ in range(30):
                        w.dec(2, mat.frames[rng.randrange(6)][0] if rng.random() < .7 else None, fmt=0, stride=1)
                calls += len(w.ev)
            if scenario == 'syntax' and srp == sr:
                d = lib.decoder(dt, sr)
                for _ in range(30):
                    n = rng.choice([20, 21, 22, 25, lc3.max_bytes(dt, sr), frames.rand_size(dt, sr, rng)])
                    b = rng.choice([frames.random_content(dt, sr, n, rng), rng.randbytes(n), b'\xff' * n, bytes(n)])
                    d.decode(b)
                    calls += 1
print('calls', calls)
