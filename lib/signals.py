"""Test signals: float arrays in [-1, 1), any length, deterministic from an rng."""
import numpy as np

KINDS = ['silence', 'noise', 'quiet', 'tone', 'tones', 'pulse', 'square', 'click', 'sweep', 'lowband', 'speech', 'dc',
         'fullnoise', 'switch', 'lsb', 'ampmod']


def make(kind, n, hz, rng):
    t = np.arange(n) / hz
    r = np.random.default_rng(rng.getrandbits(32))
    if kind == 'silence':
        return np.zeros(n)
    if kind == 'noise':
        return np.clip(r.standard_normal(n) * 10 ** rng.uniform(-3, -0.8), -1, 0.99996)
    if kind == 'fullnoise':
        return r.uniform(-1, 0.99996, n)
    if kind == 'quiet':
        return r.integers(-3, 4, n) / 32768.
    if kind == 'lsb':
        return r.integers(-1, 2, n) / 32768. * (r.random(n) < .1)
    if kind == 'tone':
        return rng.uniform(.01, .95) * np.sin(2 * np.pi * rng.uniform(40, .49 * hz) * t + rng.uniform(0, 6))
    if kind == 'tones':
        x = sum(rng.uniform(.01, .3) * np.sin(2 * np.pi * rng.uniform(40, .48 * hz) * t) for _ in range(6))
        return np.clip(x, -1, .99996)
    if kind == 'pulse':
        p = max(2, int(hz / rng.uniform(60, 450)))
        x = np.zeros(n)
        x[::p] = rng.uniform(.2, .95)
        h = np.exp(-np.arange(200) / rng.uniform(3, 40)) * np.cos(np.arange(200) * rng.uniform(.1, 1.))
        return np.clip(np.convolve(x, h)[:n], -1, .99996)
    if kind == 'square':
        return np.where(np.sin(2 * np.pi * rng.uniform(40, 2000) * t) >= 0, .99996, -1.)
    if kind == 'click':
        x = r.standard_normal(n) * 1e-4
        for _ in range(max(1, n // int(hz * .03))):
            x[rng.randrange(n)] = rng.choice([-1, .99996, .3])
        return x
    if kind == 'sweep':
        f = np.linspace(50, .49 * hz, n)
        return .7 * np.sin(2 * np.pi * np.cumsum(f) / hz)
    if kind == 'lowband':
        x = r.standard_normal(n)
        X = np.fft.rfft(x)
        fc = rng.choice([1500, 4000, 8000, 12000, 16000])
        X[np.arange(len(X)) * hz / n > min(fc, .45 * hz)] = 0
        x = np.fft.irfft(X, n)
        return .4 * x / (np.abs(x).max() + 1e-9)
    if kind == 'speech':
        f0 = rng.uniform(80, 300) * (1 + .05 * np.sin(2 * np.pi * 3 * t))
        ph = 2 * np.pi * np.cumsum(f0) / hz
        x = sum(np.cos(k * ph) / k for k in range(1, 20) if k * 300 < hz / 2)
        env = .5 + .5 * np.sin(2 * np.pi * rng.uniform(2, 9) * t)
        x = x * env + .02 * r.standard_normal(n)
        return .6 * x / np.abs(x).max()
    if kind == 'dc':
        return np.full(n, rng.choice([-1, .5, .99996]))
    if kind == 'switch':
        x = np.concatenate([make(rng.choice(KINDS[:9]), n // 4 + 1, hz, rng) for _ in range(4)])
        return x[:n]
    if kind == 'ampmod':
        return np.sin(2 * np.pi * 440 * t) * 10 ** (-4 + 4 * (t * 8 % 1)) * .99
    raise ValueError(kind)


def s16(x):
    return np.clip(np.round(np.asarray(x) * 32768), -32768, 32767).astype(np.int16)


def s24(x):
    return np.clip(np.round(np.asarray(x) * 8388608), -8388608, 8388607).astype(np.int32)


def pack24(v):
    v = np.asarray(v, np.int32)
    return np.stack([v & 255, (v >> 8) & 255, (v >> 16) & 255], -1).astype(np.uint8).reshape(-1)
