"""C09: determinism, isolation, position independence; Session.tla"""
import os, re, shutil, struct, subprocess
import numpy as np
import vc, session as S
from lc3 import *


def threads(c, lib, rng, rounds):
    """Sessions run serially and on threads at once: same histories, same outputs"""
    exe = vc.build('threads', [vc.harness('threads.c')] + vc.lib_sources(), vc.CFLAGS, libs=('-lm', '-lpthread'))
    sess, traces = [], []
    cfgs = [(dt, sr) for dt, sr in CONFIGS]
    rng.shuffle(cfgs)
    for dt, sr in cfgs:
        srp = rng.choice(pcm_rates(sr))
        mat = S.Material(lib, dt, sr, srp, rng, 8)
        calls = [(mat.n1 if rng.random() < .8 else mat.n2, 0, mat.pcm[i % 8].tobytes()) for i in range(10)]
        sess.append((0, dt, sr, srp, calls))
        calls = []
        for i in range(12):
            b = rng.choice([mat.frames[i % 8][0]] * 3 + [mat.bad[0], None])
            calls.append((mat.n1, int(b is None), b or b''))
        sess.append((1, dt, sr, srp, calls))
    out = [len(sess)]
    raw = struct.pack('<i', len(sess))
    for k, dt, sr, srp, calls in sess:
        raw += struct.pack('<6i', k, hr(sr), DT_US[dt], SR_HZ[sr], SR_HZ[srp], len(calls))
        for n, lost, d in calls:
            raw += struct.pack('<3i', n, lost, len(d)) + d + bytes(-len(d) % 4)
    d = vc.scratch()
    try:
        f = os.path.join(d, 's')
        with open(f, 'wb') as fd:
            fd.write(raw)
        p = subprocess.run([exe, f, '8', str(rounds)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
    except subprocess.TimeoutExpired:
        c.violation('sessions on threads: a call does not return (not ended after 600 s)', dict(rounds=rounds))
        return []
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if p.returncode < 0:
        c.violation(f'sessions on threads: the library crashed with signal {-p.returncode}', dict(err=p.stderr.decode(errors='replace')[-2000:]))
        return []
    if p.returncode:
        raise RuntimeError('threads: ' + p.stderr.decode()[-500:])
    runs = {}
    for l in p.stdout.decode().splitlines():
        w = l.split()
        if w[0] == 'runs':
            c.count('parallel_session_runs', int(w[1]))
            continue
        runs.setdefault(int(w[1]), []).append([x.split(':') for x in w[2:]])
    for i, (k, dt, sr, srp, calls) in enumerate(sess):
        ev = []
        for r in runs[i][:40]:
            ev.append(dict(op='setup', s=1, kind='dec' if k else 'enc', dt=dt, sr=sr, srp=srp, ret=1, clean=1))
            for (n, lost, dd), (ret, h) in zip(calls, r):
                e = dict(op='dec' if k else 'enc', s=1, null=0, n=n, ret=int(ret), clean=1, wrote=1, res=S.IDS('h', h), **{'in': S.IDS('x', dd)})
                if k:
                    e.update(lost=lost, fmt=0, srp=srp, nopitch=0)
                ev.append(e)
        traces.append(ev)
    return traces


def run(c):
    lib, rng = Lib(shim=False), c.rng
    scr = S.scripts(c, 'SessionGen_Mix.cfg', sim=600 if vc.THOROUGH else 110, depth=70)
    traces = []
    for i, s in enumerate(scr):
        # half the scripts: every session in one configuration; else two configurations at once
        mats = []
        for _ in range(1 + i % 2):
            dt, sr = rng.choice(CONFIGS)
            mats.append(S.Material(lib, dt, sr, rng.choice(pcm_rates(sr)), rng))
        w = S.World(lib, rng)
        mat = lambda a: mats[a['s'] % len(mats)]
        # each session alone, then all of them as scripted
        for inc in S.incarnations(s):
            m = mat(inc[0])
            S.play(w, m, [dict(a, s=8) for a in inc], rng)
        w.slots = {}
        for a in s:
            S.play(w, mat(a), [a], rng)
        traces.append(w.ev)
    c.log(len(traces), 'behaviours', sum(map(len, traces)), 'events')
    S.validate(c, traces, 'isolation')
    c.sample(traces[0][-5:])
    # longer sessions, moved or interleaved at each call
    traces = []
    for rep in range(3 if vc.THOROUGH else 1):
        for dt, sr in CONFIGS:
            srp = rng.choice(pcm_rates(sr))
            mat = S.Material(lib, dt, sr, srp, rng, 30)
            w = S.World(lib, rng)
            seqs = {'enc': ['next'] * 30, 'dec': [rng.choice(['next', 'next', 'next', 'lost', 'bad']) for _ in range(45)]}
            for kind, seq in seqs.items():
                for v in range(4):
                    w.setup(1, kind, dt, sr, srp)
                    if v == 2:
                        w.setup(2, kind, dt, sr, srp)
                    for j, i in enumerate(seq):
                        if v == 1 and rng.random() < .6:
                            w.move(1)
                        if v == 2:
                            # another session of the same kind, with other inputs
                            S.play(w, mat, [dict(op=kind, s=2, **{'in': rng.choice(['a', 'b', 'A'] if kind == 'enc' else ['g', 'h', 'bad', 'lost'])})], rng)
                        if v == 3 and j % 5 == 0:
                            m2 = mat
                            w.setup(3, 'enc' if kind == 'dec' else 'dec', dt, sr, srp)
                            S.play(w, m2, [dict(op='dec' if kind == 'enc' else 'enc', s=3, **{'in': 'next'})] * 2, rng)
                        S.play(w, mat, [dict(op=kind, s=1, **{'in': i})], rng)
            traces.append(w.ev)
    c.log(len(traces), 'long traces', sum(map(len, traces)), 'events')
    S.validate(c, traces, 'isolation')
    tt = threads(c, lib, rng, 400 if vc.THOROUGH else 60)
    c.log(len(tt), 'threaded sessions')
    S.validate(c, tt, 'sessions on threads')
    c.note('thread interleavings are those the scheduler produced on 8 threads')
