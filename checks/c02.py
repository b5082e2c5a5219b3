"""C02: set-up acceptance (Queries.tla), memory bounds, and independence of the
previous content of the block (Session.tla)"""
import os, re, subprocess
import vc, asan, session as S
from queries import *


def static_types(c, lib):
    """The static memory types hold the sessions they are meant for"""
    src = os.path.join(vc.BUILD, 'statictypes.c')
    os.makedirs(vc.BUILD, exist_ok=True)
    with open(src, 'w') as f:
        f.write('#include <stdio.h>\n#include <lc3.h>\nint main(void) {\n')
        for n in ('encoder_mem_16k', 'encoder_mem_48k', 'decoder_mem_16k', 'decoder_mem_48k'):
            f.write(f'printf("{n} %zu\\n", sizeof(lc3_{n}_t));\n')
        for us in US:
            for hz in HZ:
                f.write(f'{{ LC3_ENCODER_MEM_T({us}, {hz}) e; LC3_DECODER_MEM_T({us}, {hz}) d; printf("e {us} {hz} %zu\\nd {us} {hz} %zu\\n", sizeof(e), sizeof(d)); }}\n')
        f.write('return 0; }\n')
    exe = vc.build('statictypes', [src], ['-std=c11', '-w'])
    out = subprocess.run([exe], stdout=subprocess.PIPE, text=True, check=True).stdout
    sz = {}
    for l in out.splitlines():
        *k, v = l.split()
        sz[tuple(k)] = int(v)
    todo = []
    for dt, sr in CONFIGS:
        for srp in pcm_rates(sr):
            for kind, t in (('enc', 'encoder'), ('dec', 'decoder')):
                hz = SR_HZ[srp]
                if not hr(sr):
                    if hz <= 16000:
                        todo.append((kind, dt, sr, srp, sz[f'{t}_mem_16k',]))
                    if hz <= 48000:
                        todo.append((kind, dt, sr, srp, sz[f'{t}_mem_48k',]))
                todo.append((kind, dt, sr, srp, sz[kind[0], str(DT_US[dt]), str(hz)]))
    return todo


class Sized(S.World):
    """A world whose blocks have the size of the static types"""
    forced = None

    def size(self, *a):
        return self.forced or S.World.size(self, *a)


def run(c):
    lib, rng = Lib(shim=False), c.rng
    # set-up records
    recs = []
    PCM = HZ + [0, -1, -48000, 44100, 1, IMAX, IMIN, 11025, 96001]
    for dec in (0, 1):
        for h in (False, True):
            for us in US + BAD_US:
                for hz in HZ + BAD_HZ:
                    deep = us in US and hz in HZ
                    for pcm in PCM if deep else rng.sample(PCM, 2):
                        for mem in (True, False) if deep else (True,):
                            recs.append(setup_record(lib, dec, h, us, hz, pcm, mem))
                            if not h and deep:
                                recs.append(setup_record(lib, dec, h, us, hz, pcm, mem, plain=True))
    c.log(len(recs), 'set-ups')
    validate(c, recs)
    c.count('setups_accepted', sum(r['ret'] == 1 for r in recs))
    c.sample(recs[rng.randrange(len(recs))])

    # blocks of the announced sizes, dirty, reused, and of the static types
    traces = []
    st = static_types(c, lib)
    by = {}
    for kind, dt, sr, srp, size in st:
        by.setdefault((kind, dt, sr, srp), []).append(size)
    for _ in range(4 if vc.THOROUGH else 1):
        for (kind, dt, sr, srp), szs in by.items():
            mat = S.Material(lib, dt, sr, srp, rng, 8)
            w = Sized(lib, rng)
            n = 6 + (rng.random() < .3) * 30
            script = [dict(op='setup', s=1, kind=kind)]
            for _ in range(n):
                script.append(dict(op=kind, s=1, **{'in': rng.choice(['next', 'next', 'a', 'b', 'A'] if kind == 'enc' else ['next', 'next', 'g', 'h', 'bad', 'lost'])}))
            # fresh zeroed memory first, then dirty blocks of each size, then over a session in progress
            w.forced = None
            for v in range(3 + len(szs)):
                w.forced = szs[v - 3] if v >= 3 else None
                if v != 2:
                    w.slots = {}
                if v == 0:
                    w.setup(1, kind, mat.dt, mat.sr, mat.srp, content=0)
                    S.play(w, mat, script[1:], rng)
                elif v == 2:
                    w.setup(1, kind, mat.dt, mat.sr, mat.srp, over=True)
                    S.play(w, mat, script[1:], rng)
                else:
                    S.play(w, mat, script, rng)
            traces.append(w.ev)
    c.log(len(traces), 'traces,', sum(map(len, traces)), 'events')
    S.validate(c, traces, 'set-up on used memory, or bounds of the block')
    c.count('session_events', sum(map(len, traces)))
    if not c.viol:
        asan.run(c, 'all')
    c.note('calls under AddressSanitizer use heap blocks of exactly the announced sizes')
