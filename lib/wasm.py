"""The WebAssembly library, run by harness/wasm.js; sessions as those of
session.World"""
import base64, json, os, select, shutil, subprocess, tempfile
import numpy as np
import vc, session as S
from lc3 import *

# value-preserving for finite numbers
STRICT = '-std=c11 -O2 -ffp-contract=off -ffinite-math-only -fno-signed-zeros -fno-math-errno -w'.split()
FAST = '-std=c11 -O3 -ffast-math -w'.split()


class Trap(Exception):
    pass


def build(name, flags):
    inc = vc.src('wasm')
    deps = [os.path.join(inc, f) for f in sorted(os.listdir(inc))] if os.path.isdir(inc) else []
    link = ('-nostdlib', '-Wl,--no-entry', '-Wl,--export-dynamic')
    return vc.build(name, vc.lib_sources(), ['--target=wasm32', *flags, '-mbulk-memory', *link], cc='clang', libs=(), extra_deps=deps, incs=(inc,))


class Wasm:
    def __init__(self, path):
        self.p = subprocess.Popen(['node', vc.harness('wasm.js'), path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
        self.L = self
        self.info = self.ask(op='info')

    def ask(self, **q):
        self.p.stdin.write(json.dumps(q) + '\n')
        self.p.stdin.flush()
        # one answer to a question: nothing is left buffered between two
        if not select.select([self.p.stdout], [], [], 200)[0]:
            self.p.kill()
            raise Trap('a call does not return', {k: v for k, v in q.items() if k not in ('out',)})
        a = self.p.stdout.readline()
        if not a:
            raise RuntimeError('node: no answer')
        a = json.loads(a)
        if 'trap' in a:
            raise Trap(a['trap'], {k: v for k, v in q.items() if k not in ('out',)})
        return a

    def close(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        self.p.wait()

    def __getattr__(self, f):
        """Functions without pointers"""
        if not f.startswith('lc3_'):
            raise AttributeError(f)
        def g(*a):
            r = self.ask(op='call', f=f, a=[int(x) for x in a])
            if not r['clean']:
                raise Trap('writes into memory it was not given', dict(f=f, a=a))
            return r['ret']
        return g

    def setup_record(self, rng, dec, hr, us, hz, pcm, mem, plain=False):
        r = self.ask(op='setup', s=0, kind='dec' if dec else 'enc', hr=int(hr), us=us, hz=hz, pcm=pcm, size_hz=pcm if pcm > 0 else hz,
                     mem=int(mem), plain=int(plain), fill=rng.randrange(1 << 20))
        return dict(q='dsetup' if dec else 'esetup', hr=int(hr), us=us, hz=hz, pcm=pcm, mem=int(mem), plain=int(plain),
                    ret=r['ret'] if r['clean'] else 3)


class World(S.World):
    def setup(self, s, kind, dt, sr, srp, content=None, over=False):
        rng = self.rng
        pcm = SR_HZ[srp] if srp != sr or rng.random() < .5 else rng.choice([0, -1])
        r = self.lib.ask(op='setup', s=s, kind=kind, hr=int(hr(sr)), us=DT_US[dt], hz=SR_HZ[sr], pcm=pcm, size_hz=SR_HZ[srp], mem=1, plain=0,
                         fill=rng.randrange(1 << 20))
        self.slots[s] = dict(kind=kind, dt=dt, sr=sr, srp=srp, pos=0)
        self.ev.append(dict(op='setup', s=s, kind=kind, dt=dt, sr=sr, srp=srp, ret=int(r['ret'] == 1), clean=r['clean']))

    def enc(self, s, v, n, fmt=None, stride=None, null=False, bits=16):
        rng = self.rng
        fmt = fmt if fmt is not None else FLOAT if bits == 32 else rng.choice([S24, S24_3LE]) if bits == 24 else rng.randrange(4)
        stride = stride or rng.choice([1, 1, 1, 2, 3, 7])
        buf, _ = S.lay_in(v, fmt, stride, rng, bits)
        buf = buf[S.GAP:len(buf) - S.GAP]
        r = self.lib.ask(op='enc', s=s, null=int(null), fmt=fmt, stride=stride, n=int(n), pcm=base64.b64encode(buf.tobytes()).decode(), fill=rng.randrange(1 << 20))
        b = base64.b64decode(r['out']) if r['ret'] == 0 else b''
        self.ev.append(dict(op='enc', s=s, null=int(null), n=int(n), ret=r['ret'], clean=r['clean'], wrote=r['wrote'], fmt=fmt, stride=stride,
                            **{'in': S.IDS('pcm%d' % bits, np.asarray(v).tobytes())}, res=S.IDS('frame', b)))
        return r['ret'], b

    def dec(self, s, data, n=None, fmt=None, stride=None, null=False, nopitch=False):
        rng, t = self.rng, self.slots[s]
        fmt = fmt if fmt is not None else rng.choice([FLOAT, FLOAT, S16, S24, S24_3LE])
        stride = stride or rng.choice([1, 1, 1, 2, 3, 7])
        ns_ = ns(t['dt'], t['srp'])
        n = (len(data) if data is not None else 0) if n is None else n
        out, _ = S.out_buf(ns_, fmt, stride, rng)
        r = self.lib.ask(op='dec', s=s, null=int(null), fmt=fmt, stride=stride, n=int(n), gap=S.GAP, out=base64.b64encode(out.tobytes()).decode(),
                         data=base64.b64encode(data).decode() if data is not None else None)
        o = np.frombuffer(base64.b64decode(r['out']), np.uint8)
        raw, mask = S.read_out(o, ns_, fmt, stride)
        clean = r['clean'] and (out[~mask] == o[~mask]).all()
        x = S.samples(raw, fmt) if r['ret'] >= 0 else None
        f = {S16: 0, S24: 1, S24_3LE: 1, FLOAT: 3}[fmt]
        self.ev.append(dict(op='dec', s=s, null=int(null), lost=int(data is None), n=int(n), fmt=f, ret=r['ret'], clean=int(clean), wrote=int((o != out).any()),
                            srp=t['srp'], nopitch=int(nopitch), stride=stride,
                            **{'in': S.IDS('frame', data or b'')}, res=S.IDS('out%d' % f, x.tobytes()) if r['ret'] >= 0 else 0))
        return r['ret'], x

    def disable(self, s):
        if not self.lib.ask(op='disable', s=s)['clean']:
            raise Trap('writes into memory it was not given', dict(f='lc3_encoder_disable_ltpf'))
        self.ev.append(dict(op='disable', s=s))

    def move(self, s):
        self.lib.ask(op='move', s=s)
        self.ev.append(dict(op='move', s=s))
