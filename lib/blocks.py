"""The C++ and Python objects next to C sessions, for Block.tla"""
import array, ctypes as C, gc, importlib.util, numpy as np, os
import vc, frames, queries, signals, session as S
from lc3 import *

KFMT = {S16: 0, S24: 1, S24_3LE: 1, FLOAT: 3}


def share(size, n, c):
    """Of channel c, from 0"""
    return size // n + (c < size % n)


def supported(hrm, us, hz):
    return us in DT_US and hz in (SR_HZ[5:] if hrm else SR_HZ[:5]) and not (hrm and us == 7500)


def resolve(hrm, us, hz, pcm):
    """(dt, sr, srp) or None"""
    p = hz if pcm <= 0 else pcm
    if not supported(hrm, us, hz) or not supported(hrm, us, p) or p < hz:
        return None
    return DT_US.index(us), SR_HZ.index(hz, 5 if hrm else 0), SR_HZ.index(p, 5 if hrm else 0)


def cpp_lib():
    so = vc.build_lib()
    L = C.CDLL(vc.build('cppshim', [vc.harness('cppshim.cc')], ['-std=c++17', '-O2', '-fPIC', '-w'], cc='g++', shared=True,
                        libs=(so, '-Wl,-rpath,' + os.path.dirname(so))))
    vp, i = C.c_void_p, C.c_int
    for f in ('cx_enc', 'cx_dec'):
        getattr(L, f).restype = vp
        getattr(L, f).argtypes = [i] * 6
    for f in ('cx_free_enc', 'cx_free_dec', 'cx_reset_enc', 'cx_reset_dec', 'cx_disable'):
        getattr(L, f).restype = None
        getattr(L, f).argtypes = [vp]
    L.cx_encode.argtypes = [vp, i, i, vp, i, vp]
    L.cx_decode.argtypes = [vp, vp, i, i, i, vp]
    L.cx_query_enc.argtypes = L.cx_query_dec.argtypes = [vp, i, i]
    return L


def py_module():
    spec = importlib.util.spec_from_file_location('repo_lc3', vc.src('python', 'lc3.py'))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


class Cpp:
    api = 'cpp'

    def __init__(self, L, kind, hrm, us, hz, pcm, n, args=5):
        self.L, self.kind = L, kind
        self.p = (L.cx_enc if kind == 'enc' else L.cx_dec)(us, hz, pcm, n, hrm, args)

    def close(self):
        if self.p:
            (self.L.cx_free_enc if self.kind == 'enc' else self.L.cx_free_dec)(self.p)
            self.p = None

    def reset(self):
        (self.L.cx_reset_enc if self.kind == 'enc' else self.L.cx_reset_dec)(self.p)

    def disable(self):
        self.L.cx_disable(self.p)

    def query(self, q, a):
        f = self.L.cx_query_enc if self.kind == 'enc' else self.L.cx_query_dec
        return f(self.p, ['samples', 'block', 'bitrate', 'delay'].index(q), a)

    def encode(self, x, bits, size, rng):
        """x: samples of shape (ns, n)"""
        fmt = FLOAT if bits == 32 else rng.choice([S24, S24_3LE] if bits == 24 else [S16, S24, S24_3LE, FLOAT])
        buf, p = S.lay_in(x.reshape(-1), fmt, 1, rng, bits)
        b0 = buf.copy()
        room = min(max(size, 0), 8000)
        out = np.frombuffer(rng.randbytes(room + 2 * S.GAP + 700), np.uint8).copy()
        o0 = out.copy()
        r = self.L.cx_encode(self.p, fmt, rng.randrange(2), p, size, out.ctypes.data + S.GAP)
        clean = (buf == b0).all() and (out[:S.GAP] == o0[:S.GAP]).all() and (out[S.GAP + room:] == o0[S.GAP + room:]).all()
        return r, out[S.GAP:S.GAP + room].tobytes(), bool(clean), bool((out != o0).any())

    def decode(self, data, size, fmt, n, ns_, rng):
        out, p = S.out_buf(ns_ * n, fmt, 1, rng)
        o0 = out.copy()
        if data is None:
            ip = ib = None
        else:
            ib = np.frombuffer(rng.randbytes(S.GAP) + data + rng.randbytes(S.GAP), np.uint8).copy()
            i0, ip = ib.copy(), ib.ctypes.data + S.GAP
        r = self.L.cx_decode(self.p, ip, size, fmt, rng.randrange(2), p)
        raw, mask = S.read_out(out, ns_ * n, fmt, 1)
        clean = (out[~mask] == o0[~mask]).all() and (ib is None or (ib == i0).all())
        x = S.samples(raw, fmt).reshape(ns_, n)
        return r, x, bool(clean), bool((out != o0).any())


class Py:
    api = 'py'

    def __init__(self, M, path, kind, hrm, us, hz, pcm, n, args=5):
        self.M, self.kind = M, kind
        cls = M.Encoder if kind == 'enc' else M.Decoder
        k = {} if pcm == 0 and args != 5 else {('input' if kind == 'enc' else 'output') + '_sample_rate_hz': pcm if pcm else None}
        if hrm or args == 5:
            k['hrmode'] = bool(hrm)
        if n != 1 or args >= 4:
            k['num_channels'] = n
        self.o = cls(us, hz, libpath=path, **k)

    def close(self):
        self.o = None

    def query(self, q, a):
        try:
            return dict(samples=lambda: self.o.get_frame_samples(), block=lambda: self.o.get_frame_bytes(a),
                        bitrate=lambda: self.o.resolve_bitrate(a), delay=lambda: self.o.get_delay_samples())[q]()
        except self.M.InvalidArgumentError:
            return -1
        except Exception:
            return -3

    def encode(self, x, bits, size, rng, depth='any'):
        """x: samples of shape (m, n), m any"""
        if depth == 'any':
            depth = None if bits == 32 else rng.choice([24] if bits == 24 else [16, 24, None])
        v = x.reshape(-1)
        if depth is None:
            f = (v if bits == 32 else v / float(1 << (bits - 1))).astype(np.float32)
            a = rng.choice([lambda: f.tolist(), lambda: tuple(f.tolist()), lambda: array.array('f', f.tobytes()), lambda: iter(f.tolist()),
                            lambda: f.tobytes(), lambda: memoryview(array.array('f', f.tobytes()))])()
        else:
            b = v.astype(np.int16).tobytes() if depth == 16 else signals.pack24(v.astype(np.int32) * (256 if bits == 16 else 1)).tobytes()
            a = rng.choice([bytes, bytearray, memoryview])(b)
        keep = bytes(a) if isinstance(a, bytearray) else None
        try:
            # the default of the bit depth is no bit depth
            r = self.o.encode(a, size) if depth is None and rng.random() < .5 else self.o.encode(a, size, depth)
        except ValueError as e:
            return -1, b'', size < 0 or isinstance(e, self.M.InvalidArgumentError), False
        except Exception:
            # not of the documented ones
            return -3, b'', False, False
        ok = isinstance(r, bytes) and len(r) == max(size, 0) and (keep is None or keep == a)
        return 0, bytes(r), ok, True

    def decode(self, data, size, fmt, n, ns_, rng):
        """fmt: S16, S24_3LE or FLOAT"""
        a = rng.choice([bytes, bytearray, memoryview])(data)
        try:
            r = self.o.decode(a) if fmt == FLOAT and rng.random() < .5 else self.o.decode(a, {S16: 16, S24_3LE: 24, FLOAT: None}[fmt])
        except ValueError as e:
            return -1, None, isinstance(e, self.M.InvalidArgumentError), False
        except Exception:
            return -3, None, False, False
        ok = bytes(a) == data
        if fmt == FLOAT:
            ok = ok and isinstance(r, array.array) and r.typecode == 'f'
        else:
            ok = ok and isinstance(r, bytes)
        b = np.frombuffer(r.tobytes() if isinstance(r, array.array) else bytes(r), np.uint8)
        # every sample, and no other
        want = ns_ * n * FMT_SIZE[fmt]
        ok = ok and len(b) == want
        b = np.concatenate([b, np.zeros(want, np.uint8)])[:want]
        return 0, S.samples(b.reshape(ns_ * n, FMT_SIZE[fmt]), fmt).reshape(ns_, n), ok, True


class BWorld(S.World):
    """C sessions and objects; records the events"""

    def __init__(self, lib, rng, make):
        super().__init__(lib, rng)
        self.make, self.objs = make, {}

    def new(self, o, kind, hrm, us, hz, pcm, n, args=5):
        if o in self.objs:
            self.objs[o]['x'].close()
        err, x = 0, None
        api = self.make.api
        try:
            x = self.make(kind, hrm, us, hz, pcm, n, args)
        except ValueError as e:
            err = 1 if api == 'cpp' or isinstance(e, self.make.M.InvalidArgumentError) else 2
        except Exception:
            if api == 'cpp':
                raise
            err = 2
        self.ev.append(dict(op='new', o=o, api=api, kind=kind, hr=int(hrm), us=us, hz=hz, pcm=pcm, n=n, err=err))
        if x is not None:
            self.objs[o] = dict(x=x, kind=kind, n=n, cfg=resolve(hrm, us, hz, pcm), args=(hrm, us, hz, pcm, n))
        return x is not None

    def drop(self, o):
        self.objs.pop(o)['x'].close()

    def reset(self, o):
        self.objs[o]['x'].reset()
        self.ev.append(dict(op='reset', o=o))

    def bdisable(self, o):
        self.objs[o]['x'].disable()
        self.ev.append(dict(op='bdisable', o=o))

    def benc(self, o, x, size, bits=16, full=None, pre=0, **k):
        """full: the samples the object takes, where they are not all given"""
        t = self.objs[o]
        r, b, clean, wrote = t['x'].encode(x, bits, size, self.rng, **k)
        v = x if full is None else full
        n, res, at = t['n'], [], 0
        for c in range(n):
            m = share(size, n, c) if size > 0 else 0
            res.append(S.IDS('frame', b[at:at + m]))
            at += m
        self.ev.append(dict(op='benc', o=o, ins=[S.IDS('pcm%d' % bits, np.ascontiguousarray(v[:, c]).tobytes()) for c in range(n)],
                            size=int(size), ret=int(r), res=res, clean=int(clean), wrote=int(wrote), pre=pre))
        return r, b

    def bdec(self, o, data, size=None, fmt=None, pre=0):
        t = self.objs[o]
        n = t['n']
        size = len(data) if size is None else size
        ns_ = ns(t['cfg'][0], t['cfg'][2]) if t['cfg'] else 480
        fmt = fmt if fmt is not None else self.rng.choice([S16, S24_3LE, FLOAT] + ([S24] if t['x'].api == 'cpp' else []))
        r, x, clean, wrote = t['x'].decode(data, size, fmt, n, ns_, self.rng)
        ins, at = [], 0
        for c in range(n):
            m = share(size, n, c) if size > 0 and data is not None else 0
            ins.append(S.IDS('frame', data[at:at + m]) if data is not None else 0)
            at += m
        f = KFMT[fmt]
        res = [S.IDS('out%d' % f, np.ascontiguousarray(x[:, c]).tobytes()) if x is not None else 0 for c in range(n)]
        self.ev.append(dict(op='bdec', o=o, ins=ins, lost=int(data is None), size=int(size), fmt=f, ret=int(r), res=res, clean=int(clean),
                            wrote=int(wrote), pre=pre))
        return r, x

    def held(self, o, nbytes):
        self.ev.append(dict(op='held', o=o, bytes=int(nbytes)))


def query_records(x, kind, hrm, us, hz, pcm, n, rng, old=False):
    """Queries of the object, as the calls of the C functions they stand for"""
    p = hz if pcm <= 0 else pcm
    R = []

    def rec(q, hz, a=0):
        R.append(dict(q=q, hr=int(hrm), us=us, hz=hz, nch=n, a=a, plain=0, ret=int(x.query(q, a))))
    rec('samples', p)
    rec('delay', p)
    if old:
        # the bitrate goes to each channel by itself: whole bytes
        d = 1 + DT_US.index(us)
        for a in [0, 2**31 - 1, -1] + [n * ((3200 * m + d - 1) // d) for m in (20, 40, 41, 97, 120, 155)]:
            rec('block', hz, a)
    else:
        for a in [0, 2**31 - 1, -1, 1, rng.randrange(16000, 700000), rng.randrange(1 << 22), n * rng.randrange(20000, 320000)]:
            rec('block', hz, a)
    for a in [0, -1, 20, 400, 2**31 - 1, rng.randrange(20, 700), rng.randrange(20, 400) * n]:
        rec('bitrate', hz, a)
    return R
