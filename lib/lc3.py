"""The code under test through ctypes: the public API, plus read access to the
public state structures through harness/shim.c."""
import ctypes as C, numpy as np, os
import vc

DT_US = [2500, 5000, 7500, 10000]
SR_HZ = [8000, 16000, 24000, 32000, 48000, 48000, 96000]
NS2 = [20, 40, 60, 80, 120, 120, 240]
NE2 = [20, 40, 60, 80, 100, 120, 240]
NS4 = [32, 64, 96, 128, 192, 192, 384]
HRLIM = [[(27, 210), (31, 210)], [(46, 375), (54, 375)], None, [(78, 625), (93, 625)]]
CONFIGS = [(dt, sr) for dt in range(4) for sr in range(7) if not (sr >= 5 and dt == 2)]
S16, S24, S24_3LE, FLOAT = range(4)
FMT_SIZE = [2, 4, 3, 4]


def hr(sr):
    return sr >= 5


def ns(dt, sr):
    return (1 + dt) * NS2[sr]


def ne(dt, sr):
    return (1 + dt) * NE2[sr]


def nd(dt, sr):
    return (ns(dt, sr) + (NS4[sr] if dt == 2 else NS2[sr])) // 2


def min_bytes(dt, sr):
    return HRLIM[dt][sr - 5][0] if hr(sr) else 20


def max_bytes(dt, sr):
    return HRLIM[dt][sr - 5][1] if hr(sr) else 400


def pcm_rates(sr):
    """PCM rates allowed with a codec rate"""
    return [s for s in range(7) if hr(s) == hr(sr) and s >= sr]


class Lib:
    def __init__(self, path=None, shim=True):
        self.path = path or vc.build_lib()
        L = self.L = C.CDLL(self.path)
        i, vp, b = C.c_int, C.c_void_p, C.c_bool
        for n in ('lc3_setup_encoder', 'lc3_setup_decoder', 'lc3_hr_setup_encoder', 'lc3_hr_setup_decoder'):
            getattr(L, n).restype = vp
        L.lc3_hr_setup_encoder.argtypes = [b, i, i, i, vp]
        L.lc3_hr_setup_decoder.argtypes = [b, i, i, i, vp]
        L.lc3_setup_encoder.argtypes = [i, i, i, vp]
        L.lc3_setup_decoder.argtypes = [i, i, i, vp]
        L.lc3_encode.argtypes = [vp, i, vp, i, i, vp]
        L.lc3_decode.argtypes = [vp, vp, i, i, vp, i]
        L.lc3_encoder_disable_ltpf.argtypes = [vp]
        L.lc3_encoder_disable_ltpf.restype = None
        for n in ('encoder_size', 'decoder_size'):
            getattr(L, 'lc3_' + n).restype = C.c_uint
            getattr(L, 'lc3_' + n).argtypes = [i, i]
            getattr(L, 'lc3_hr_' + n).restype = C.c_uint
            getattr(L, 'lc3_hr_' + n).argtypes = [b, i, i]
        L.lc3_hr_frame_samples.argtypes = [b, i, i]
        L.lc3_hr_frame_bytes.argtypes = [b, i, i, i]
        L.lc3_hr_frame_block_bytes.argtypes = [b, i, i, i, i]
        L.lc3_hr_resolve_bitrate.argtypes = [b, i, i, i]
        L.lc3_hr_delay_samples.argtypes = [b, i, i]
        self.S = None
        if shim:
            try:
                self.S = C.CDLL(vc.build('shim', [vc.harness('shim.c')], vc.CFLAGS, shared=True))
                self.S.shim_enc.argtypes = self.S.shim_dec.argtypes = [vp, vp, vp]
            except RuntimeError:
                self.S = None

    def encoder(self, dt, sr, sr_pcm=None, **k):
        return Encoder(self, dt, sr, sr if sr_pcm is None else sr_pcm, **k)

    def decoder(self, dt, sr, sr_pcm=None, **k):
        return Decoder(self, dt, sr, sr if sr_pcm is None else sr_pcm, **k)


class _Session:
    def _alloc(self, size, fill):
        self.size = size
        self.buf = np.full(size + 64 + 256, 0xA5, np.uint8)
        off = (-self.buf.ctypes.data) % 64 + 64
        self.off = off
        self.mem = self.buf[off:off + size]
        if fill is None:
            self.mem[:] = 0
        elif np.isscalar(fill):
            self.mem[:] = fill
        else:
            self.mem[:] = fill
        self.ptr = self.mem.ctypes.data

    def guards_ok(self):
        return bool((self.buf[:self.off] == 0xA5).all() and (self.buf[self.off + self.size:] == 0xA5).all())


class Encoder(_Session):
    def __init__(self, lib, dt, sr, sr_pcm, fill=None):
        self.lib, self.dt, self.sr, self.sr_pcm = lib, dt, sr, sr_pcm
        h = hr(sr)
        self._alloc(lib.L.lc3_hr_encoder_size(h, DT_US[dt], SR_HZ[sr_pcm]), fill)
        self.setup()

    def setup(self):
        h = hr(self.sr)
        self.h = self.lib.L.lc3_hr_setup_encoder(h, DT_US[self.dt], SR_HZ[self.sr], SR_HZ[self.sr_pcm], self.ptr)
        assert self.h

    def disable_ltpf(self):
        self.lib.L.lc3_encoder_disable_ltpf(self.h)

    def encode(self, pcm, n, fmt=S16, stride=1):
        """pcm: array holding one frame (any layout of fmt). -> (ret, bytes)"""
        out = np.empty(max(n, 1), np.uint8)
        r = self.lib.L.lc3_encode(self.h, fmt, pcm.ctypes.data, stride, n, out.ctypes.data)
        return r, out[:max(n, 0)].tobytes()

    def state(self):
        i, f = np.zeros(16, np.int32), np.zeros(4, np.float32)
        off = self.lib.S.shim_enc(self.ptr, i.ctypes.data, f.ctypes.data)
        return dict(bypass=int(i[3]), en1=int(i[4]), an1=int(i[5]), p_att=int(i[6]), active=int(i[7]), pitch=int(i[8]),
                    tc=int(i[9]), xt=int(i[10]), xs=int(i[11]), xd=int(i[12]), spare=int(i[13]),
                    nc0=float(f[0]), nc1=float(f[1]), nbits_off=float(f[2]), xoff=off)

    def x(self):
        st = self.state()
        return self.mem[st['xoff']:st['xoff'] + 4 * ((self.size - st['xoff']) // 4)].view(np.float32), st


class Decoder(_Session):
    def __init__(self, lib, dt, sr, sr_pcm, fill=None):
        self.lib, self.dt, self.sr, self.sr_pcm = lib, dt, sr, sr_pcm
        h = hr(sr)
        self._alloc(lib.L.lc3_hr_decoder_size(h, DT_US[dt], SR_HZ[sr_pcm]), fill)
        self.setup()
        self.ns = ns(dt, sr_pcm)

    def setup(self):
        h = hr(self.sr)
        self.h = self.lib.L.lc3_hr_setup_decoder(h, DT_US[self.dt], SR_HZ[self.sr], SR_HZ[self.sr_pcm], self.ptr)
        assert self.h

    def decode(self, data, n=None, fmt=FLOAT, stride=1):
        """data: bytes or None (lost). -> (ret, pcm array)"""
        if fmt == S24_3LE:
            pcm = np.zeros(3 * self.ns * stride, np.uint8)
        else:
            pcm = np.zeros(self.ns * stride, [np.int16, np.int32, None, np.float32][fmt])
        if data is None:
            r = self.lib.L.lc3_decode(self.h, None, 0 if n is None else n, fmt, pcm.ctypes.data, stride)
        else:
            d = np.frombuffer(data, np.uint8)
            r = self.lib.L.lc3_decode(self.h, d.ctypes.data, len(data) if n is None else n, fmt, pcm.ctypes.data, stride)
        return r, pcm

    def state(self):
        i, f = np.zeros(16, np.int32), np.zeros(4, np.float32)
        off = self.lib.S.shim_dec(self.ptr, i.ctypes.data, f.ctypes.data)
        return dict(active=int(i[3]), pitch=int(i[4]), seed=int(i[5]), count=int(i[6]), xh=int(i[7]), xs=int(i[8]),
                    xd=int(i[9]), xg=int(i[10]), alpha=float(f[0]), xoff=off)

    def x(self):
        st = self.state()
        return self.mem[st['xoff']:st['xoff'] + 4 * ((self.size - st['xoff']) // 4)].view(np.float32), st

    def spectrum(self):
        """Last good spectrum kept for concealment"""
        x, st = self.x()
        return x[st['xg']:st['xg'] + ne(self.dt, self.sr)].copy()
