"""Recorded calls of the query functions, and their validation by Queries.tla"""
import os, re, shutil, ctypes as C
import vc
from lc3 import *

IMAX, IMIN = 2**31 - 1, -2**31
US = [2500, 5000, 7500, 10000]
HZ = [8000, 16000, 24000, 32000, 48000, 96000]
BAD_US = [0, -1, 1, 1250, 2499, 2501, 4999, 5001, 7499, 7501, 9999, 10001, 20000, 100000, -2500, -10000, IMAX, IMIN, 2, 3, 5, 7, 10]
BAD_HZ = [0, -1, 1, 7999, 8001, 11025, 12000, 22050, 44100, 47999, 48001, 64000, 88200, 95999, 96001, 192000, -8000, -48000, IMAX, IMIN,
          8, 16, 24, 32, 48, 96, 4, 5, 6]


def call(lib, q, hr, us, hz, nch=1, a=0, plain=False):
    """plain: through the functions without high-resolution flag"""
    L = lib.L
    if plain:
        return dict(samples=lambda: L.lc3_frame_samples(us, hz), bytes=lambda: L.lc3_frame_bytes(us, a),
                    block=lambda: L.lc3_frame_block_bytes(us, nch, a), bitrate=lambda: L.lc3_resolve_bitrate(us, a),
                    delay=lambda: L.lc3_delay_samples(us, hz), esize=lambda: int(L.lc3_encoder_size(us, hz) != 0),
                    dsize=lambda: int(L.lc3_decoder_size(us, hz) != 0))[q]()
    return dict(samples=lambda: L.lc3_hr_frame_samples(hr, us, hz), bytes=lambda: L.lc3_hr_frame_bytes(hr, us, hz, a),
                block=lambda: L.lc3_hr_frame_block_bytes(hr, us, hz, nch, a),
                bitrate=lambda: L.lc3_hr_resolve_bitrate(hr, us, hz, a),
                delay=lambda: L.lc3_hr_delay_samples(hr, us, hz), esize=lambda: int(L.lc3_hr_encoder_size(hr, us, hz) != 0),
                dsize=lambda: int(L.lc3_hr_decoder_size(hr, us, hz) != 0))[q]()


def record(lib, q, hr, us, hz, nch=1, a=0, plain=False):
    if plain:
        hr = False
        if q in ('bytes', 'block', 'bitrate'):
            hz = 8000
    r = call(lib, q, hr, us, hz, nch, a, plain)
    return dict(q=q, hr=int(hr), us=us, hz=hz, nch=nch, a=a, plain=int(plain), ret=int(r))


def setup_record(lib, dec, hr, us, hz, pcm, mem, plain=False):
    """Set-up on a block of the announced size, between guards"""
    L = lib.L
    size = 0
    if mem:
        f = L.lc3_hr_decoder_size if dec else L.lc3_hr_encoder_size
        size = f(hr, us, pcm if pcm > 0 else hz)
    buf = np.full(max(size, 0) + 192, 0xA5, np.uint8)
    off = (-buf.ctypes.data) % 64 + 64
    p = buf.ctypes.data + off if mem else None
    if plain:
        h = (L.lc3_setup_decoder if dec else L.lc3_setup_encoder)(us, hz, pcm, p)
    else:
        h = (L.lc3_hr_setup_decoder if dec else L.lc3_hr_setup_encoder)(hr, us, hz, pcm, p)
    ret = 0 if not h else 1 if h == p else 2
    touched = (buf[:off] != 0xA5).any() or (buf[off + (size if ret == 1 else 0):] != 0xA5).any()
    return dict(q='dsetup' if dec else 'esetup', hr=int(hr), us=us, hz=hz, pcm=pcm, mem=int(mem), plain=int(plain),
                ret=3 if touched else ret)


def validate(c, recs, cfg='Queries_Calls.cfg', tag='', limit=5):
    """Every recorded call against the rules"""
    d = vc.scratch()
    try:
        todo = recs
        for _ in range(limit):
            p = vc.ndjson(os.path.join(d, 'q.ndjson'), todo)
            t = vc.tlc('Queries', cfg=cfg, env=dict(CALLS=p))
            c.add_tlc(t)
            if t.rc == 0:
                c.traces(len(todo))
                return
            m = re.findall(r'at = (\d+)', t.out)
            if not m or 'CallOk' not in t.out:
                raise RuntimeError('TLC: ' + t.out[-3000:])
            r = todo[int(m[-1]) - 1]
            c.violation(f'{tag}{r["q"]} returned {r["ret"]}, against the rules: {r}', r)
            # the rest of the calls of that function with another outcome
            todo = [x for x in todo if x['q'] != r['q']]
            if not todo:
                return
    finally:
        shutil.rmtree(d, ignore_errors=True)
