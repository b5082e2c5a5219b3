"""C20: the file container of the tools; Container.tla"""
import ctypes as C, numpy as np, os
import vc, files
from lc3 import *

HZ = [8000, 16000, 24000, 32000, 48000, 96000, 44100, 100, 6553500]
US = [2500, 5000, 7500, 10000, 10, 655350]


def header(L, fp):
    v = [C.c_int(-77) for _ in range(4)]
    h = C.c_bool(False)
    r = L.lc3bin_read_header(fp, C.byref(v[0]), C.byref(v[1]), C.byref(h), C.byref(v[2]), C.byref(v[3]))
    return dict(ret=r, us=v[0].value, hz=v[1].value, hr=int(h.value), nch=v[2].value, ns=files.pair(v[3].value))


def read(L, d, content, pipe, most=12):
    """The record of a file read to its end"""
    s = files.Stream(d, content, pipe)
    h = header(L, s.fp)
    blocks = []
    if h['ret'] == 0 and 0 <= h['nch'] <= 64:
        while len(blocks) < most:
            b, over = files.guarded(h['nch'] * 625)
            r = L.lc3bin_read_data(s.fp, h['nch'], b.ctypes.data)
            blocks.append(dict(ret=r, data=b[:max(0, min(r, len(b)))].tolist(), over=over()))
            if r == -1:
                break
    s.close()
    return dict(k='r', bytes=list(content), hdr=h, blocks=blocks)


def parameters(rng):
    n = rng.choice([0, 1, 65535, 65536, 65537, 2**31 - 1, 2**24, rng.randrange(2**31), rng.randrange(10**6)])
    return dict(hz=rng.choice(HZ), rate=rng.choice([16000, 64000, 123456, 320000, 99, 100, 0, 2560000, 4000000, rng.randrange(4000000)]),
                nch=rng.choice([1, 1, 2, 2, 3, 8, 65535]), us=rng.choice(US), n=n, hr=rng.randrange(2))


def write(L, d, p, blocks):
    def f(fp):
        L.lc3bin_write_header(fp, p['us'], p['hz'], bool(p['hr']), p['rate'], p['nch'], p['n'])
        for b in blocks:
            L.lc3bin_write_data(fp, b, len(b))
    return files.written(d, f)


def block(rng, nch):
    m = min(nch, 8) * 625
    n = rng.choice([1, 2, 3, 20, 40, 255, 256, 257, 400, 511, 512, 625, m, m - 1, rng.randint(1, m)])
    return rng.choice([rng.randbytes(min(n, m)), bytes(min(n, m)), b'\x1c\xcc' * (min(n, m) // 2) + b'\x12' * (min(n, m) % 2)])


def damage(b, rng):
    """A file with something wrong, or something unusual"""
    b = bytearray(b)
    k = rng.randrange(9)
    if k == 0:
        return bytes(b[:rng.randrange(len(b) + 1)])
    if k == 1:
        return bytes(b[:rng.randrange(min(len(b), 24) + 1)])
    if k == 2:
        b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
    if k == 3:
        b[rng.randrange(min(len(b), 24))] = rng.randrange(256)
    if k == 4:   # header size
        n = rng.choice([0, 17, 18, 19, 20, 21, 22, 24, 40, 255, 256, 65535])
        at = b[2] + 256 * b[3]
        b[2:4] = n.to_bytes(2, 'little')
        if n > at and rng.random() < .7:
            b[at:at] = rng.choice([bytes(n - at), rng.randbytes(n - at)])
    if k == 5:   # error protection
        b[12:14] = rng.randrange(65536).to_bytes(2, 'little')
    if k == 6:   # size of the first block
        at = b[2] + 256 * b[3]
        nch = b[8] + 256 * b[9]
        n = rng.choice([0, 1, 625 * nch, 625 * nch + 1, 65535, 1250, 1251, 626, rng.randrange(65536)]) & 65535
        b[at:at + 2] = n.to_bytes(2, 'little')
        if rng.random() < .5:
            b += rng.randbytes(n)
    if k == 7:   # number of channels
        b[8:10] = rng.choice([0, 1, 2, 3, 65535, 32768]).to_bytes(2, 'little')
    if k == 8:
        b = bytearray(rng.choice([b'', b'RIFF', rng.randbytes(rng.randrange(60)), b'\xcc\x1c' + bytes(b[2:]), b'\x1c\xcc' + rng.randbytes(30)]))
    return bytes(b)


def run(c):
    rng = c.rng
    t = vc.tlc('Container', cfg='Container_Laws.cfg')
    c.add_tlc(t)
    if t.rc:
        raise RuntimeError('the rules break their own laws:\n' + t.trace())
    L = files.lib()
    recs, bad = [], []
    with files.Dir() as d:
        for k in range(2000 if vc.THOROUGH else 900):
            p = parameters(rng)
            m = rng.randrange(5)
            blocks = [block(rng, p['nch']) for _ in range(m)]
            b = write(L, d, p, blocks)
            recs.append(dict(k='w', p=dict(p, ns=files.pair(p['n'])), blocks=[list(x) for x in blocks], bytes=list(b)))
            recs.append(read(L, d, b, rng.random() < .3))
            bad.append(b)
            for _ in range(3):
                x = damage(b if len(b) < 900 or rng.random() < .2 else b[:rng.randint(18, 900)], rng)
                recs.append(read(L, d, x, rng.random() < .3))
                if rng.random() < .5:
                    bad.append(x)
        # cut at every position
        p = dict(hz=48000, rate=96000, nch=2, us=10000, n=480, hr=1)
        b = write(L, d, p, [rng.randbytes(7), rng.randbytes(1), rng.randbytes(30)])
        for n in range(len(b)):
            recs.append(read(L, d, b[:n], n % 2))
        c.log(len(recs), 'files written or read')
        files.validate(c, 'Container', 'Container_Files.cfg', recs, 'file container',
                       lambda r: (f"written with {r['p']}, blocks of {[len(x) for x in r['blocks']]} bytes: {len(r['bytes'])} bytes {bytes(r['bytes'][:40]).hex()}"
                                  if r['k'] == 'w' else
                                  f"file {bytes(r['bytes'][:40]).hex()} ({len(r['bytes'])} bytes) read as {r['hdr']}, blocks {[(x['ret'], x['over']) for x in r['blocks']]}"))
        c.sample(dict(written=recs[0]['p'], blocks=len(recs[0]['blocks'])))
        c.sample(dict(read=bytes(recs[2]['bytes'][:40]).hex(), header=recs[2]['hdr']))
        # the decoder on such files, under AddressSanitizer
        dlc3 = files.tool('dlc3', asan=True)
        n = 0
        rng.shuffle(bad)
        for b in bad[:1200 if vc.THOROUGH else 400]:
            # lengths of hours are a legal way to fill the disk
            b = bytearray(b)
            if len(b) >= 18:
                b[16:18] = b'\0\0' if rng.random() < .8 else rng.choice([b'\xff\xff', b'\0\x80'])
            if len(b) >= 18 and rng.random() < .6:
                b[14:18] = rng.randrange(3000).to_bytes(4, 'little')
                b[8:10] = rng.choice([1, 2, 2]).to_bytes(2, 'little')
                b[4:6] = (rng.choice([480, 480, 960, 80, 160]) if b[2] == 20 else rng.choice([80, 160, 240, 320, 480])).to_bytes(2, 'little')
                b[10:12] = rng.choice([250, 500, 750, 1000]).to_bytes(2, 'little')
            rc, out, err = files.run([dlc3, '-b', rng.choice(['16', '24'])], stdin=bytes(b), env=files.ASAN_ENV)
            n += 1
            r = files.asan_report(rc, err)
            if r or rc not in (0, 22):
                c.violation(f'the decoder tool on file {bytes(b[:40]).hex()} ({len(b)} bytes): {r or "status %d" % rc}', dict(file=bytes(b), err=err[:4000]))
        c.count('files_decoded_under_asan', n)
