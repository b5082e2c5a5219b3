"""C22: WAVE files; Wave.tla"""
import ctypes as C, numpy as np, struct
import vc, files

HZ = [8000, 16000, 24000, 32000, 48000, 96000, 44100, 11025, 192000, 1, 65535, 65536, 2**31 - 1]
KINDS = [(16, 2), (24, 3), (24, 4)]


def header(L, fp):
    v = [C.c_int(-77) for _ in range(5)]
    r = L.wave_read_header(fp, *[C.byref(x) for x in v])
    b, s, z, n, m = [x.value for x in v]
    return dict(ret=r, bits=b, ss=s, hz=files.pair(z), nch=n, n=files.pair(m))


def read(L, d, content, pipe, rng, asks=None):
    s = files.Stream(d, content, pipe)
    h = header(L, s.fp)
    reads, at = [], 0
    if h['ret'] == 0:
        m = max(1, h['ss'] * h['nch'])
        if asks is None:
            asks = [rng.choice([0, 1, 2, 3, 5, 480]) for _ in range(rng.randrange(5))] + [rng.choice([600, 1, 3])]
        asks = [a for a in asks if a * m < 300000]
        rest = 0
        for a in asks:
            b, over = files.guarded(a * m)
            got = L.wave_read_pcm(s.fp, h['ss'], h['nch'], a, b.ctypes.data)
            if over():
                got = -99
            reads.append(dict(ask=a, got=got, data=b[:max(0, min(got, a)) * m].tolist()))
            if got != a:
                break
        # where the samples start: what follows the reads is the rest
        rest = s.rest()
        short = reads and reads[-1]['got'] != reads[-1]['ask']
        at = -1 if short else len(content) - len(rest) - sum(r['got'] for r in reads) * m
    s.close()
    r = dict(k='r', bytes=list(content), size=len(content), reads=reads, at=at, **h)
    if h['ret'] == 0 and at < 0:
        r['at'] = find(content)
    return r


def find(b):
    """Start of the samples, for reads that end short: a second reader says"""
    at = 12
    while at + 8 <= len(b):
        if b[at:at + 4] == b'data':
            return at + 8
        n = int.from_bytes(b[at + 4:at + 8], 'little')
        at += 8 + n + n % 2
    return -1


def chunk(ident, b):
    return ident + struct.pack('<I', len(b)) + b + b'\0' * (len(b) % 2)


def junk(rng):
    n = rng.choice([0, 1, 2, 3, 4, 7, 8, 16, 33, 120])
    ident = rng.choice([b'JUNK', b'LIST', b'bext', b'fact', b'id3 ', b'cue ', b'PEAK', b'\0\0\0\0', b'FMT ', b'DATA', b'RIFF', b'dat ', b'fmt\0'])
    return chunk(ident, rng.choice([rng.randbytes(n), bytes(n), (b'data' * 31)[:n], (b'fmt \x10\0\0\0\x01\0' * 13)[:n], (b'\0data\0\0\0\0' * 14)[:n]]))


def wave(rng, most=40):
    bits, ss = rng.choice(KINDS)
    nch = rng.choice([1, 1, 2, 2, 3, 5, 8])
    hz = rng.choice(HZ[:-5] if rng.random() < .8 else HZ)
    n = rng.choice([0, 1, 2, 3, rng.randint(0, most), rng.randint(0, most)])
    ext = rng.random() < .4
    f = struct.pack('<HHIIHH', 0xfffe if ext else 1, nch, hz, hz * nch * ss & 0xffffffff, nch * ss, bits)
    f += rng.choice([b'', b'\0\0', struct.pack('<HHI', 22, bits, 0) + bytes.fromhex('0100000000001000800000aa00389b71'), b'\0' * rng.randint(0, 30), b'\7'])
    body = b'WAVE' + b''.join(junk(rng) for _ in range(rng.choice([0, 0, 0, 1, 2]))) + chunk(b'fmt ', f)
    body += b''.join(junk(rng) for _ in range(rng.choice([0, 0, 1, 2, 3])))
    body += chunk(b'data', rng.randbytes(n * nch * ss))
    body += b''.join(junk(rng) for _ in range(rng.choice([0, 0, 1, 2])))
    return b'RIFF' + struct.pack('<I', rng.choice([len(body), len(body), 0, 0xffffffff])) + body


def damage(b, rng):
    b = bytearray(b)
    k = rng.randrange(8)
    if k == 0:
        return bytes(b[:rng.randrange(len(b) + 1)])
    if k == 1:
        b[rng.randrange(min(len(b), 60))] ^= 1 << rng.randrange(8)
    if k == 2:
        b[rng.randrange(len(b))] = rng.randrange(256)
    at = b.find(b'fmt ')
    if k == 3 and at > 0:    # fields of the format
        o, n, v = rng.choice([(8, 2, [0, 1, 2, 3, 6, 7, 0xfffe, 0xffff]), (10, 2, [0, 1, 2, 3, 4, 6, 65535]), (12, 4, [0, 1, 2**32 - 1, 48000]),
                              (16, 4, [0, 1, 96000, 2**32 - 1]), (20, 2, [0, 1, 2, 3, 4, 5, 6, 8, 65535]), (22, 2, [0, 8, 12, 16, 24, 32, 65535])])
        b[at + o:at + o + n] = rng.choice(v).to_bytes(n, 'little')
        if rng.random() < .6:    # the rate of bytes follows
            hz, fs = int.from_bytes(b[at + 12:at + 16], 'little'), int.from_bytes(b[at + 20:at + 22], 'little')
            b[at + 16:at + 20] = (hz * fs & 0xffffffff).to_bytes(4, 'little')
    if k == 4 and at > 0:    # its size
        b[at + 4:at + 8] = rng.choice([0, 1, 8, 14, 15, 16, 17, 18, 40, 2**31 - 1, 2**31, 2**32 - 1, 2**32 - 16]).to_bytes(4, 'little')
    at = b.find(b'data')
    if k == 5 and at > 0:
        b[at + 4:at + 8] = rng.choice([0, 1, 3, 2**31 - 1, 2**31, 2**32 - 1, rng.randrange(2**32), rng.randrange(600)]).to_bytes(4, 'little')
    if k == 6:               # a chunk that pretends to be long
        b[12:12] = rng.choice([b'JUNK', b'LIST']) + rng.choice([2**31, 2**32 - 1, 2**32 - 8, 2**31 - 1, 2**32 - 9]).to_bytes(4, 'little')
    if k == 7:
        b = bytearray(rng.choice([b'', b'RIFX' + bytes(b[4:]), b'RIFF', bytes(b[:8]) + b'WAVW' + bytes(b[12:]), rng.randbytes(rng.randrange(80)),
                                  bytes(b[:12]) + chunk(b'data', rng.randbytes(12)) + bytes(b[12:]), b'\x1c\xcc' + rng.randbytes(50)]))
    return bytes(b)


def write(L, d, rng):
    bits, ss = rng.choice(KINDS)
    nch = rng.choice([1, 1, 2, 2, 3, 8])
    hz = rng.choice(HZ[:8])
    n = rng.choice([0, 1, 480, 65535 // (nch * ss), 65536 // (nch * ss) + 1, rng.randrange(10**6), (2**32 - 37) // (nch * ss),
                    2**31 // (nch * ss), 2**31 // (nch * ss) + 1, rng.randrange((2**32 - 37) // (nch * ss))])
    n = min(n, 2**31 - 1)
    pcm = np.frombuffer(rng.randbytes(40 * nch * ss), np.uint8).copy()
    writes = []
    for _ in range(rng.randrange(5)):
        off = rng.choice([0, 0, rng.randrange(20)])
        writes.append(dict(off=off, count=rng.choice([0, 1, rng.randint(0, 20), 40 - off])))

    def f(fp):
        L.wave_write_header(fp, bits, ss, hz, nch, n)
        for w in writes:
            L.wave_write_pcm(fp, ss, pcm.ctypes.data, nch, w['off'], w['count'])
    b = files.written(d, f)
    return dict(k='w', bits=bits, ss=ss, hz=files.pair(hz), nch=nch, n=files.pair(n), pcm=pcm.tolist(), writes=writes, bytes=list(b)), b


def describe(r):
    if r['k'] == 'w':
        return f"written with {dict((k, r[k]) for k in ('bits', 'ss', 'hz', 'nch', 'n', 'writes'))}: {len(r['bytes'])} bytes, {bytes(r['bytes'][:48]).hex()}"
    return (f"file {bytes(r['bytes'][:120])} ({r['size']} bytes) read as {dict((k, r[k]) for k in ('ret', 'bits', 'ss', 'hz', 'nch', 'n', 'at'))}, "
            f"reads {[(x['ask'], x['got']) for x in r['reads']]}")


def run(c):
    rng = c.rng
    t = vc.tlc('Wave', cfg='Wave_Laws.cfg')
    c.add_tlc(t)
    if t.rc:
        raise RuntimeError('the rules break their own laws:\n' + t.trace())
    L = files.lib()
    rd, wr, inputs = [], [], []
    with files.Dir() as d:
        for k in range(6000 if vc.THOROUGH else 3000):
            b = wave(rng)
            rd.append(read(L, d, b, rng.random() < .3, rng))
            x = damage(b, rng)
            if x and rng.random() < .2:
                x = damage(x, rng)
            rd.append(read(L, d, x, rng.random() < .3, rng))
            inputs += [b, x]
            if k % 3 == 0:
                r, b = write(L, d, rng)
                wr.append(r)
                rd.append(read(L, d, b, rng.random() < .3, rng, [w['count'] for w in r['writes']]))
        # cut at every position
        b = wave(rng)
        for n in range(len(b)):
            rd.append(read(L, d, b[:n], n % 2, rng))
        c.log(len(rd), 'files read,', len(wr), 'written')
        c.count('files_refused', sum(r['ret'] != 0 for r in rd))
        files.validate(c, 'Wave', 'Wave_Files.cfg', rd, 'WAVE', describe)
        files.validate(c, 'Wave', 'Wave_Written.cfg', wr, 'WAVE', describe)
        c.sample(dict(read=bytes(rd[0]['bytes'][:80]).hex(), ret=rd[0]['ret'], hz=rd[0]['hz'], n=rd[0]['n']))
        # the encoder on such files, under AddressSanitizer
        elc3 = files.tool('elc3', asan=True)
        rng.shuffle(inputs)
        n = 0
        for b in inputs[:1200 if vc.THOROUGH else 250]:
            b = bytearray(b)
            # lengths of hours are a legal way to fill the disk
            at = find(b)
            if at > 0 and int.from_bytes(b[at - 4:at], 'little') > 2**20:
                b[at - 4:at] = (2**18).to_bytes(4, 'little')
            rc, out, err = files.run([elc3, '-b', rng.choice(['32000', '64000', '1000000']), '-m', rng.choice(['2.5', '5', '7.5', '10'])] +
                                     (['-H'] if rng.random() < .2 else []), stdin=bytes(b), env=files.ASAN_ENV)
            n += 1
            r = files.asan_report(rc, err)
            if r or rc not in (0, 22):
                c.violation(f'the encoder tool on file {bytes(b[:120])}: {r or "status %d" % rc}', dict(file=bytes(b), err=err[:4000]))
        c.count('files_encoded_under_asan', n)
