"""C21: the command line tools, C and Python; Tools.tla, Container.tla, Wave.tla"""
import concurrent.futures, json, os, struct, sys, tempfile, numpy as np
import vc, files, signals, frames, blocks
from lc3 import *
from c22 import chunk, junk

FMT = {(16, 2): S16, (24, 3): S24_3LE, (24, 4): S24}
BAD = {'us': [1000, 2600, 20000, 7300, 0], 'hz': [44100, 11025, 12000, 0, 22050, 64000], 'ohz': [44100, -1, 1, 12000, 192000, 22050],
       'nch': [3, 4, 8], 'rate': [0, -1, -64000], 'bits': [(8, 1), (32, 4), (16, 4), (24, 6), (20, 3), (16, 3), (32, 8)]}


def lengths(dt, srp, rng):
    F, D = ns(dt, srp), 2 * nd(dt, srp) - ns(dt, srp)
    k = rng.randrange(5)
    return max(0, rng.choice([0, 1, D, k * F, k * F + 1, k * F - 1, k * F - D, k * F - D + 1, k * F - D - 1, rng.randrange(6 * F), rng.randrange(6 * F),
                              rng.randrange(6 * F), rng.randrange(F), rng.randrange(12 * F)]))


def cases(rng, K):
    out = []
    for rep in range(K):
        for dt, sr in CONFIGS:
            for srp in pcm_rates(sr):
                if rep and srp != sr and rng.random() < .5:
                    continue
                for t in ('enc', 'dec', 'penc', 'pdec'):
                    if t[0] == 'p' and (hr(sr) and t == 'penc' or srp != sr or rng.random() < (.2 if vc.THOROUGH else .6)):
                        continue
                    e = t.endswith('enc')
                    bits, ss = rng.choice([(16, 2), (24, 3), (24, 4)] if t == 'enc' else [(16, 2), (24, 3)])
                    n = lengths(dt, srp if e else sr, rng)
                    x = dict(tool=t[-3:], by=t, us=DT_US[dt], hr=int(hr(sr)), hz=SR_HZ[srp if e else sr],
                             ohz=(SR_HZ[sr if e else srp] if srp != sr or (t[0] != 'p' and rng.random() < .2) else 0),
                             nch=rng.choice([1, 2, 2]), n=n, avail=n if rng.random() < .75 else rng.randint(0, n),
                             rate=rng.choice([16000, 32000, 64000, 96000, 124800, 320000, 1, 2**31 - 1, rng.randrange(10**6)]), bits=bits, ss=ss)
                    if hr(sr) and e:
                        x['rate'] = rng.choice([124800, 256000, 400000, 1000000, 1, rng.randrange(10**6)])
                    if not e:
                        # blocks there are
                        nb = -(-(n + 2 * nd(dt, sr) - ns(dt, sr)) // ns(dt, sr))
                        x['avail'] = rng.choice([nb, nb, nb + 2, rng.randint(0, nb), max(0, nb - 1)])
                    out.append(x)
    # long enough for products of a length and a rate to leave 31 and 32 bits
    rc = [(dt, sr, srp) for dt, sr in CONFIGS for srp in pcm_rates(sr) if srp != sr]
    rc = {e: [x for x in rc if 2 ** 31 / SR_HZ[x[1 if e else 2]] / ns(x[0], x[2 if e else 1]) < 600] for e in (True, False)}
    for t in ['enc', 'enc', 'dec', 'dec'] * K + ['enc', 'dec', 'penc', 'pdec']:
        py = t[0] == 'p'
        e = t.endswith('enc')
        dt, sr, srp = rng.choice(rc[e]) if not py else rng.choice([(2, 4, 4), (3, 3, 3), (3, 4, 4)])
        big = 2 ** 31 / SR_HZ[sr if e else srp] * rng.choice([1, 1, 1, 2])
        n = min(int(big) + rng.randrange(1, 5000), 150000) if not py else 70000 + rng.randrange(5000)
        bits, ss = (16, 2)
        nb = -(-(n + 2 * nd(dt, sr) - ns(dt, sr)) // ns(dt, sr))
        out.append(dict(tool=t[-3:], by=t, us=DT_US[dt], hr=int(hr(sr)), hz=SR_HZ[srp if e else sr], ohz=0 if py else SR_HZ[sr if e else srp], nch=1, n=n,
                        avail=n if e else nb, rate=64000 if not hr(sr) else 256000, bits=bits, ss=ss))
    # one thing wrong, or two
    good = {t: [x for x in out if x['by'] == t] for t in ('enc', 'dec')}
    wrong = [(t, {k: v}) for t in good for k in BAD for v in BAD[k] if (t, k) not in (('dec', 'bits'), ('dec', 'rate'))]
    wrong += [('dec', dict(bits=(v, 0))) for v in (0, 8, 32, -16, 15)] + [(t, {}) for t in good for _ in range(2)]
    for _ in range(4 * K):
        w = [rng.choice(wrong) for _ in range(2)]
        if w[0][0] == w[1][0]:
            wrong.append((w[0][0], dict(w[0][1], **w[1][1])))
    for t, w in wrong:
        x = dict(rng.choice(good[t]), **w)
        if 'bits' in w:
            x['bits'], x['ss'] = w['bits']
        if not w or rng.random() < .05:
            x['hr'] ^= 1
        if t == 'enc' or x['hz'] % 100 == 0:
            out.append(x)
    for i, x in enumerate(out):
        x['id'] = i
    return out


def plans(c, cs):
    p = tempfile.mktemp(suffix='.ndjson', dir=vc._builddir())
    vc.ndjson(p, cs)
    try:
        t = vc.tlc('Tools', cfg='Tools_Cases.cfg', env={'CASES': p}, workers=1)
    finally:
        os.unlink(p)
    if t.rc:
        raise RuntimeError('Tools.tla: ' + t.trace())
    c.add_tlc(t)
    r = {x['id']: x for x in t.prints()}
    if len(r) != len(cs):
        raise RuntimeError(f'{len(cs)} cases, {len(r)} plans')
    return r


def config(x, hz, ohz):
    sr = {48000: 5, 96000: 6} if x['hr'] else {8000: 0, 16000: 1, 24000: 2, 32000: 3, 48000: 4}
    return DT_US.index(x['us']), sr[hz], sr[ohz]


def samples(x, rng):
    """(n, nch) values; silence at the end would hide what is cut"""
    n, hz = x['n'] + 8, x['hz'] if x['hz'] > 0 else 8000
    v = np.stack([signals.make(rng.choice(['noise', 'tones', 'speech', 'fullnoise', 'square', 'tone', 'lowband']), n + 16, max(hz, 8000), rng)[:n]
                  for _ in range(x['nch'])], 1)
    return signals.s16(v).astype(np.int32) if x['bits'] == 16 else signals.s24(v) if x['bits'] == 24 else signals.s16(v).astype(np.int32)


def raw(v, ss):
    """Little endian, on ss bytes"""
    b = np.stack([(v.reshape(-1) >> min(8 * i, 31)) & 255 for i in range(ss)], -1)
    return b.astype(np.uint8).tobytes()


def wave(x, v, rng):
    m = x['nch'] * x['ss']
    f = struct.pack('<HHIIHH', 1, x['nch'], x['hz'], x['hz'] * m, m, x['bits'])
    if rng.random() < .25:
        f = b'\xfe\xff' + f[2:] + struct.pack('<HHI', 22, x['bits'], 0) + bytes.fromhex('0100000000001000800000aa00389b71')
    body = b'WAVE' + (junk(rng) if rng.random() < .2 else b'') + chunk(b'fmt ', f) + (junk(rng) if rng.random() < .2 else b'')
    # a part of a frame may end the samples
    part = rng.randrange(m) if x['by'] == 'enc' and rng.random() < .2 else 0
    body += b'data' + struct.pack('<I', x['n'] * m + part)
    if x['avail'] == x['n']:
        # what follows are not samples
        body += raw(v[:x['n']], x['ss']) + rng.randbytes(part + (x['n'] * m + part) % 2)
        body += b''.join(junk(rng) for _ in range(rng.choice([0, 0, 1, 2])))
    else:
        body += raw(v[:x['avail']], x['ss']) + rng.randbytes(rng.choice([0, 0, rng.randrange(m)]) if x['by'] == 'enc' else 0)
    return b'RIFF' + struct.pack('<I', len(body)) + body


def mono(v, bits):
    """A frame of one channel, in the format of the library"""
    return np.ascontiguousarray(v, np.int16 if bits == 16 else np.int32)


def enc_expected(lib, x, v, plan, size):
    dt, srp, sr = config(x, x['hz'], x['ohz'] or x['hz'])
    F = ns(dt, srp)
    E = [lib.encoder(dt, sr, srp) for _ in range(x['nch'])]
    out = []
    for p in plan:
        f = np.zeros((F, x['nch']), np.int32)
        f[:p['count']] = v[p['first']:p['first'] + p['count']]
        b = b''
        for c in range(x['nch']):
            n = blocks.share(size, x['nch'], c)
            r, d = E[c].encode(mono(f[:, c], x['bits']), n, fmt=S16 if x['bits'] == 16 else S24)
            if r != 0:
                raise RuntimeError('frame refused')
            b += d
        out.append(b)
    return out


def stream(lib, x, ok, rng):
    """An LC3 file for a decoder case; its blocks"""
    if not ok:
        # contents do not matter
        dt, sr = 3, 4
    else:
        dt, sr, _ = config(x, x['hz'], x['hz'])
    bl = []
    E = [lib.encoder(dt, sr) for _ in range(x['nch'])]
    m = ns(dt, sr)
    kind = rng.choice(['speech', 'tones', 'noise', 'pulse'])
    v = np.stack([signals.s16(signals.make(kind, m * (x['avail'] + 1), SR_HZ[sr], rng)) for _ in range(x['nch'])], 1)
    size = x['nch'] * frames.rand_size(dt, sr, rng) + rng.randrange(x['nch'])
    for k in range(x['avail']):
        if rng.random() < .1:
            size = x['nch'] * frames.rand_size(dt, sr, rng)
        f = [E[c].encode(np.ascontiguousarray(v[k * m:k * m + m, c]), min(blocks.share(size, x['nch'], c), max_bytes(dt, sr)))[1] for c in range(x['nch'])]
        if rng.random() < .12:
            c = rng.randrange(x['nch'])
            f[c] = rng.choice([frames.mutate(f[c], rng), b'\xff' * len(f[c])])
        b = b''.join(f)
        if x['by'] == 'dec' and rng.random() < .08:
            # of a size that is not legal
            b = rng.choice([b[:20 * x['nch'] - 1], b[:1], rng.randbytes(625 * x['nch']), b[:19 * x['nch'] + x['nch'] // 2]])
        bl.append(b)
    h = struct.pack('<HHHHHHHI', 0xcc1c, 20 if x['hr'] else 18, x['hz'] // 100, 640, x['nch'], x['us'] // 10, 0, x['n']) + (b'\1\0' if x['hr'] else b'')
    if rng.random() < .1:
        h = h[:2] + struct.pack('<H', 24) + h[4:] + (b'\0\0\0\0\0\0' if len(h) == 18 else b'\7\7\7\7')
    f = h + b''.join(struct.pack('<H', len(b)) + b for b in bl)
    if rng.random() < .3:
        # a block cut short is not there
        f += struct.pack('<H', 40 * x['nch']) + rng.randbytes(rng.randrange(40))
    return f, bl


def dec_expected(lib, x, bl, plan):
    dt, sr, srp = config(x, x['hz'], x['ohz'] or x['hz'])
    F, m = ns(dt, srp), x['nch']
    ss = x['bits'] // 8
    D = [lib.decoder(dt, sr, srp) for _ in range(m)]
    out = b''
    for k, p in enumerate(plan):
        y = np.zeros((F, m, ss), np.uint8)
        if p['here']:
            at = 0
            for c in range(m):
                n = blocks.share(len(bl[k]), m, c)
                r, o = D[c].decode(bl[k][at:at + n] or b'\0', n=n, fmt=S16 if ss == 2 else S24_3LE)
                if r < 0:
                    r, o = D[c].decode(None, fmt=S16 if ss == 2 else S24_3LE)
                y[:, c] = o.view(np.uint8).reshape(F, ss)
                at += n
        out += y[p['skip']:p['skip'] + p['count']].tobytes()
    return out


def argv(x, rng, tools):
    a = []
    if x['by'] == 'enc':
        o = [['-b', str(x['rate'])]]
        if x['us'] != 10000 or rng.random() < .4:
            o.append(['-m', '%g' % (x['us'] / 1000)])
        if x['ohz']:
            o.append(['-r', str(x['ohz'])])
        if x['hr']:
            o.append(['-H'])
    elif x['by'] == 'dec':
        o = []
        if x['bits'] != 16 or rng.random() < .4:
            o.append(['-b', str(x['bits'])])
        if x['ohz']:
            o.append(['-r', str(x['ohz'])])
    elif x['by'] == 'penc':
        o = [['--bitrate', str(x['rate'])], ['--libpath', tools['lib']]]
        if x['us'] != 10000 or rng.random() < .4:
            o.append(['--frame_duration', '%g' % (x['us'] / 1000)])
    else:
        o = [['--libpath', tools['lib']]]
        if x['bits'] != 16 or rng.random() < .4:
            o.append(['--bit_depth', str(x['bits'])])
    rng.shuffle(o)
    return tools[x['by']] + sum(o, [])


def describe_case(x):
    return ' '.join(f'{k}={x[k]}' for k in ('by', 'us', 'hr', 'hz', 'ohz', 'nch', 'n', 'avail', 'rate', 'bits', 'ss'))


def run(c):
    rng = c.rng
    t = vc.tlc('Tools', cfg='Tools_Laws.cfg')
    c.add_tlc(t)
    if t.rc:
        raise RuntimeError('the rules break their own laws:\n' + t.trace())
    lib = Lib(shim=False)
    py = [sys.executable, '-X', 'pycache_prefix=' + os.path.join(vc.BUILD, 'pyc')]
    tools = dict(enc=[files.tool('elc3')], dec=[files.tool('dlc3')], lib=lib.path,
                 penc=py + [vc.src('python', 'tools', 'encoder.py')], pdec=py + [vc.src('python', 'tools', 'decoder.py')])
    env = dict(os.environ, PYTHONPATH=vc.src('python'))
    cs = cases(rng, 12 if vc.THOROUGH else 5)
    P = plans(c, cs)
    c.log(len(cs), 'cases,', sum(P[x['id']]['ok'] for x in cs), 'accepted')
    jobs, enc, dec = [], [], []
    with files.Dir() as d, concurrent.futures.ThreadPoolExecutor(vc.NCPU) as pool:
        for x in cs:
            p = P[x['id']]
            if x['tool'] == 'enc':
                v = samples(x, rng)
                inp, bl = wave(x, v, rng), None
            else:
                v = None
                inp, bl = stream(lib, x, p['ok'], rng)
            a = argv(x, rng, tools)
            mode = rng.choice(['files', 'pipes', 'pipes'])
            fi, fo = d.name(inp if mode == 'files' else None), d.name()

            def job(a=a, mode=mode, fi=fi, fo=fo, inp=inp):
                if mode == 'pipes':
                    return files.run(a, stdin=inp, env=env)
                r = files.run(a + [fi, fo], env=env)
                o = b''
                if os.path.exists(fo):
                    with open(fo, 'rb') as f:
                        o = f.read()
                    os.unlink(fo)
                os.unlink(fi)
                return r[0], o, r[2]
            jobs.append((x, p, v, bl, mode, a, pool.submit(job)))
        for x, p, v, bl, mode, a, j in jobs:
            rc, out, err = j.result()
            info = dict(case=x, command=a[-12:], mode=mode, status=rc, stderr=err[-500:])
            if rc < 0:
                c.violation(f'tool killed by signal {-rc}: {describe_case(x)}', info)
            elif (rc == 0) != (p['ok'] == 1):
                c.violation(f"tool {'accepted' if rc == 0 else 'refused (status %d)' % rc} {describe_case(x)}: {err[-200:]}", info)
            elif rc != 0:
                c.count('cases_refused')
            elif x['tool'] == 'enc':
                h = p['head']
                want = enc_expected(lib, x, v, p['plan'], h['bytes'])
                enc.append(dict(k='w', p=dict(hz=h['hz'], rate=h['rate'], nch=h['nch'], us=h['us'], ns=files.pair(h['n']), hr=h['hr']),
                                blocks=[list(b) for b in want], bytes=list(out), case=describe_case(x), mode=mode))
            else:
                want = dec_expected(lib, x, bl, p['plan'])
                m = x['nch'] * (x['bits'] // 8)
                n = p['head']['n']
                dec.append(dict(k='w', bits=x['bits'], ss=x['bits'] // 8, hz=files.pair(x['ohz'] or x['hz']), nch=x['nch'], n=files.pair(n),
                                pcm=list(want), writes=[dict(off=0, count=len(want) // m)], bytes=list(out), case=describe_case(x), mode=mode))
        c.log('tools run:', len(enc), 'streams,', len(dec), 'recordings')
    files.validate(c, 'Container', 'Container_Files.cfg', enc, 'stream', lambda r: f"{r['case']} ({r['mode']}): {differ(r, True)}")
    files.validate(c, 'Wave', 'Wave_Written.cfg', dec, 'recording', lambda r: f"{r['case']} ({r['mode']}): {differ(r, False)}")
    for r in enc[:2] + dec[:2]:
        c.sample(dict(case=r['case'], mode=r['mode'], bytes=len(r['bytes'])))


def differ(r, enc):
    if enc:
        n = (20 if r['p']['hr'] else 18) + sum(2 + len(b) for b in r['blocks'])
        want = sum(([len(b) & 255, len(b) >> 8] + b for b in r['blocks']), [])
        got = r['bytes'][20 if r['p']['hr'] else 18:]
    else:
        n, want, got = 44 + len(r['pcm']), r['pcm'], r['bytes'][44:]
    k = next((i for i, (a, b) in enumerate(zip(want, got)) if a != b), None)
    return f"{len(r['bytes'])} bytes written, {n} expected; header {bytes(r['bytes'][:44]).hex()}; content differs first at {k}"
