"""C01: every query returns the value of Queries.tla"""
import vc
from queries import *


def calls(lib, rng, thorough):
    recs = []
    for hr_ in (False, True):
        for us in US + BAD_US:
            for hz in HZ + BAD_HZ:
                for q in ('samples', 'delay', 'esize', 'dsize'):
                    recs.append(record(lib, q, hr_, us, hz))
                    if not hr_:
                        recs.append(record(lib, q, hr_, us, hz, plain=True))
                for q in ('bytes', 'bitrate', 'block'):
                    a = rng.choice([0, 20, 100, 64000, IMAX])
                    recs.append(record(lib, q, hr_, us, hz, nch=rng.randint(1, 8), a=a))
    RATES = [0, 1, -1, IMIN, IMAX, IMAX - 1, 16000, 15999, 320000, 672000, 5376000, 5376001, 5375999, 2**29, 2**30, 2**31 - 3200,
             536870912, 1073741824, 715827883]
    SIZES = [-1, 0, 1, IMIN, IMAX, IMAX - 1, 671087, 671088, 671089, 1342176, 1342177, 1342178, 2013265, 2013266, 2013267, 2684351,
             2684354, 2684355, 2684356, 10**6, 10**7, 10**9, 3, 7, 19, 401, 625, 626, 700]
    NCH = [IMIN, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, IMAX]
    for hr_ in (False, True):
        for us in US:
            for hz in HZ:
                for a in RATES:
                    recs.append(record(lib, 'bytes', hr_, us, hz, a=a))
                    for n in NCH:
                        recs.append(record(lib, 'block', hr_, us, hz, nch=n, a=a))
                        if hz == 8000 and not hr_:
                            recs.append(record(lib, 'block', hr_, us, hz, nch=n, a=a, plain=True))
                for a in SIZES:
                    recs.append(record(lib, 'bitrate', hr_, us, hz, a=a))
                    if hz == 8000 and not hr_:
                        recs.append(record(lib, 'bitrate', hr_, us, hz, a=a, plain=True))
                for _ in range(400 if thorough else 25):
                    a = rng.choice([rng.randint(0, IMAX), rng.randint(0, 800000), int(2 ** rng.uniform(0, 31)) - 1])
                    recs.append(record(lib, 'block', hr_, us, hz, nch=rng.randint(1, 8), a=a))
                    recs.append(record(lib, 'bitrate', hr_, us, hz, a=rng.choice([rng.randint(0, IMAX), rng.randint(0, 3 * 10**6)])))
    # every legal size, the bitrate the code itself gives for it, and around
    for dt, sr in CONFIGS:
        us, hz, h = DT_US[dt], SR_HZ[sr], hr(sr)
        for n in range(min_bytes(dt, sr) - 2, max_bytes(dt, sr) + 3):
            r = record(lib, 'bitrate', h, us, hz, a=n)
            recs.append(r)
            for nch in (1, rng.randint(2, 8)):
                for b in (r['ret'] - 1, r['ret'], r['ret'] + rng.randint(1, 900)):
                    recs.append(record(lib, 'block', h, us, hz, nch=nch, a=b * nch))
            recs.append(record(lib, 'bytes', h, us, hz, a=r['ret']))
            if sr == 0:
                recs.append(record(lib, 'bytes', h, us, hz, a=r['ret'], plain=True))
    return recs


def run(c):
    t = vc.tlc('Queries', cfg='Queries_Laws.cfg')
    c.add_tlc(t)
    if t.rc:
        raise RuntimeError('the rules break their own laws:\n' + t.trace())
    c.log('laws hold,', t.distinct, 'states')
    lib = Lib(shim=False)
    recs = calls(lib, c.rng, vc.THOROUGH)
    c.log(len(recs), 'calls')
    validate(c, recs)
    c.count('calls_refused', sum(r['ret'] in (-1, 0) for r in recs))
    c.sample(recs[len(recs) // 2])
    c.sample(recs[-1])
    c.cov['exhaustive'] = False
    c.note('all legal sizes of all configurations are enumerated; invalid arguments and bitrates are boundary values and random ones')
