"""Frames through FrameSyntax.tla"""
import os, shutil
import vc


def rec(dt, sr, b, ret=-1, enc=0, **k):
    return dict(dt=dt, sr=sr, n=len(b), b=list(b), ret=ret, enc=enc, **k)


def parse(check, recs, emit=True, chunk=4000):
    """Check all frame records against the specification; returns the list of
    denotations (same order) and reports invariant violations."""
    d = vc.scratch()
    out = [None] * len(recs)
    try:
        for lo in range(0, len(recs), chunk):
            part = recs[lo:lo + chunk]
            todo = list(range(len(part)))
            for attempt in range(8):
                p = vc.ndjson(os.path.join(d, 'f.ndjson'), [part[i] for i in todo])
                t = vc.tlc('FrameSyntax', env=dict(FRAMES=p, EMIT=1 if emit else 0))
                check.add_tlc(t)
                for x in t.prints():
                    out[lo + todo[x['fr'] - 1]] = x
                if t.rc == 0:
                    check.traces(len(todo))
                    break
                # identify the frame of the counterexample, report, go on without it
                import re
                m = re.findall(r'/\\ fr = (\d+)', t.out)
                inv = re.findall(r'Invariant (\w+) is violated', t.out)
                if not m or not inv:
                    raise RuntimeError('TLC: ' + t.out[-3000:])
                i = todo[int(m[-1]) - 1]
                r = part[i]
                yield_violation(check, inv[0], r, t)
                todo.remove(i)
                if attempt == 7 or len(check.viol) >= 5:
                    return out
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out


def yield_violation(check, inv, r, t):
    what = {'VerdictOk': 'the verdict of lc3_decode is not that of the frame syntax',
            'WellFormed': 'an encoded frame is malformed',
            'EncodedOk': 'an encoded frame is not what the specification allows'}.get(inv, 'invariant ' + inv)
    i = t.out.rfind('State ')
    check.violation(f"{what}: dt={r['dt']} sr={r['sr']} nbytes={r['n']} ret={r['ret']} "
                    f"bytes={bytes(r['b']).hex()}",
                    dict(frame=r, invariant=inv, last_state=t.out[i:i + 3000]))
