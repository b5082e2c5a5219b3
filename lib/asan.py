"""Scenarios run under AddressSanitizer, in a process of their own"""
import os, re, subprocess, sys
import vc


def run(c, scenario, *args, timeout=400, defs=(), only=None, path=None):
    """Runs lib/asanrun.py <scenario>; an error of the sanitizer is a violation"""
    path = path or vc.build_lib('lc3asan', vc.ASAN, defs)
    def f(n):
        return subprocess.run(['gcc', '-print-file-name=' + n], stdout=subprocess.PIPE, text=True).stdout.strip()
    e = dict(os.environ, VERIF_ONLY=repr(only), LD_PRELOAD=f('libasan.so') + ' ' + f('libubsan.so'), VERIF_ASAN='1',
             ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1',
             UBSAN_OPTIONS='halt_on_error=1:exitcode=78:print_stacktrace=1')
    try:
        p = subprocess.run([sys.executable, os.path.join(vc.VERIF, 'lib', 'asanrun.py'), path, scenario, c.pid, *map(str, args)], env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired as e:
        c.violation(f'a call does not return (scenario {scenario} has not ended after {timeout} s)', dict(out=(e.stdout or b'').decode(errors='replace')[-2000:]))
        return
    out, err = p.stdout.decode(errors='replace'), p.stderr.decode(errors='replace')
    m = re.search(r'(ERROR: AddressSanitizer: [^\n]*|[^\n]*runtime error: [^\n]*)', err)
    if m:
        at = re.findall(r'#\d+ [^\n]*(lc3_\w+|load_\w+|store_\w+|decode|encode)[^\n]*', err)[:4]
        last = [l for l in out.splitlines() if l.startswith('@')][-1:]
        c.violation(f'memory accessed outside what the call was given: {m.group(1)[:200]} in {at} at {last}', dict(report=err[:8000], last=last))
    elif p.returncode < 0:
        c.violation(f'the library crashed with signal {-p.returncode} (scenario {scenario})', dict(err=err[-3000:], out=out[-2000:]))
    elif p.returncode != 0:
        raise RuntimeError(f'asan scenario {scenario}: rc={p.returncode}\n{err[-3000:]}')
    else:
        n = re.findall(r'^calls (\d+)', out, re.M)
        c.count('calls_under_asan', int(n[-1]))
