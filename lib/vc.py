"""Common machinery of the checks: builds of the code under test, TLC runs,
evidence and verdicts. Everything built lands under /verif/build, everything
recorded for a violation under /verif/out; both are ignored by git."""
import ctypes as C, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time, glob, random

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
OUT = os.environ.get('VERIF_OUT', os.path.join(VERIF, 'out'))
EVID = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
NCPU = int(os.environ.get('VERIF_CPUS', os.cpu_count() or 4))

CFLAGS = '-std=c11 -O3 -ffast-math -fPIC -Wno-unused -w'.split()
STRICT = '-std=c11 -O2 -fno-fast-math -ffp-contract=off -fPIC -w'.split()
ASAN = '-std=c11 -O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-sanitize=shift,signed-integer-overflow -fPIC -w'.split()


class Inconclusive(Exception):
    pass


def src(*p):
    return os.path.join(REPO, *p)


def lib_sources():
    return sorted(glob.glob(src('src', '*.c')))


def _hash(files, extra):
    h = hashlib.sha256(repr(extra).encode())
    for f in files:
        h.update(f.encode() if not f.startswith(REPO) else f[len(REPO):].encode())
        with open(f, 'rb') as fd:
            h.update(fd.read())
    return h.hexdigest()[:20]


def _deps():
    return sorted(glob.glob(src('src', '*.[ch]')) + glob.glob(src('include', '*')))


def build(name, files, flags=(), cc='gcc', libs=('-lm',), shared=False, extra_deps=(), incs=()):
    """Compile `files` with /repo's headers. Cached by content."""
    os.makedirs(BUILD, exist_ok=True)
    incs = ['-I' + src('include')] + ['-I' + i for i in incs]
    key = _hash(sorted(set(_deps() + list(files) + list(extra_deps))),
                (name, tuple(flags), cc, tuple(libs), shared, tuple(os.path.basename(f) for f in files)))
    out = os.path.join(BUILD, f'{name}-{key}' + ('.so' if shared else ''))
    if os.path.exists(out):
        return out
    tmp = tempfile.mkdtemp(prefix='b-', dir=BUILD)
    try:
        procs, objs = [], []
        for i, f in enumerate(files):
            o = os.path.join(tmp, f'{i}.o')
            objs.append(o)
            procs.append((f, subprocess.Popen([cc, *flags, *incs, '-c', f, '-o', o],
                                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        for f, p in procs:
            t = p.communicate()[0]
            if p.returncode:
                raise RuntimeError(f'compiling {f}: {t.decode(errors="replace")[-2000:]}')
        t = os.path.join(tmp, 'out')
        r = subprocess.run([cc, *flags, *(['-shared'] if shared else []), *objs, '-o', t, *libs],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise RuntimeError(f'linking {name}: {r.stdout.decode(errors="replace")[-2000:]}')
        os.rename(t, out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    old = sorted((f for f in glob.glob(os.path.join(BUILD, '*-*')) if os.path.isfile(f)), key=os.path.getmtime)
    for f in old[:-80]:
        try:
            os.unlink(f)
        except OSError:
            pass
    return out


def build_lib(name='lc3', flags=CFLAGS, defs=(), cc='gcc'):
    return build('lib' + name, lib_sources(), list(flags) + list(defs), cc=cc, shared=True)


ARM = {'simd32': ('-D__ARM_ARCH=7', '-D__ARM_FEATURE_SIMD32=1', '-D__ARM_FEATURE_SAT=1', '-fno-strict-aliasing'),
       'neon': ('-D__ARM_ARCH=8', '-D__ARM_ARCH_ISA_A64=1', '-D__ARM_NEON=1')}
ARM['neonint'] = ARM['neon']    # its transforms left out: what is left is integer arithmetic


def build_arm(variant, flags=STRICT):
    """The library with its Arm code, over intrinsics emulated by the headers
    of harness/; the assembly statements become calls of the emulation."""
    inc = harness('simd32' if variant == 'simd32' else 'neon')
    hs = sorted(glob.glob(inc + '/*.h'))
    key = _hash(_deps() + hs, (variant,))
    d = os.path.join(BUILD, f'src-{variant}-{key}')
    if not os.path.isdir(d):
        os.makedirs(BUILD, exist_ok=True)
        for o in glob.glob(os.path.join(BUILD, f'src-{variant}-*')):
            shutil.rmtree(o, ignore_errors=True)
        t = tempfile.mkdtemp(prefix='a-', dir=BUILD)
        for f in glob.glob(src('src', '*.[ch]')):
            x = open(f).read()
            x = re.sub(r'(?:__asm__|__asm|asm)\s*(?:__?volatile_*|volatile)?\s*\(\s*"(pkhbt|pkhtb)[^"]*"\s*:\s*"=r"\s*\((\w+)\)\s*:\s*"r"\s*\((\w+)\)\s*,\s*"r"\s*\((\w+)\)\s*\)',
                       r'\2 = acle_\1(\3, \4)', x)
            if variant == 'neonint':
                x = re.sub(r'#\s*include\s*"mdct_neon.h"', '', x)
            open(os.path.join(t, os.path.basename(f)), 'w').write(x)
        try:
            os.rename(t, d)
        except OSError:
            shutil.rmtree(t, ignore_errors=True)
    return build('lib' + variant, sorted(glob.glob(d + '/*.c')), list(flags) + list(ARM[variant]), shared=True, extra_deps=hs, incs=(inc,))


def build_old():
    """A library without the high-resolution interface, as older ones"""
    m = os.path.join(_builddir(), 'old.map')
    with open(m, 'w') as f:
        f.write('{ global: lc3_frame*; lc3_resolve*; lc3_delay*; lc3_enc*; lc3_dec*; lc3_setup*; local: *; };')
    return build('libold', lib_sources(), CFLAGS, shared=True, libs=('-lm', '-Wl,--version-script=' + m))


def harness(name):
    return os.path.join(VERIF, 'harness', name)


# ---------------------------------------------------------------------------
#  TLC
# ---------------------------------------------------------------------------

TLA_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class Tlc:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states', out)
        self.generated = int(m[-1][0].replace(',', '')) if m else 0
        self.distinct = int(m[-1][1].replace(',', '')) if m else 0
        self.violated = re.findall(r'(?:Invariant|Action property|Temporal properties?|Property) (\w+)? ?(?:is|was|were) violated', out)
        self.finished = 'Model checking completed. No error has been found' in out or \
            ('Finished in' in out and 'Error:' not in out)
        self.error = 'Error:' in out

    def prints(self):
        """Values printed with PrintT(ToJson(...))"""
        r = []
        for l in self.out.splitlines():
            if l.startswith('"') and l.endswith('"'):
                try:
                    r.append(json.loads(json.loads(l)))
                except ValueError:
                    pass
        return r

    def trace(self):
        """Text of the counterexample"""
        i = self.out.find('Error:')
        return self.out[i:i + 6000] if i >= 0 else ''


class NoMeaning(ValueError):
    """What the code did is outside of the domain of the specification"""


def tlc(module, cfg=None, env=None, workers=None, timeout=800, args=(), mem='6g'):
    """Run TLC on spec/<module>.tla. Any failure of the tool itself raises."""
    meta = tempfile.mkdtemp(prefix='tlc-', dir=_builddir())
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + mem, '-Xss64m', '-cp', TLA_CP, 'tlc2.TLC', '-noGenerateSpecTE',
           '-metadir', meta, '-workers', str(workers or NCPU), '-config', cfg or module + '.cfg', *args, module + '.tla']
    try:
        p = subprocess.run(cmd, cwd=os.path.join(VERIF, 'spec'), env=e, timeout=timeout,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired as x:
        raise Inconclusive(f'TLC timed out on {module}')
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    t = Tlc(out, p.returncode)
    # 0 ok, 12 safety violation, 13 liveness violation, 11 deadlock, 10 assumption
    # 75, 76, 77: an operator applied outside of its domain, by what was recorded
    if t.rc in (75, 76, 77) and not re.search('StackOverflow|OutOfMemory|stack overflow', out):
        raise NoMeaning(f'{module}: ' + re.sub(r'\s+', ' ', t.trace())[:1500])
    if t.rc not in (0, 10, 11, 12, 13):
        raise RuntimeError(f'TLC failed on {module} (rc={t.rc}):\n' + out[-4000:])
    return t


def _builddir():
    os.makedirs(BUILD, exist_ok=True)
    return BUILD


def scratch(prefix='s-'):
    return tempfile.mkdtemp(prefix=prefix, dir=_builddir())


def ndjson(path, recs):
    with open(path, 'w') as f:
        for r in recs:
            f.write(json.dumps(r, separators=(',', ':')) + '\n')
    return path


# ---------------------------------------------------------------------------
#  Verdicts and evidence
# ---------------------------------------------------------------------------

class Check:
    """Collects what a check covered and the violations it found."""

    def __init__(self, pid, level='model_checking'):
        self.pid, self.level, self.t0 = pid, level, time.time()
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.viol, self.notes = [], []
        self.rng = random.Random(f'{pid}-{SEED}')

    def add_tlc(self, t):
        self.cov['states'] += t.distinct
        self.cov['transitions'] += t.generated

    def traces(self, n):
        self.cov['traces_validated_against_impl'] += n

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, s):
        if len(self.cov['samples']) < 6:
            self.cov['samples'].append(s)

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    def violation(self, what, data=None):
        """Record a violation; `data` is what it takes to replay it."""
        self.viol.append((what, data))

    def log(self, *a):
        print(f'[{self.pid} {time.time() - self.t0:6.1f}s]', *a, flush=True)

    def finish(self):
        known = load_known(self.pid)
        os.makedirs(EVID, exist_ok=True)
        new = []
        for what, data in self.viol:
            k = next((k for k in known if re.search(k['match'], what)), None)
            if k:
                k['hit'] = True
            else:
                new.append((what, data))
        for k in known:
            if k.get('hit'):
                print(f"KNOWN-FINDING: property={self.pid} {k['text']}")
        ev = dict(property=self.pid, tier=TIER, seed=SEED, level=self.level, coverage=self.cov,
                  assumptions=self.notes, wall_s=round(time.time() - self.t0, 2), violations=len(new))
        with open(os.path.join(EVID, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        if new:
            os.makedirs(os.path.join(OUT, self.pid), exist_ok=True)
            for i, (what, data) in enumerate(new[:10]):
                path = os.path.join(OUT, self.pid, f'violation-{i}.json')
                with open(path, 'w') as f:
                    json.dump(dict(property=self.pid, what=what, seed=SEED, tier=TIER, data=data), f,
                              indent=1, default=_jsonable)
                print(f'VIOLATION property={self.pid} replay={path}')
                print('   ' + what[:600])
            if len(new) > 10:
                print(f'   ... and {len(new) - 10} more')
            sys.exit(1)
        print(f'OK property={self.pid} ' + ' '.join(f'{k}={v}' for k, v in self.cov.items() if isinstance(v, int)))
        sys.exit(0)


def _jsonable(o):
    if hasattr(o, 'tolist'):
        return o.tolist()
    if isinstance(o, (bytes, bytearray)):
        return o.hex()
    if isinstance(o, set):
        return sorted(o)
    return str(o)


def load_known(pid):
    """Entries `finding: property=<id> match=/<regex>/ <text>` of known-findings.txt"""
    r = []
    try:
        with open(os.path.join(VERIF, 'known-findings.txt')) as f:
            for l in f:
                m = re.match(r'finding: property=(\w+) match=/(.*?)/ (.*)', l.strip())
                if m and m.group(1) == pid:
                    r.append(dict(match=m.group(2), text=m.group(3)))
    except OSError:
        pass
    return r
