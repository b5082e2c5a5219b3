"""The file functions of the tools (tools/lc3bin.c, tools/wave.c) through
ctypes, on FILE streams of files and pipes in a scratch directory."""
import ctypes as C, glob, os, shutil, subprocess, numpy as np
import vc

_c = C.CDLL(None)
vp, i = C.c_void_p, C.c_int
for n, a, r in (('fopen', [C.c_char_p] * 2, vp), ('fdopen', [i, C.c_char_p], vp), ('fclose', [vp], i), ('ftell', [vp], C.c_long),
                ('fread', [vp, C.c_size_t, C.c_size_t, vp], C.c_size_t)):
    f = getattr(_c, n)
    f.argtypes, f.restype = a, r


def tool_deps():
    return glob.glob(vc.src('tools', '*.h'))


def lib():
    L = C.CDLL(vc.build('tools', [vc.src('tools', 'lc3bin.c'), vc.src('tools', 'wave.c')], vc.CFLAGS, shared=True,
                        extra_deps=tool_deps(), incs=[vc.src('tools')]))
    p = C.POINTER(i)
    L.lc3bin_read_header.argtypes = [vp, p, p, C.POINTER(C.c_bool), p, p]
    L.lc3bin_read_data.argtypes = [vp, i, vp]
    L.lc3bin_write_header.argtypes = [vp, i, i, C.c_bool, i, i, i]
    L.lc3bin_write_header.restype = None
    L.lc3bin_write_data.argtypes = [vp, vp, i]
    L.lc3bin_write_data.restype = None
    L.wave_read_header.argtypes = [vp, p, p, p, p, p]
    L.wave_read_pcm.argtypes = [vp, i, i, i, vp]
    L.wave_write_header.argtypes = [vp, i, i, i, i, i]
    L.wave_write_header.restype = None
    L.wave_write_pcm.argtypes = [vp, i, vp, i, i, i]
    L.wave_write_pcm.restype = None
    return L


def tool(name, asan=False):
    """elc3 or dlc3, built from the sources of the tree"""
    return vc.build(name + ('-asan' if asan else ''), [vc.src('tools', f) for f in (name + '.c', 'lc3bin.c', 'wave.c')] + vc.lib_sources(),
                    vc.ASAN if asan else vc.CFLAGS, extra_deps=tool_deps(), incs=[vc.src('tools')])


def pair(v):
    v &= 0xffffffff
    return [v >> 16, v & 0xffff]


def signed(v):
    return v - 2**32 if v >= 2**31 else v


class Dir:
    """Scratch directory"""

    def __enter__(self):
        self.path, self.n = vc.scratch('f-'), 0
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)

    def name(self, content=None):
        self.n += 1
        p = os.path.join(self.path, f'{self.n}')
        if content is not None:
            with open(p, 'wb') as f:
                f.write(content)
        return p


class Stream:
    """A FILE to read content from: a file, or a pipe when short enough"""

    def __init__(self, d, content, pipe=False):
        self.size = len(content)
        if pipe and len(content) < 60000:
            r, w = os.pipe()
            os.write(w, content)
            os.close(w)
            self.fp = _c.fdopen(r, b'rb')
        else:
            self.path = d.name(content)
            self.fp = _c.fopen(self.path.encode(), b'rb')

    def rest(self):
        """What was not read"""
        b = C.create_string_buffer(self.size + 16)
        n = _c.fread(b, 1, self.size + 16, self.fp)
        return b.raw[:n]

    def close(self):
        _c.fclose(self.fp)
        if hasattr(self, 'path'):
            os.unlink(self.path)


def written(d, f):
    """The bytes that f(FILE) writes"""
    p = d.name()
    fp = _c.fopen(p.encode(), b'wb')
    f(fp)
    _c.fclose(fp)
    with open(p, 'rb') as fd:
        b = fd.read()
    os.unlink(p)
    return b


def guarded(size, tail=4096):
    """A buffer and how much of it was touched after `size`"""
    b = np.full(size + tail, 0xA5, np.uint8)

    def over():
        return int((b[size:] != 0xA5).any())
    return b, over


def run(argv, stdin=None, timeout=300, env=None, cwd=None):
    try:
        p = subprocess.run(argv, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=cwd)
    except subprocess.TimeoutExpired:
        raise ValueError(f'{argv} has not ended after {timeout} s')
    return p.returncode, p.stdout, p.stderr.decode(errors='replace')


ASAN_ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=77:allocator_may_return_null=1', UBSAN_OPTIONS='halt_on_error=1:exitcode=78')


def asan_report(rc, err):
    """The error of a sanitizer, or None"""
    import re
    m = re.search(r'(ERROR: AddressSanitizer: [^\n]*|[^\n]*runtime error: [^\n]*)', err)
    if m:
        return m.group(1)[:200] + ' ' + str(re.findall(r' in (\w+) [^\n]*', err)[:4])
    return f'signal {-rc}' if rc < 0 else None


def validate(c, module, cfg, recs, what, describe, env='FILES'):
    """TLC over the records; each counterexample is a violation, its record removed"""
    import tempfile
    left = list(recs)
    for _ in range(6):
        p = tempfile.mktemp(suffix='.ndjson', dir=vc._builddir())
        vc.ndjson(p, left)
        try:
            t = vc.tlc(module, cfg=cfg, env={env: p})
        finally:
            os.unlink(p)
        c.add_tlc(t)
        if t.rc == 0:
            c.traces(len(left))
            return
        import re
        k = int(re.findall(r'(?:fi|wi) = (\d+)', t.trace())[-1])
        c.violation(f'{what}: {describe(left[k - 1])}', dict(record=left[k - 1], trace=t.trace()[:6000]))
        del left[k - 1]
        if not left:
            return
