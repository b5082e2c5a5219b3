import faulthandler, importlib, os, signal, sys, threading, time, traceback
sys.path[:0] = [os.path.dirname(os.path.abspath(__file__)), os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'checks')]
sys.dont_write_bytecode = True
os.environ.setdefault('OMP_NUM_THREADS', '4')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '4')


# where calls of the code under test are made, each in an activation of its own
CALLS = {'lc3.py', 'session.py', 'queries.py', 'blocks.py', 'files.py', 'c20.py', 'c22.py'}


def watch(c, ident):
    """A call that does not return: one activation that consumes more than a
    minute of processor time at one place"""
    clock = time.pthread_getcpuclockid(ident)
    last, t0 = None, 0
    while True:
        time.sleep(2)
        f = sys._current_frames().get(ident)
        t = time.clock_gettime(clock)
        if f is None or last is None or f is not last[0] or f.f_lasti != last[1]:
            last, t0 = f and (f, f.f_lasti), t
        elif t - t0 > 60 and os.path.basename(f.f_code.co_filename) in CALLS:
            v = {k: repr(x)[:300] for k, x in list(f.f_locals.items())}
            c.violation(f'a call does not return ({os.path.basename(f.f_code.co_filename)}:{f.f_lineno})', dict(locals=v))
            rc = 1
            try:
                c.finish()
            except SystemExit as e:
                rc = e.code
            sys.stdout.flush()
            os._exit(rc)


def main(pid):
    import vc
    m = importlib.import_module(pid.lower())
    c = vc.Check(pid, getattr(m, 'LEVEL', 'model_checking'))
    # not where the memory of this process is measured
    if getattr(m, 'WATCH', True):
        threading.Thread(target=watch, args=(c, threading.get_ident()), daemon=True).start()
    try:
        m.run(c)
    except (ArithmeticError, AssertionError, AttributeError, LookupError, TypeError, ValueError) as e:
        # the tools raise RuntimeError and OSError: here, the code has returned
        # what no output of the codec is
        traceback.print_exc()
        f = traceback.extract_tb(e.__traceback__)[-1]
        c.violation(f'what the code returned cannot be interpreted: {type(e).__name__}: {e} ({os.path.basename(f.filename)}:{f.lineno})',
                    dict(traceback=traceback.format_exc()))
    c.finish()


def guarded(pid):
    """The check loads the code under test into its own process: that the code
    crashes in calls that are all within the rules is a violation too"""
    sys.stdout.flush()
    child = os.fork()
    if child == 0:
        faulthandler.enable()
        try:
            main(pid)
            rc = 0
        except SystemExit as e:
            rc = e.code if isinstance(e.code, int) else 3
        except BaseException:
            traceback.print_exc()
            rc = 3
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(rc)
    st = os.waitpid(child, 0)[1]
    if os.WIFEXITED(st):
        sys.exit(os.WEXITSTATUS(st))
    sig = os.WTERMSIG(st)
    if sig not in (signal.SIGSEGV, signal.SIGBUS, signal.SIGFPE, signal.SIGILL, signal.SIGABRT):
        sys.exit(3)
    import vc
    c = vc.Check(pid)
    c.violation(f'the library crashed the calling process: {signal.Signals(sig).name}', dict(signal=sig))
    c.finish()


if __name__ == '__main__':
    guarded(sys.argv[1].upper())
