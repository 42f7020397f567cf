"""Helpers shared by the drivers that execute the real code."""
import signal, contextlib, random, os, sys, threading

class Hang(BaseException): pass

@contextlib.contextmanager
def limit(seconds):
    """Raises Hang inside the code under test when it runs for too long (main thread only): by the processor time it took, or by a
    multiple of it on the clock, so that a busy machine does not make it look stuck."""
    def h(*a): raise Hang()
    old = signal.signal(signal.SIGALRM, h); prof = signal.signal(signal.SIGPROF, h)
    signal.setitimer(signal.ITIMER_REAL, seconds * 4); signal.setitimer(signal.ITIMER_PROF, seconds * 1.5)
    try: yield
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0); signal.setitimer(signal.ITIMER_REAL, 0); signal.signal(signal.SIGPROF, prof); signal.signal(signal.SIGALRM, old)

def attempt(f, seconds=20):
    """(outcome, value): outcome 'ok', the exception class name, or 'hang'."""
    try:
        with limit(seconds): return "ok", f()
    except Hang: return "hang", None
    except Exception as e: return type(e).__name__, e

def rng(seed, *salt):
    return random.Random("%s/%s" % (seed, "/".join(map(str, salt))))
