"""Makes the repository importable in this sandbox (no gmpy2/numba; numpy newer than the pinned one).

compat(): restores, for the modules that use them, two behaviours of the pinned numpy 1.21 that the sandbox's
numpy 2.x dropped: float() of a one-element array and building an object array from ragged rows.
"""
import os, sys, builtins, warnings
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
for p in (os.path.join(HERE, "shims"), REPO):
    if p not in sys.path: sys.path.insert(0, p)
_vs = "/opt/venv/lib/python3.12/site-packages"
if _vs not in sys.path: sys.path.append(_vs)
os.environ.setdefault("PROTOCOL_BUFFERS_PYTHON_IMPLEMENTATION", "python")
warnings.filterwarnings("ignore")
import numpy as np

class _FloatMeta(type(float)):
    def __instancecheck__(cls, x): return isinstance(x, builtins.float)
    def __subclasscheck__(cls, c): return issubclass(c, builtins.float)
    def __call__(cls, x=0.0, *a):
        if isinstance(x, np.ndarray) and x.size == 1: return builtins.float(x.reshape(-1)[0])
        return builtins.float(x, *a)
class compat_float(builtins.float, metaclass=_FloatMeta): pass

class _NP:
    """numpy with the 1.21 behaviour of np.array on ragged input."""
    def __getattr__(self, k): return getattr(np, k)
    @staticmethod
    def array(obj, *a, **k):
        try: return np.array(obj, *a, **k)
        except ValueError as e:
            if "inhomogeneous" not in str(e): raise
            return np.array(obj, dtype=object)
_np = _NP()

_FLOAT = ["ml.tree.hetero_secureboosting_tree_guest", "xgboost.hetero_secureboosting_tree_guest",
          "ml.secureprotol.encrypt", "ml.loss.regression_loss", "ml.loss.cross_entropy", "ml.statistic.statics",
          "ml.feature.quantile_summaries"]
_ARR = ["ml.feature.binning.base_binning", "ml.feature.binning.quantile_binning"]
def compat():
    import importlib
    for m in _FLOAT:
        mod = importlib.import_module(m); mod.float = compat_float
    for m in _ARR:
        mod = importlib.import_module(m)
        if getattr(mod, "np", None) is np: mod.np = _np

if os.environ.get("VERIF_COVER"):                  # development aid: which lines of the repository the drivers reach
    _seen = set(); _mon = sys.monitoring; _mon.use_tool_id(3, "cover")
    def _line(code, n):
        if code.co_filename.startswith(REPO + "/"): _seen.add((code.co_filename[len(REPO) + 1:], n))
        return _mon.DISABLE
    _mon.register_callback(3, _mon.events.LINE, _line); _mon.set_events(3, _mon.events.LINE)
    import atexit
    @atexit.register
    def _dump():
        with open("%s.%d" % (os.environ["VERIF_COVER"], os.getpid()), "w") as f: f.writelines("%s %d\n" % x for x in sorted(_seen))
