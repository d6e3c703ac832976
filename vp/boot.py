"""Import path set-up: Hypothesis comes from the pre-installed tooling venv, everything else from /opt/venv."""
import sys
_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)
import warnings
warnings.filterwarnings("ignore")


def no_mutations():
    """Hypothesis follows every fresh example by up to five near-copies of it; with a few hundred cases per shard
    fresh examples are worth more."""
    try:
        from hypothesis.internal.conjecture import engine
        engine.ConjectureRunner.generate_mutations_from = lambda self, data: None
    except Exception:
        pass


def native_convolutions():
    """oneDNN in this build of torch crashes on degenerate image shapes: use torch's own kernels"""
    try:
        import torch
        torch._C._set_mkldnn_enabled(False)
    except Exception:
        pass
