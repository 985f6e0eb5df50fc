"""Puts the code under test and Hypothesis on the path.

The interpreter is the one the repository is tested with (/opt/venv); Hypothesis lives in the
verification tools' environment.  That directory is appended *last* while Hypothesis and its pure
Python dependencies are imported and removed again, so numpy, scipy, pandas and scikit-learn are
always the repository's own versions.
"""
import os
import sys
import warnings
import logging

REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def boot():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import numpy, scipy, pandas, sklearn, matplotlib  # noqa: F401,E401  (repository versions)

    matplotlib.use("Agg")
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        sys.path.append(_HYP)
        try:
            import hypothesis  # noqa: F401
            import hypothesis.strategies  # noqa: F401
            import hypothesis.stateful  # noqa: F401
            import hypothesis.internal.conjecture.engine  # noqa: F401
        finally:
            sys.path.remove(_HYP)
    warnings.filterwarnings("ignore")
    logging.disable(logging.CRITICAL)
    import robpy

    got = os.path.dirname(os.path.dirname(os.path.realpath(robpy.__file__)))
    if got != REPO:
        raise RuntimeError(f"imported robpy from {got}, expected {REPO}")
