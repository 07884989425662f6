"""Fits of the registry in a fresh interpreter: `python -m vf.fresh SEED IDX LABEL...` prints one digest per value."""
import hashlib
import json
import sys


def digests(seed, idx, labels):
    """{label: {result key: digest}} of registry fits that depend on (seed, idx, label) alone"""
    import numpy as np
    import spreg
    from . import core, models
    from .checks import c13
    out = {}
    for label in labels:
        ctx = core.Ctx("C12", "fresh-" + label, idx, "quick", seed)
        try:
            with ctx.quiet():
                m = c13.instance(ctx, label, kmin=3 if idx % 2 else 1)
        except core.Skip:
            continue
        if "x" in m.roles and "regimes" in m.roles and idx % 2 and isinstance(m.kw["x"], np.ndarray) and m.d.k > 2:
            first = np.array([r == list(m.kw["regimes"])[0] for r in m.kw["regimes"]])
            m.kw["x"] = np.array(m.kw["x"], float)
            m.kw["x"][first, :2] = 1.5        # constant in one regime: removed with a warning
        try:
            with ctx.quiet():
                r = m.call(spreg)
            vals = dict(models.flat(r), warning=getattr(r, "warning", None), summary=getattr(r, "summary", None))
        except Exception as e:
            vals = {"exception": "%s: %s" % (type(e).__name__, str(e)[:200])}
        out[label] = {k: hashlib.sha1(v.tobytes() + str(v.shape).encode() if isinstance(v, np.ndarray) else repr(v).encode()
                                      ).hexdigest()[:12] for k, v in vals.items()}
    return out


if __name__ == "__main__":
    from vf import core
    core.load_spreg()
    print("DIGESTS " + json.dumps(digests(int(sys.argv[1]), int(sys.argv[2]), sys.argv[3:])))
