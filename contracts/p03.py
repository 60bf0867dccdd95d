"""P03: prior methods on an array are the scalar method applied element by element."""
from pydv.contract import contract
from contracts._priors import FAMILIES, bp, gp


def _make(f):
    for meth in ("rescale", "prob", "ln_prob", "cdf"):
        if meth == "cdf" and f.nocdf:
            continue

        @contract("P03", "%s.%s" % (f.name, meth), cost=f.cost or 1)
        def _(c, meth=meth):
            p = f.make(c)
            if meth == "rescale":
                x = c.array('x', 0, 1, open=bool(f.unbounded))
            else:
                x = c.array('x', 0 if f.pos else None, open=True)
            c.ensure_elementwise('array-is-elementwise-' + meth, getattr(p, meth), x)


for _f in FAMILIES:
    _make(_f)
