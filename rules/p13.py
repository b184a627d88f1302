"""P13: results scale with the units of their inputs."""
from .common import *
from . import quant


def say(name, k, u, want, got):
    return "program %s: result%s scales with power %s of the %s, it must scale with power %s" % (name, k and " " + k, got, quant.NOUN[u], want)


def run(P, tier):
    fs, cov = quant.decide(P, {"$u", "$w", "$h", "$m", "$q"}, "wrong-scaling", say, ("$h", "$m", "$q"))
    cov["explanation"] = ("dimensional analysis: %d client programs are interpreted with returns, positions, horizons, money and prices in symbolic units; the power with which every component of the result scales is computed through all operations "
                          "(products add powers, sums and comparisons need equal powers, tolerances below 1e-7 ignored) and compared with the reviewed powers in specs/quant.json; sums, comparisons and bounds that mix different powers are reported where they happen") % cov["quantity_programs"]
    cov["assumptions"] = ["values are generic: a quantity in symbolic units is not exactly equal to a fixed number", "obligations whose power the analysis cannot establish are counted as undecided and not reported"]
    return fs, cov
