"""P08: probabilities and weights that are normalised by the package act only through their proportions."""
from .common import *
from . import quant


def say(name, k, u, want, got):
    if u == "$s":
        return "program %s: result%s is not normalised: it still carries power %s of the scale of the exponential weights" % (name, k and " " + k, got)
    return "program %s: result%s changes with power %s of the %s: the values enter without having been normalised" % (name, k and " " + k, got, quant.NOUN[u])


def run(P, tier):
    fs, cov = quant.decide(P, {"$p", "$r", "$s"}, "unnormalised-probabilities", say)
    cov["explanation"] = ("scale analysis: %d client programs are interpreted with probability vectors (scenario, stressed, sample and ensemble weights) of a symbolic total; the power with which each result component depends on that total must be the reviewed one in specs/quant.json, "
                          "which is zero wherever the package normalises. Exponential kernels are given a symbolic scale of their own, so that probability vectors built from them are shown to be normalised as well") % cov["quantity_programs"]
    return fs, cov
