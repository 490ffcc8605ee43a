"""Boilerplate of the rules that compare routines with reference definitions."""
from . import spec

EXPLANATION = (
    "Every routine listed is compiled from the current tree and brought into gated-sum normal form: the value it returns, "
    "every location it leaves changed and every call with an effect, each with its condition and the iteration it happens "
    "in, as polynomials over loads, arguments, branch indicators and sums over list walks or ranges. The reference "
    "definition (sa/spec) goes through the same pipeline; the two normal forms must be identical. Helpers, the form of "
    "loops and branches, the order of independent statements and the way an expression is written do not matter. A routine "
    "whose loops or memory use cannot be brought into closed form on either side is listed as not decided and never "
    "reported.")
ASSUMPTIONS = ["rounding and integer overflow are ignored (values are compared as exact numbers)",
               "list walked by a loop is not changed under the cursor by calls made from the loop body",
               "objects of different structure fields do not overlap"]


def make(mod, files, need, what='', limit=60, only=None):
    mod['EXPLANATION'] = EXPLANATION
    mod['RULE'] = 'normal form of the routine equals the normal form of its reference definition'
    mod['ASSUMPTIONS'] = ASSUMPTIONS

    def run(ctx):
        spec.run(ctx, files, need, what, min(limit * 5, 700) if ctx.tier == 'thorough' else limit, only)
    mod['run'] = run
