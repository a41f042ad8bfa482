"""C23: parallel_slice_field_name for every offset; distinctness over the contract."""
import re
from fractions import Fraction
import z3
from pyvc import core
from pyvc.core import CTX, S, Unsupported, land, lor, lnot, implies, ite, z
from pyvc.harness import ints, reals
from props.pgrid import world

# the variables that are stored for several offsets
VARS = ["R", "Z", "xt_prime", "zt_prime", "xt_primes", "zt_primes", "dx", "dy", "dz", "B", "Bxy", "pressure", "J",
        "gxx", "gxz", "gzz", "gyy", "g_xx", "g_xz", "g_zz", "g_yy", "g11", "g13", "g22", "g33", "g_11", "g_13", "g_22", "g_33"]


def proofs(h):
    m = world().load("zoidberg")
    fn = getattr(m, "parallel_slice_field_name", None)
    if fn is None:
        raise Unsupported("parallel_slice_field_name")
    for v in ("R", "xt_prime", "g_22"):
        integer(h, fn, v)
        half(h, fn, v)
    distinct(h)


def parse(s):
    """literal text and the symbolic integers in it"""
    parts = re.split("\u27e8(\\d+)\u27e9", s)
    return parts[0::2], [core.TOKENS[int(k)] for k in parts[1::2]]


def integer(h, fn, v):
    def run():
        o = ints("o")[0]
        CTX().assume(lor(o >= 1, o <= -1))
        return fn(v, o)

    def post(o):
        if not h.must_return(o):
            return
        k = ints("o")[0]
        ab = ite(k >= 0, k, -k)
        lits, nums = parse(o.value)
        if nums:
            h.prove("offsets beyond one append their distance",
                    land(len(nums) == 1, lits[-1] == "", nums[0] == ab, lor(k > 1, k < -1),
                         lor(land(k > 0, lits[0] == f"forward_{v}_"), land(k < 0, lits[0] == f"backward_{v}_"))))
        else:
            h.prove("offset one has the plain name", lor(land(k == 1, o.value == f"forward_{v}"), land(k == -1, o.value == f"backward_{v}")))

    h.unit(f"parallel_slice_field_name({v}, whole offset)", run, post, ["zoidberg.parallel_slice_field_name"])


def half(h, fn, v):
    def run():
        o = reals("o")[0]
        CTX().assume(land(o < 1, o > -1))
        return fn(v, o)

    def post(o):
        k = reals("o")[0]
        if o.kind != "return":
            if not isinstance(o.value, (AssertionError, ValueError)):
                h.must_return(o)
                return
            h.prove("refused only if not a half", land(lnot(k == 0.5), lnot(k == -0.5)))
            return
        h.prove("half offsets get the cell-face names",
                lor(land(k > 0, o.value == f"{v}_cell_yhigh"), land(k < 0, o.value == f"{v}_cell_ylow")))
        h.prove("any other offset below one is refused (to 1e-6)", lor(land(k < 0.500002, k > 0.499998), land(k > -0.500002, k < -0.499998)))

    h.unit(f"parallel_slice_field_name({v}, offset below one)", run, post, ["zoidberg.parallel_slice_field_name"])


def distinct(h):
    """names of the contract are distinct: two names are equal only for equal variable and offset.

    A name determines its prefix (forward_/backward_) or its suffix (_cell_y...), and what is left
    determines variable and distance unless one variable is another one followed by _digits."""
    def run():
        return 0

    def post(o):
        amb = [(a, b) for a in VARS for b in VARS if re.fullmatch(re.escape(b) + r"_\d+", a)]
        h.prove("no variable is another one followed by _digits", not amb)
        pre = [a for a in VARS if a.startswith(("forward_", "backward_")) or "_cell_y" in a]
        h.prove("no variable looks like a slice name", not pre)

    h.unit("distinct names (lemma over the contract)", run, post, [])
    h.assume("decimal representation of an integer is injective", "variables: " + ", ".join(VARS))
