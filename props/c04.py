"""C04: Catmull-Rom stencil, folded at the x guards, periodic in z."""
from pyvc import loader
from pyvc.core import Unsupported
from props.wshift import catmull_unit, shift_unit
from props.wstencil import stencil_unit


def proofs(h):
    m = loader.World().load("weights")
    catmull_unit(h, m)
    shift_unit(h, m)
    stencil_unit(h, m, rows_only=False)
