"""Stand-ins for the dependencies of poloidal_grid: splines as uninterpreted smooth functions."""
import z3
from pyvc import loader
from pyvc.core import CTX, S, Unsupported, land, z, subst_value
from pyvc.arrays import elementwise, SArray, asarr, SSeq
from pyvc.loader import Stub

RS, IS = z3.RealSort(), z3.IntSort()


def spline_fun(name, dx, dz):
    return z3.Function(f"SPL_{name}_{dx}_{dz}", RS, RS, RS)


class Spline:
    """RectBivariateSpline: an (assumed differentiable) function with its derivatives"""
    count = 0

    def __init__(self, x, zz, data, *a, **kw):
        self.name = CTX().ghost.setdefault("splines", [])
        self.data = data
        self.x, self.z = x, zz
        self.name.append(self)
        self.id = "RZ"[len(self.name) - 1] if len(self.name) <= 2 else f"X{len(self.name)}"

    def __call__(self, xi, zi, dx=0, dy=0, grid=True):
        if grid is not False and grid != False:  # noqa
            raise Unsupported("spline on a product grid")
        f = spline_fun(self.id, dx, dy)
        op = lambda a, b: S(f(z(a, "r"), z(b, "r")), "r")
        if isinstance(xi, SArray) or isinstance(zi, SArray):
            return elementwise(op, xi, zi, k="r")
        return op(xi, zi)

    def ev(self, xi, zi, dx=0, dy=0):
        return self(xi, zi, dx=dx, dy=dy, grid=False)

    def partial_derivative(self, dx, dy):
        base = self

        class D:
            def __call__(s, xi, zi, grid=True):
                return base(xi, zi, dx=dx, dy=dy, grid=grid)

        return D()


class KD:
    def __init__(self, data, *a, **k):
        self.data = data

    def query(self, *a, **k):
        raise Unsupported("KDTree.query")


class Poly:
    def __init__(self, *a, **k):
        self.area = 0.0


def world(**kw):
    interp = Stub("scipy.interpolate", RectBivariateSpline=Spline)
    spatial = Stub("scipy.spatial", cKDTree=KD, KDTree=KD)
    scipy = Stub("scipy", interpolate=interp, spatial=spatial)
    stubs = {"scipy": scipy, "scipy.interpolate": interp, "scipy.spatial": spatial,
             "shapely": Stub("shapely", Polygon=Poly), "shapely.geometry": Stub("shapely.geometry", Polygon=Poly)}
    stubs.update(kw)
    return loader.World(stubs=stubs)
