"""Kriging cases: a JSON-able description of data, model and targets, turned
into pykrige objects on one side and into the reference system on the other."""
import itertools

import numpy as np

import ref
from common import Reject, Violation, call, check, close


# ------------------------------------------------------------ drift functions
# every function works on scalars and arrays; u, v (, w) are scaled coordinates
G2 = {
    "x": lambda u, v: u * 1.0,
    "y": lambda u, v: v * 1.0,
    "xy": lambda u, v: u * v,
    "x2": lambda u, v: u * u,
    "y2": lambda u, v: v * v,
    "sin": lambda u, v: np.sin(1.7 * u + 0.4) + 0.3 * v,
    "bump": lambda u, v: 1.0 / (1.0 + (u - 0.3) ** 2 + 2.0 * v * v),
}
G3 = {
    "x": lambda u, v, w: u * 1.0,
    "y": lambda u, v, w: v * 1.0,
    "z": lambda u, v, w: w * 1.0,
    "xyz": lambda u, v, w: u * v + 0.5 * w * u,
    "z2": lambda u, v, w: w * w,
    "sin": lambda u, v, w: np.sin(1.7 * u + 0.4) + 0.3 * v - w,
    "bump": lambda u, v, w: 1.0 / (1.0 + (u - 0.3) ** 2 + 2.0 * v * v + w * w),
}


class DriftFn:
    """A drift function of two or three coordinates (can be pickled)."""

    def __init__(self, spec, dim):
        self.spec, self.dim = spec, dim

    def __call__(self, *xyz):
        name, o, s = self.spec[:3]
        g = (G2 if self.dim == 2 else G3)[name]
        return g(*[(v - c) / s for v, c in zip(xyz, o)]) * (self.spec[3] if len(self.spec) > 3 else 1.0)


def drift_fn(spec, dim):
    """spec = [name, origin list, scale, gain (1 if missing)]."""
    return DriftFn(spec, dim)


def bilinear(gx, gy, gz, x, y):
    """Bilinear interpolation on a rectilinear grid, axes in any order."""
    gx, gy, gz = np.asarray(gx, float), np.asarray(gy, float), np.asarray(gz, float)
    ox, oy = np.argsort(gx), np.argsort(gy)
    gx, gy, gz = gx[ox], gy[oy], gz[np.ix_(oy, ox)]
    out = []
    for a, b in zip(np.ravel(x), np.ravel(y)):
        i = min(max(int(np.searchsorted(gx, a, side="right")) - 1, 0), gx.size - 2)
        j = min(max(int(np.searchsorted(gy, b, side="right")) - 1, 0), gy.size - 2)
        t = (a - gx[i]) / (gx[i + 1] - gx[i])
        s = (b - gy[j]) / (gy[j + 1] - gy[j])
        out.append(
            (1 - t) * (1 - s) * gz[j, i]
            + t * (1 - s) * gz[j, i + 1]
            + (1 - t) * s * gz[j + 1, i]
            + t * s * gz[j + 1, i + 1]
        )
    return np.array(out)


def is3d(c):
    return c["cls"].endswith("3D")


def dim(c):
    return 3 if is3d(c) else 2


# ------------------------------------------------------------------ reference
class Reference:
    """Reference predictions for a case (all data, or a subset of it)."""

    def __init__(self, c):
        self.c = c
        self.pts = np.array(c["pts"], dtype=float)
        self.val = np.array(c["val"], dtype=float)
        self.coord = c.get("coord", "euclidean")
        self.g = ref.model_fn(c["model"])
        self.center = (self.pts.min(axis=0) + self.pts.max(axis=0)) / 2.0
        self.apts = self.adj(self.pts)
        # rounding of coordinates carries over to distances
        self.dd = 1e-12 if self.coord == "geographic" else 4e-16 * float(np.max(np.abs(self.apts)))
        self._sys = {}

    def adj(self, xyz):
        xyz = np.asarray(xyz, dtype=float).reshape(-1, dim(self.c))
        if self.coord == "geographic":
            return xyz
        return ref.adjust(xyz, self.center, self.c["scale"], self.c["angle"])

    def drift(self, xyz):
        """Drift columns (without the constant) at original coordinates."""
        xyz = np.asarray(xyz, dtype=float).reshape(-1, dim(self.c))
        a = self.adj(xyz)
        dr = self.c.get("drift") or {}
        cols = []
        if dr.get("regional"):
            cols += [a[:, k] for k in range(a.shape[1])]
        if dr.get("wells"):
            wl = np.array(dr["wells"], dtype=float)
            wa = self.adj(wl[:, :2])
            for k in range(len(wl)):
                d = np.hypot(a[:, 0] - wa[k, 0], a[:, 1] - wa[k, 1])
                same = np.all(xyz == wl[k, :2], axis=1)
                with np.errstate(divide="ignore"):
                    ld = np.where(same, -100.0, np.log(np.where(same, 1.0, d)))
                cols.append(-wl[k, 2] * ld)
        if dr.get("extz"):
            e = dr["extz"]
            cols.append(bilinear(e["x"], e["y"], e["z"], xyz[:, 0], xyz[:, 1]))
        for s in dr.get("spec") or []:
            cols.append(drift_fn(s, xyz.shape[1])(*xyz.T))
        for s in dr.get("func") or []:
            cols.append(drift_fn(s, xyz.shape[1])(*a.T))
        return np.array(cols).reshape(len(cols), len(xyz)).T

    def F(self, xyz):
        xyz = np.asarray(xyz, dtype=float).reshape(-1, dim(self.c))
        return np.hstack([self.drift(xyz), np.ones((len(xyz), 1))])

    def system(self, idx=None):
        key = None if idx is None else tuple(idx)
        if key not in self._sys:
            p = self.pts if idx is None else self.pts[list(idx)]
            a = self.apts if idx is None else self.apts[list(idx)]
            D = ref.dist(a, a, self.coord)
            try:
                self._sys[key] = ref.System(self.g, D, self.F(p), self.dd)
            except ref.IllConditioned as e:
                raise Reject(str(e))
        return self._sys[key]

    def d0(self, targets):
        return ref.dist(self.adj(targets), self.apts, self.coord)

    def krige(self, targets, idx=None, exact=None):
        """est, var, tol_est, tol_var at targets (m, dim)."""
        targets = np.asarray(targets, dtype=float).reshape(-1, dim(self.c))
        exact = self.c.get("exact", True) if exact is None else exact
        sel = list(range(len(self.pts))) if idx is None else list(idx)
        d = self.d0(targets)[:, sel]
        same = self.coincide(targets)[:, sel]
        d = np.where(same, 0.0, d)
        s = self.system(idx)
        zero = same if exact else np.zeros(same.shape, dtype=bool)
        try:
            out = s.krige(d, zero, self.F(targets), self.val[sel])
        except ref.IllConditioned as e:
            raise Reject(str(e))
        self.last_w = s.w
        return out

    def coincide(self, targets):
        """Which targets are at which data points (exact coordinates)."""
        targets = np.asarray(targets, dtype=float)
        if self.coord == "geographic":
            return ref.dist(targets, self.pts, self.coord) < 1e-10
        return np.all(targets[:, None, :] == self.pts[None, :, :], axis=2)

    def nearest(self, targets, k):
        """Index lists of the k nearest data points; Reject on ties."""
        d = self.d0(targets)
        n = d.shape[1]
        k = min(k, n)
        order = np.argsort(d, axis=1, kind="stable")
        if k < n:
            ds = np.sort(d, axis=1)
            gap = ds[:, k] - ds[:, k - 1]
            if np.any(gap <= 1e-7 * (1e-9 + ds[:, k])):
                raise Reject("tie at the edge of the window")
        return [sorted(int(i) for i in row[:k]) for row in order]

    def untied(self, targets, k):
        """The targets whose k nearest data points are beyond doubt."""
        out = []
        for t in targets:
            try:
                self.nearest(np.array([t], dtype=float), k)
                out.append(t)
            except Reject:
                pass
        if not out:
            raise Reject("only ties")
        return out

    def krige_window(self, targets, k, exact=None):
        """As krige, using the k nearest data points of each target."""
        targets = np.asarray(targets, dtype=float).reshape(-1, dim(self.c))
        outs = []
        for t, idx in zip(targets, self.nearest(targets, k)):
            outs.append([o[0] for o in self.krige(t[None, :], idx=idx, exact=exact)])
        return tuple(np.array(col) for col in zip(*outs))


# -------------------------------------------------------------------- pykrige
def variogram_args(model):
    """Keyword arguments for pykrige from a model description."""
    name, p, form = model["name"], model.get("params"), model.get("form", "list")
    if name == "gstools":
        return dict(variogram_model=ref.gs_model(model["gs"]))
    if p is None:
        return dict(variogram_model=name)
    p = list(p)
    if name == "custom":
        return dict(
            variogram_model="custom",
            variogram_parameters=p,
            variogram_function=ref.CUSTOM[model["fn"]],
        )
    if name == "linear":
        v = p if form == "list" else {"slope": p[0], "nugget": p[1]}
    elif name == "power":
        v = p if form == "list" else {"scale": p[0], "exponent": p[1], "nugget": p[2]}
    elif form == "list":
        v = [p[0] + p[2], p[1], p[2]]
    elif form == "sill":
        v = {"sill": p[0] + p[2], "range": p[1], "nugget": p[2]}
    else:
        v = {"psill": p[0], "range": p[1], "nugget": p[2]}
    return dict(variogram_model=name, variogram_parameters=v)


def aniso_args(c):
    if c["model"]["name"] == "gstools":
        return {}  # given by the model
    if is3d(c):
        return dict(
            anisotropy_scaling_y=c["scale"][0],
            anisotropy_scaling_z=c["scale"][1],
            anisotropy_angle_x=c["angle"][0],
            anisotropy_angle_y=c["angle"][1],
            anisotropy_angle_z=c["angle"][2],
        )
    return dict(anisotropy_scaling=c["scale"][0], anisotropy_angle=c["angle"][0])


def drift_args(c):
    dr = c.get("drift") or {}
    d = dim(c)
    pts = np.array(c["pts"], dtype=float)
    kw = {}
    terms = []
    if dr.get("regional"):
        terms.append("regional_linear")
    if dr.get("wells"):
        terms.append("point_log")
        kw["point_drift"] = np.array(dr["wells"], dtype=float)
    if dr.get("extz"):
        e = dr["extz"]
        terms.append("external_Z")
        kw["external_drift"] = np.array(e["z"], dtype=float)
        kw["external_drift_x"] = np.array(e["x"], dtype=float)
        kw["external_drift_y"] = np.array(e["y"], dtype=float)
    if dr.get("spec"):
        terms.append("specified")
        kw["specified_drift"] = [drift_fn(s, d)(*pts.T) for s in dr["spec"]]
    if dr.get("func"):
        terms.append("functional")
        kw["functional_drift"] = [drift_fn(s, d) for s in dr["func"]]
    if dr.get("reverse"):
        terms = terms[::-1]
    kw["drift_terms"] = terms
    return kw


def classes():
    from pykrige.ok import OrdinaryKriging
    from pykrige.ok3d import OrdinaryKriging3D
    from pykrige.uk import UniversalKriging
    from pykrige.uk3d import UniversalKriging3D

    return {
        "OK": OrdinaryKriging,
        "OK3D": OrdinaryKriging3D,
        "UK": UniversalKriging,
        "UK3D": UniversalKriging3D,
    }


def ctor_args(c):
    pts = np.array(c["pts"], dtype=float)
    args = [pts[:, k].copy() for k in range(pts.shape[1])]
    args.append(np.array(c["val"], dtype=float))
    kw = variogram_args(c["model"])
    kw.update(aniso_args(c))
    if c["cls"] == "OK" and c.get("coord"):
        kw["coordinates_type"] = c["coord"]
        if c["coord"] == "geographic":
            kw.pop("anisotropy_scaling", None)
            kw.pop("anisotropy_angle", None)
    if not c.get("exact", True):
        kw["exact_values"] = False
    if c.get("pinv"):
        kw["pseudo_inv"] = True
        kw["pseudo_inv_type"] = c["pinv"]
    if c["cls"].startswith("UK"):
        kw.update(drift_args(c))
    if c.get("nlags"):
        kw["nlags"] = c["nlags"]
    if c.get("weight"):
        kw["weight"] = True
    return args, kw


def build(c, **over):
    args, kw = ctor_args(c)
    kw.update(over)
    return call("%s()" % c["cls"], classes()[c["cls"]], *args, **kw)


def grid_targets(axes):
    """Targets in documented order: [y][x] or [z][y][x] (x fastest)."""
    return np.array(
        [list(reversed(t)) for t in itertools.product(*reversed([list(a) for a in axes]))],
        dtype=float,
    ).reshape(-1, len(axes))


def spec_arrays(c, targets, shape=None):
    dr = c.get("drift") or {}
    if not dr.get("spec"):
        return None
    out = []
    for s in dr["spec"]:
        v = np.asarray(drift_fn(s, dim(c))(*np.asarray(targets, float).T), dtype=float)
        out.append(v.reshape(shape) if shape is not None else v)
    return out


def into(buf, key, a):
    """A copy of the array, in the array that was used last time (if it fits)."""
    a = np.array(a)
    if buf is None:
        return a
    k = (key, a.shape, a.dtype.str)
    if k not in buf:
        buf[k] = a
    buf[k][...] = a
    return buf[k]


def execute(c, obj, style, axes, backend="vectorized", window=None, mask=None, spec=None, buf=None):
    """Run pykrige; returns the raw (z, ss).

    buf: dict of arrays that are filled again for every call."""
    kw = dict(backend=backend)
    if mask is not None:
        kw["mask"] = into(buf, "mask", mask)
    if window is not None:
        kw["n_closest_points"] = window
    axes = [into(buf, i, np.array(a, dtype=float)) for i, a in enumerate(axes)]
    if (c.get("drift") or {}).get("spec"):
        if spec is None:
            if style == "points":
                spec = spec_arrays(c, np.array(axes).T)
            else:
                spec = spec_arrays(
                    c, grid_targets(axes), tuple(len(a) for a in reversed(axes))
                )
        kw["specified_drift_arrays"] = [into(buf, "spec%d" % i, a) for i, a in enumerate(spec)] if buf is not None else spec
    what = "%s.execute(%s, %s%s)" % (
        c["cls"],
        style,
        backend,
        "" if window is None else ", window=%d" % window,
    )
    r = call(what, obj.execute, style, *axes, **kw)
    check(
        isinstance(r, tuple) and len(r) == 2, "%s returned %s", what, type(r).__name__
    )
    return r


def plain(what, a, shape):
    """Array without masked entries, of the expected shape."""
    check(np.shape(a) == tuple(shape), "%s has shape %s, expected %s", what, np.shape(a), shape)
    m = np.ma.getmaskarray(a)
    check(not np.any(m), "%s has masked entries", what)
    return np.array(np.ma.getdata(a), dtype=float)


def points(c, obj, targets, backend="vectorized", window=None):
    """Points-style execution -> 1D arrays."""
    t = np.asarray(targets, dtype=float).reshape(-1, dim(c))
    z, s = execute(c, obj, "points", list(t.T), backend, window)
    return plain("estimates", z, (len(t),)), plain("variances", s, (len(t),))


def backends(c, window=None):
    b = ["loop"] if window is not None else ["vectorized", "loop"]
    if c["cls"] == "OK" and c["model"]["name"] not in ("custom", "hole-effect", "gstools"):
        b.append("C")
    return b


def compare(what, got, want):
    """got = (z, ss), want = (est, var, tol_est, tol_var)."""
    close(what + " estimate", got[0], want[0], want[2])
    close(what + " variance", got[1], want[1], want[3])
