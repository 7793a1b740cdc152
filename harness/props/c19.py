"""C19: ASCII grid files round-trip."""
import os

import numpy as np
from hypothesis import strategies as st

import gridio as G
from common import Reject, Violation, call, call_warn, check, close, must_raise
from proptest import T


@st.composite
def case(draw):
    c = draw(G.grid())
    c["style"] = draw(st.sampled_from([1, 2, None]))
    if c["style"] == 2:
        c["y"][1] = c["x"][1]
    c["footer"] = draw(st.lists(st.sampled_from(["end", "created by me", "1 2 3", "NODATA_VALUE 3"]), max_size=3))
    return c


def _tools():
    from pykrige import kriging_tools as kt

    return kt


def check_layout(f, c, z):
    """The file has the lines that its header promises."""
    with open(f) as h:
        lines = h.read().rstrip("\n").split("\n")
    k = 6 if c["style"] == 2 else 7
    head = {ln.split()[0].upper(): ln.split()[1] for ln in lines[:k]}
    check(set(head) == {"NCOLS", "NROWS", "NODATA_VALUE"} | ({"XLLCORNER", "YLLCORNER", "CELLSIZE"} if k == 6 else {"XLLCENTER", "YLLCENTER", "DX", "DY"}),
          "header keys %s", sorted(head))
    check([int(head["NROWS"]), int(head["NCOLS"])] == list(z.shape), "header gives %s", head)
    check(len(lines) == k + z.shape[0] and all(len(ln.split()) == z.shape[1] for ln in lines[k:]),
          "body of %d lines with %s values for shape %s", len(lines) - k, sorted({len(ln.split()) for ln in lines[k:]}), z.shape)


def check_roundtrip(c):
    kt = _tools()
    x, y, z = G.arrays(c)
    m = np.zeros(z.shape, bool) if c["mask"] is None else np.array(c["mask"]).reshape(z.shape)
    nod = float(c["no_data"])
    nod2 = float("%.2f" % nod)
    if np.any(np.abs(z[~m] - nod2) < 0.02):
        raise Reject("a value equals the no-data value")
    f = G.path("g.asc")
    ax, ay, az = G.arguments(c)
    snap = [G.snapshot(a) for a in (ax, ay, az)]
    kw = {} if c["style"] is None else {"style": c["style"]}
    if c["no_data"] != -999.0 or c["style"] == 1:
        kw["no_data"] = c["no_data"]
    w = call_warn("write_asc_grid", kt.write_asc_grid, ax, ay, az, filename=f, **kw)[1]
    check(not runtime(w), "a warning about a regular grid")
    check_layout(f, c, z)
    for nm, a, s in zip("xyz", (ax, ay, az), snap):
        check(G.unchanged(a, s), "write_asc_grid modified %s", nm)
    if c["footer"]:
        with open(f, "a") as h:
            h.write("\n" + "\n".join(c["footer"]) + "\n")
    skip = len(c["footer"])
    g = call("read_asc_grid", kt.read_asc_grid, f, **({"footer": skip} if skip else {}))
    _compare(c, g, x, y, z, m, nod2)
    # writing again what was read
    f2 = G.path("h.asc")
    call("write_asc_grid of what was read", kt.write_asc_grid, g[1], g[2], g[0], filename=f2, no_data=g[4],
         style=1 if isinstance(g[3], tuple) else 2)
    h = call("read_asc_grid", kt.read_asc_grid, f2)
    check(np.array_equal(h[0], g[0]), "values change when a grid is rewritten")
    close("x after rewriting", h[1], g[1], 3 * G.coord_tol(c["x"], c["y"]))
    close("y after rewriting", h[2], g[2], 3 * G.coord_tol(c["x"], c["y"]))
    check(h[4] == g[4], "no-data value after rewriting")
    check(isinstance(h[3], tuple) == isinstance(g[3], tuple), "cell size after rewriting")
    for q in (f, f2):
        os.remove(q)
    return dict(style=c["style"], form=c["form"], masked="all" if m.all() else "some" if m.any() else "no",
                square=z.shape[0] == z.shape[1], footer=bool(skip), nontrivial=len(set(z.ravel().tolist())) > 1)


def _compare(c, g, x, y, z, m, nod):
    check(isinstance(g, tuple) and len(g) == 5, "read_asc_grid returned %d items", len(g))
    gz, gx, gy, cs, nd = g
    check(np.shape(gz) == z.shape, "grid of shape %s read as %s", z.shape, np.shape(gz))
    check(np.shape(gx) == x.shape and np.shape(gy) == y.shape, "coordinates of sizes %s, %s read as %s, %s",
          x.shape, y.shape, np.shape(gx), np.shape(gy))
    close("values", np.asarray(gz)[~m], z[~m], 0.005 * (1 + 1e-9) + 1e-15 * np.abs(z[~m]))
    check(nd == nod, "no-data value %s read as %s", nod, nd)
    check(np.all(np.asarray(gz)[m] == nd), "masked cells hold %s", np.asarray(gz)[m][:5])
    check(not np.any(np.asarray(gz)[~m] == nd), "no-data value at cells that are not masked")
    tx, ty = G.coord_tol(c["x"]), G.coord_tol(c["y"])
    if c["style"] == 2:
        tx = ty = G.coord_tol(c["x"], c["y"])
    close("x", gx, x, tx)
    close("y", gy, y, ty)
    if c["style"] == 2:
        check(np.ndim(cs) == 0, "cell size %s", cs)
        close("cell size", cs, c["x"][1], tx)
    else:
        check(len(cs) == 2, "cell size %s", cs)
        close("cell sizes", cs, [c["x"][1], c["y"][1]], [tx, ty])


def runtime(w):
    return any(issubclass(q.category, RuntimeWarning) for q in w)


@st.composite
def odd_case(draw):
    c = draw(G.grid())
    c["style"] = draw(st.sampled_from([1, 2]))
    if c["style"] == 2:
        c["y"][1] = c["x"][1]
    c["what"] = draw(st.sampled_from(["x", "y", "both", "rows", "columns", "transposed"]))
    return c


def check_warned(c):
    """Coordinates that do not fit the grid, or run downwards."""
    x, y, z = G.arguments(c)
    w = c["what"]
    if w in ("x", "both"):
        x = x[::-1]
    if w in ("y", "both"):
        y = y[::-1]
    if w == "transposed":
        z = z.T if hasattr(z, "T") else np.array(z).T
        if z.shape == (c["y"][2], c["x"][2]):
            raise Reject("square")
    if w == "rows":
        z = z[:-1] if c["y"][2] > 2 else np.ma.concatenate([z, z])
    if w == "columns":
        z = np.ma.array(z)
        z = z[:, :-1] if c["x"][2] > 2 else np.ma.concatenate([z, z], axis=1)
    try:
        got = runtime(call_warn("write_asc_grid", _tools().write_asc_grid, x, y, z, filename=G.path("odd.asc"), style=c["style"])[1])
    except Violation:
        got = True  # refused
    check(got, "no warning about a grid with %s", w)
    return dict(what=w, style=c["style"], nontrivial=True)


@st.composite
def bad_case(draw):
    c = draw(G.grid())
    c["style"] = draw(st.sampled_from([1, 2]))
    c["what"] = draw(st.sampled_from(["x", "y", "both", "cell", "style"]))
    c["mask"] = None
    c["form"] = draw(st.sampled_from(["float", "list", "column"]))
    c["ux"], c["uy"] = draw(G.uneven(c["x"])), draw(G.uneven(c["y"]))
    c["ratio"] = draw(st.sampled_from([1.02, 0.5, 2.0, 0.98, 10.0]))
    return c


def check_refused(c, writer=None, exists=None):
    writer = writer or (lambda *a, **k: _tools().write_asc_grid(*a, style=c["style"], **k))
    w = c["what"]
    if w == "style":
        c = dict(c, style=3)
        writer = lambda *a, **k: _tools().write_asc_grid(*a, style=3, **k)  # noqa: E731
    if w == "cell":
        if writer is not None and c["style"] == 1:
            c = dict(c, style=2)
            writer = lambda *a, **k: _tools().write_asc_grid(*a, style=2, **k)  # noqa: E731
        c["y"][1] = c["x"][1] * c["ratio"]
    elif c["style"] == 2:
        c["y"][1] = c["x"][1]
        s = c["ux"], c["uy"]
        c["uy"] = [c["y"][0] + (v - s[1][0]) / (s[1][-1] - s[1][0]) * c["y"][1] * (len(s[1]) - 1) for v in s[1]]
    x, y = G.coords(c["x"]), G.coords(c["y"])
    if w in ("x", "both"):
        x = np.array(c["ux"])
    if w in ("y", "both"):
        y = np.array(c["uy"])
    z = np.resize(np.array(c["z"], float), (y.size, x.size))
    f = G.path("bad.out")
    if c["form"] == "column":
        x, y = x[:, None], y[:, None]
    elif c["form"] == "list":
        x, y = list(x), list(y)
    must_raise("writing a grid with %s" % {"cell": "different spacings in style 2", "style": "style 3"}.get(w, "uneven " + w),
               writer, x, y, z, filename=f)
    return dict(what=w, style=c["style"], nontrivial=True)


@st.composite
def large(draw):
    c = draw(G.large())
    c["style"] = draw(st.sampled_from([1, 2, None]))
    if c["style"] == 2:
        c["y"][1] = c["x"][1]
    c["footer"] = []
    return c


def check_large(c):
    return check_roundtrip(G.expand(c))


TESTS = [
    T("roundtrip", case(), check_roundtrip, 4000),
    T("warned", odd_case(), check_warned, 500),
    T("refused", bad_case(), check_refused, 1500),
    T("large", large(), check_large, 160),
]
