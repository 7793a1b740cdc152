"""C20: ZMAP grid files round-trip."""
import os

import numpy as np
from hypothesis import strategies as st

import gridio as G
from common import Reject, call, check, close
from proptest import T
from props import c19

NAME = st.text(st.characters(min_codepoint=32, max_codepoint=126), max_size=24).map(str.strip)


def _tools():
    from pykrige import kriging_tools as kt

    return kt


@st.composite
def case(draw):
    c = draw(G.grid())
    c["name"] = draw(st.one_of(st.none(), NAME, st.sampled_from(["EPSG:4326", "WGS 84 / UTM zone 32N", "a: b: c", "@x"])))
    n = len(c["z"])
    c["nan"] = draw(st.lists(st.integers(0, n - 1), max_size=3)) if c["form"] not in ("int",) else []
    return c


def digits(v):
    v = np.abs(v)
    return np.where(v >= 1e6, 0.5e-7 * v * (1 + 1e-6), 0.00005 * (1 + 1e-9) + 1e-15 * v)


def check_layout(f, z, m, x, y, nod):
    """The file as a reader of fixed-width fields sees it."""
    with open(f) as h:
        lines = h.read().split("\n")
    at = [i for i, ln in enumerate(lines) if ln.startswith("@")]
    check(len(at) == 2 and all(ln.startswith("!") for ln in lines[: at[0]]), "header marks at lines %s", at)
    per = int(lines[at[0]].split(",")[-1])
    head = [[t.strip() for t in ln.split(",")] for ln in lines[at[0] + 1: at[1]]]
    check(len(head) == 3, "%d header lines", len(head))
    width = int(head[0][0])
    check([int(t) for t in head[1][:2]] == [y.size, x.size], "header gives %s for shape %s", head[1][:2], z.shape)
    body = [ln for ln in lines[at[1] + 1:] if ln]
    k = -(-y.size // per)
    check(len(body) == k * x.size, "%d body lines for %d columns of %d rows, %d per line", len(body), x.size, y.size, per)
    got = np.empty(z.shape)
    for n in range(x.size):
        col = []
        for ln in body[n * k: (n + 1) * k]:
            check(len(ln) % width == 0 and len(ln) <= per * width, "line of %d characters, fields of %d", len(ln), width)
            col += [float(ln[i: i + width]) for i in range(0, len(ln), width)]
        check(len(col) == y.size, "%d values in column %d", len(col), n)
        got[:, n] = col[::-1]
    close("values in the file", got[~m], z[~m], digits(z[~m]))
    check(np.all(got[m] == float(head[0][1])), "missing cells in the file")


def check_roundtrip(c):
    kt = _tools()
    x, y, z = G.arrays(c)
    m = np.zeros(z.shape, bool) if c["mask"] is None else np.array(c["mask"]).reshape(z.shape)
    ax, ay, az = G.arguments(c)
    if c["nan"]:
        if isinstance(az, list):
            az = np.array(az)
        az = az.copy()
        np.ma.getdata(az)[np.unravel_index(c["nan"], z.shape)] = np.nan
        m = m.copy()
        m[np.unravel_index(c["nan"], z.shape)] = True
    nod = float(c["no_data"])
    want = nod if abs(nod) < 1e6 else float("%.7E" % nod)
    if np.any(np.abs(z[~m] - nod) < 1e-3 + 1e-6 * abs(nod)):
        raise Reject("a value equals the no-data value")
    f = G.path("g.zmap")
    snap = [G.snapshot(a) for a in (ax, ay, az)]
    kw = {} if c["name"] is None else {"coord_sys": c["name"]}
    if c["no_data"] != -999.0:
        kw["no_data"] = c["no_data"]
    call("write_zmap_grid", kt.write_zmap_grid, ax, ay, az, filename=f, **kw)
    for nm, a, s in zip("xyz", (ax, ay, az), snap):
        check(G.unchanged(a, s), "write_zmap_grid modified %s", nm)
    check_layout(f, z, m, x, y, nod)
    g = call("read_zmap_grid", kt.read_zmap_grid, f)
    check(isinstance(g, tuple) and len(g) == 6, "read_zmap_grid returned %d items", len(g))
    gz, gx, gy, cs, nd, name = g
    check(np.shape(gz) == z.shape, "grid of shape %s read as %s", z.shape, np.shape(gz))
    check(np.shape(gx) == x.shape and np.shape(gy) == y.shape, "coordinates of sizes %s, %s read as %s, %s",
          x.shape, y.shape, np.shape(gx), np.shape(gy))
    gz = np.asarray(gz)
    close("values", gz[~m], z[~m], digits(z[~m]))
    close("no-data value", nd, want, digits(np.array(nod)))
    check(np.all(gz[m] == nd), "missing cells hold %s, the no-data value is %s", gz[m][:5], nd)
    check(not np.any(gz[~m] == nd), "no-data value at cells that are not missing")
    tx, ty = G.coord_tol(c["x"]), G.coord_tol(c["y"])
    close("x", gx, x, tx)
    close("y", gy, y, ty)
    close("cell sizes", cs, [c["x"][1], c["y"][1]], [tx, ty])
    check(name == ("<null>" if c["name"] is None else c["name"]), "coordinate system %r read as %r", c["name"], name)
    os.remove(f)
    return dict(form=c["form"], masked="all" if m.all() else "some" if m.any() else "no", nan=bool(c["nan"]),
                rows_mod5=z.shape[0] % 5, name=c["name"] is not None,
                big=bool(np.any(np.abs(z) >= 1e6)), nontrivial=len(set(z.ravel().tolist())) > 1)


def check_refused(c):
    if c["what"] in ("cell", "style"):
        c = dict(c, what="both" if c["what"] == "cell" else "x")
    return c19.check_refused(dict(c, style=1), lambda *a, **k: _tools().write_zmap_grid(*a, **k))


@st.composite
def large(draw):
    return dict(draw(G.large()), name=None)


def check_large(c):
    return check_roundtrip(G.expand(c))


TESTS = [
    T("roundtrip", case(), check_roundtrip, 4000),
    T("refused", c19.bad_case(), check_refused, 1500),
    T("large", large(), check_large, 160),
]
