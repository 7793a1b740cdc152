"""C21: header variants and damaged grid files."""
import os

import numpy as np
from hypothesis import strategies as st

import gridio as G
from common import call, check, close, must_raise
from proptest import T


def _kt():
    from pykrige import kriging_tools as kt

    return kt


def number():
    """A decimal literal."""
    return st.one_of(
        st.integers(-99999, 99999).map(str),
        st.tuples(st.integers(-99999, 99999), st.integers(1, 5)).map(lambda t: "%.*f" % (t[1], t[0] / 10.0 ** t[1])),
        st.tuples(st.integers(-999, 999), st.integers(-6, 12)).map(lambda t: "%de%d" % t),
        st.tuples(st.integers(-999, 999), st.integers(0, 9)).map(lambda t: "%.3E" % (t[0] * 10.0 ** t[1])),
        st.sampled_from(["0", "-0.0", "+1.5", ".5", "3.", "-999.00", "1e+30"]),
    )


SP = st.sampled_from([" ", " ", "  ", "\t", "          ", " \t "])
CASE = {"lower": str.lower, "upper": str.upper, "title": str.title, "swap": lambda s: s[:1].lower() + s[1:].upper()}


@st.composite
def asc(draw, size=None):
    """A valid ASCII grid file as parts."""
    nc, nr = size or (draw(st.integers(1, 6)), draw(st.integers(1, 6)))
    o = [draw(st.integers(-10**6, 10**6)) / 1000.0 for _ in range(2)]
    d = [draw(G.spacing()) for _ in range(2)]
    c = {"nc": nc, "nr": nr, "origin": ["%.6g" % v for v in o], "d": ["%.8g" % v for v in d]}
    c["corner"] = draw(st.booleans())
    c["one"] = draw(st.booleans())
    keys = ["ncols", "nrows"] + (["xllcorner", "yllcorner"] if c["corner"] else ["xllcenter", "yllcenter"])
    keys += [draw(st.sampled_from(["cellsize", "cell_size"]))] if c["one"] else ["dx", "dy"]
    keys += [draw(st.sampled_from(["nodata_value", "nodatavalue"]))]
    c["nodata"] = draw(st.sampled_from(["-999", "-9999.0", "1e30", "0", "-1.5E+3"]))
    c["keys"] = draw(st.permutations(keys)) if draw(st.booleans()) else keys
    c["case"] = draw(st.sampled_from(sorted(CASE)))
    c["sep"] = draw(SP)
    c["lead"] = draw(st.sampled_from(["", "", " ", "\t"]))
    c["tail"] = draw(st.sampled_from(["", "", "  ", "\t"]))
    c["eol"] = draw(st.sampled_from(["\n", "\n", "\r\n"]))
    c["final"] = draw(st.booleans())
    c["body"] = [draw(st.lists(number(), min_size=nc, max_size=nc)) for _ in range(nr)]
    c["footer"] = draw(st.lists(st.sampled_from(["end", "some text here", "1 2", "NCOLS 3"]), max_size=2))
    return c


def header(c):
    v = {"ncols": c["nc"], "nrows": c["nr"], "xllcorner": c["origin"][0], "xllcenter": c["origin"][0],
         "yllcorner": c["origin"][1], "yllcenter": c["origin"][1], "cellsize": c["d"][0], "cell_size": c["d"][0],
         "dx": c["d"][0], "dy": c["d"][1], "nodata_value": c["nodata"], "nodatavalue": c["nodata"]}
    return [[CASE[c["case"]](k), str(v[k])] for k in c["keys"]]


def text(c, head, body, footer=()):
    join = lambda row: c["lead"] + c["sep"].join(row) + c["tail"]  # noqa: E731
    t = c["eol"].join([join(r) for r in head] + [join(r) for r in body] + list(footer))
    return t + (c["eol"] if c["final"] else "")


def save(t, name="v.txt"):
    f = G.path(name)
    with open(f, "w", newline="") as h:
        h.write(t)
    return f


def check_asc(c):
    f = save(text(c, header(c), c["body"], c["footer"]))
    g = call("read_asc_grid", _kt().read_asc_grid, f, **({"footer": len(c["footer"])} if c["footer"] else {}))
    gz, gx, gy, cs, nd = g
    want = np.array([[float(s) for s in r] for r in c["body"]])[::-1]
    check(np.shape(gz) == want.shape, "%s grid read as %s", want.shape, np.shape(gz))
    check(np.array_equal(gz, want), "values %s, the file holds %s", gz, want)
    dx = float(c["d"][0])
    dy = dx if c["one"] else float(c["d"][1])
    ox, oy = (float(v) for v in c["origin"])
    if c["corner"]:
        ox, oy = ox + dx / 2, oy + dy / 2
    for nm, got, o, d, n in (("x", gx, ox, dx, c["nc"]), ("y", gy, oy, dy, c["nr"])):
        check(np.shape(got) == (n,), "%s has %s coordinates", nm, np.shape(got))
        close(nm, got, o + d * np.arange(n), G.coord_tol([o, d, n]))
    if c["one"]:
        check(np.ndim(cs) == 0 and cs == dx, "cell size %s", cs)
    else:
        check(tuple(cs) == (dx, dy), "cell sizes %s", cs)
    check(nd == float(c["nodata"]), "no-data value %s", nd)
    return dict(corner=c["corner"], one=c["one"], shuffled=c["keys"][0] != "ncols", case=c["case"], eol=len(c["eol"]),
                footer=len(c["footer"]), nontrivial=True)


ASC_DAMAGE = ["cut-row", "cut-value", "extra-row", "extra-value", "missing-value", "extra-column", "missing-column",
              "no-key", "unknown-key", "cut-header", "wrong-ncols", "wrong-nrows", "key-without-value", "no-number",
              "empty", "no-body", "swap", "footer"]


@st.composite
def asc_bad(draw):
    c = draw(asc())
    c["how"] = draw(st.sampled_from(ASC_DAMAGE))
    c["at"] = draw(st.integers(0, 100))
    c["row"] = draw(st.integers(0, c["nr"] - 1))
    c["col"] = draw(st.integers(0, c["nc"] - 1))
    c["footer"] = []
    return c


def check_asc_bad(c):
    h, b = header(c), [list(r) for r in c["body"]]
    how, k = c["how"], 0
    i = c["at"] % len(h)
    if how == "cut-row":
        b = b[: c["row"]]
    elif how == "cut-value":
        b = b[: c["row"]] + [b[c["row"]][: c["col"]]]
        if c["col"] == 0:
            b = b[:-1]
    elif how == "extra-row":
        b.insert(c["row"], list(b[0]))
    elif how == "extra-value":
        b[c["row"]].insert(c["col"], "7.5")
    elif how == "missing-value":
        del b[c["row"]][c["col"]]
    elif how == "extra-column":
        b = [r + ["0.5"] for r in b]
    elif how == "missing-column":
        b = [r[:-1] for r in b]
    elif how == "no-key":
        del h[i]
    elif how == "unknown-key":
        h[i][0] = ["size", "ncol", "xll", "nodata", "z"][c["at"] % 5]
    elif how == "cut-header":
        h, b = h[:i], []
    elif how == "wrong-ncols":
        h = [[a, str(c["nc"] + [1, -1, 5][c["at"] % 3])] if a.lower() == "ncols" else [a, v] for a, v in h]
    elif how == "wrong-nrows":
        h = [[a, str(c["nr"] + [1, -1, 5][c["at"] % 3])] if a.lower() == "nrows" else [a, v] for a, v in h]
    elif how == "key-without-value":
        h[i] = h[i][:1]
    elif how == "no-number":
        h[i][1] = ["abc", "--", "1,5,x"][c["at"] % 3]
    elif how == "empty":
        h, b = [], []
    elif how == "no-body":
        b = []
    elif how == "swap":
        if c["nc"] == c["nr"]:
            return dict(how="square", nontrivial=False)
        h = [[a, str(c["nr"] if a.lower() == "ncols" else c["nc"]) if a.lower() in ("ncols", "nrows") else v] for a, v in h]
    else:
        k = 1 + c["at"] % 2  # takes data rows for a footer
    f = save(text(c, h, b))
    must_raise("reading an ASCII grid with damage '%s'" % how, _kt().read_asc_grid, f, **({"footer": k} if k else {}))
    return dict(how=how, nontrivial=True)


# ------------------------------------------------------------------------ ZMAP
@st.composite
def zmap(draw):
    nx, ny = draw(st.integers(2, 7)), draw(st.integers(2, 7))
    c = {"nx": nx, "ny": ny}
    c["x"] = [draw(st.integers(-10**6, 10**6)) / 1000.0, draw(st.integers(1, 10**6)) / 1000.0]
    c["y"] = [draw(st.integers(-10**6, 10**6)) / 1000.0, draw(st.integers(1, 10**6)) / 1000.0]
    c["nodata"] = draw(st.sampled_from(["-999.0000", "1.0E+30", "0.1E+31", "-9999"]))
    c["val"] = draw(st.lists(number(), min_size=nx * ny, max_size=nx * ny))
    c["per"] = draw(st.sampled_from([1, 2, 3, 5, 5, 7, 100]))
    c["restart"] = draw(st.booleans())
    c["name"] = draw(st.one_of(st.none(), st.sampled_from(["EPSG:3857", "<null>", "utm 32", ""])))
    c["comments"] = draw(st.lists(st.sampled_from(["!", "! file made by X", "!FIELD: 3", "!     ZIMS FILE NAME :  a.zmap", "! x: y: z"]), max_size=4))
    c["body_comment"] = draw(st.booleans())
    c["grid"] = draw(st.sampled_from(["@Grid HEADER, GRID, 5", "@GRID FILE, GRID, 4", "@ HEADER , GRID, 3"]))
    c["eol"] = draw(st.sampled_from(["\n", "\n", "\r\n"]))
    c["final"] = draw(st.integers(0, 2))
    return c


def zparts(c):
    com = list(c["comments"])
    if c["name"] is not None:
        com.insert(len(com) // 2, "!     COORDINATE REFERENCE SYSTEM: " + c["name"])
    hx, hy = c["x"][0] + c["x"][1] * (c["nx"] - 1), c["y"][0] + c["y"][1] * (c["ny"] - 1)
    head = [c["grid"], " 15, %s,  , 1 , 1" % c["nodata"],
            "   %d,  %d,  %r,  %r,  %r,  %r" % (c["ny"], c["nx"], c["x"][0], hx, c["y"][0], hy),
            "   %r,  0.0,  0.0    " % c["x"][1], "@"]
    rows = []
    if c["restart"]:  # every column starts a new line
        for k in range(c["nx"]):
            col = c["val"][k * c["ny"] : (k + 1) * c["ny"]]
            rows += [col[j : j + c["per"]] for j in range(0, c["ny"], c["per"])]
    else:
        rows = [c["val"][j : j + c["per"]] for j in range(0, len(c["val"]), c["per"])]
    body = ["  " + "   ".join(r) for r in rows]
    if c["body_comment"]:
        body.insert(len(body) // 2, "! a comment: with colon")
    return com, head, body


def ztext(c, com, head, body):
    return c["eol"].join(com + head + body) + c["eol"] * c["final"]


def check_zmap(c):
    f = save(ztext(c, *zparts(c)))
    gz, gx, gy, cs, nd, name = call("read_zmap_grid", _kt().read_zmap_grid, f)
    nx, ny = c["nx"], c["ny"]
    want = np.empty((ny, nx))
    v = [float(s) for s in c["val"]]
    for i in range(nx):
        for j in range(ny):
            want[ny - 1 - j, i] = v[i * ny + j]
    check(np.shape(gz) == want.shape, "%s grid read as %s", want.shape, np.shape(gz))
    check(np.array_equal(gz, want), "values %s, the file holds %s", gz, want)
    for nm, got, (o, d), n in (("x", gx, c["x"], nx), ("y", gy, c["y"], ny)):
        check(np.shape(got) == (n,), "%s has %s coordinates", nm, np.shape(got))
        close(nm, got, o + d * np.arange(n), G.coord_tol([o, d, n]))
    close("cell sizes", cs, [c["x"][1], c["y"][1]], [G.coord_tol(c["x"] + [nx]), G.coord_tol(c["y"] + [ny])])
    check(nd == float(c["nodata"]), "no-data value %s", nd)
    check(name == ("<null>" if c["name"] is None else c["name"]), "coordinate system %r", name)
    return dict(per=c["per"], restart=c["restart"], comments=len(c["comments"]), body_comment=c["body_comment"],
                nontrivial=True)


ZMAP_DAMAGE = ["cut", "cut-value", "extra", "missing", "wrong-nx", "wrong-ny", "no-size", "no-nodata", "no-end",
               "no-header", "empty", "no-number", "blank", "header-only", "extra-line", "cut-header"]


@st.composite
def zmap_bad(draw):
    c = draw(zmap())
    c["how"] = draw(st.sampled_from(ZMAP_DAMAGE))
    c["at"] = draw(st.integers(0, 1000))
    c["body_comment"] = False
    return c


def check_zmap_bad(c):
    com, h, b = zparts(c)
    how = c["how"]
    i = c["at"] % len(b)
    d = [1, -1, 3][c["at"] % 3]
    if how == "cut":
        b = b[:i]
    elif how == "cut-value":
        t = b[i].split()
        b = b[:i] + ([" ".join(t[:-1])] if len(t) > 1 else [])
    elif how == "extra":
        b[i] += " 4.25"
    elif how == "missing":
        t = b[i].split()
        b[i] = " ".join(t[:-1])
        if len(t) == 1:
            del b[i]
    elif how in ("wrong-nx", "wrong-ny"):
        e = dict(c, nx=c["nx"] + d) if how == "wrong-nx" else dict(c, ny=c["ny"] + d)
        h[2] = zparts(dict(e, val=[], comments=[]))[1][2]
    elif how == "no-size":
        del h[2]
    elif how == "no-nodata":
        del h[1]
    elif how == "no-end":
        del h[4]
    elif how == "no-header":
        h = []
    elif how == "empty":
        com, h, b = [], [], []
    elif how == "no-number":
        t = b[i].split()
        t[c["at"] % len(t)] = ["x", "1.2.3", "12,5a"][c["at"] % 3]
        b[i] = " ".join(t)
    elif how == "blank":
        b.insert(i, "")  # ends the body
    elif how == "header-only":
        b = []
    elif how == "extra-line":
        b.append("1.5 2.5")
    elif how == "cut-header":
        h, b = h[: c["at"] % 4], []
    f = save(ztext(c, com, h, b))
    must_raise("reading a ZMAP grid with damage '%s'" % how, _kt().read_zmap_grid, f)
    return dict(how=how, nontrivial=True)


# ----------------------------------------------------------- arbitrary edits
EDIT = ["delchar", "inschar", "delline", "dupline", "swapline", "join", "cut", "delspan", "dupspan"]


@st.composite
def edited(draw, base, chars):
    c = draw(base)
    c["edits"] = draw(st.lists(st.tuples(st.sampled_from(EDIT), st.integers(0, 10**6), st.integers(0, 10**6), st.sampled_from(chars)),
                               min_size=1, max_size=3))
    return c


def edit(t, edits):
    for how, a, b, ch in edits:
        ln = t.split("\n")
        i, j = a % max(len(t), 1), a % len(ln)
        if how == "delchar":
            t = t[:i] + t[i + 1 :]
        elif how == "inschar":
            t = t[:i] + ch + t[i:]
        elif how == "cut":
            t = t[:i]
        elif how == "delspan":
            t = t[:i] + t[i + b % 12 :]
        elif how == "dupspan":
            t = t[: i + b % 12] + t[i:]
        else:
            if how == "delline":
                del ln[j]
            elif how == "dupline":
                ln.insert(b % (len(ln) + 1), ln[j])
            elif how == "swapline":
                k = b % len(ln)
                ln[j], ln[k] = ln[k], ln[j]
            elif len(ln) > 1:
                j = a % (len(ln) - 1)
                ln[j : j + 2] = [ln[j] + " " + ln[j + 1]]
            t = "\n".join(ln)
    return t


def floats(tokens):
    """The numbers, or None if some token is none."""
    try:
        return [float(s) for s in tokens]
    except ValueError:
        return None


def parse_asc(t):
    """The grid according to the format, "bad", or None (no verdict)."""
    ln = t.split("\n")
    v = {}
    syn = {"cell_size": "cellsize", "nodatavalue": "nodata_value"}
    full = [{"ncols", "nrows", "nodata_value"} | a | b for a in ({"xllcorner", "yllcorner"}, {"xllcenter", "yllcenter"})
            for b in ({"cellsize"}, {"dx", "dy"})]
    known = set().union(*full)
    while not any(f <= set(v) for f in full):
        if not ln:
            return "bad"
        w = ln.pop(0).split()
        if len(w) != 2:
            return "bad"
        k = syn.get(w[0].lower(), w[0].lower())
        if k not in known:
            return "bad"
        try:
            v[k] = int(w[1]) if k in ("ncols", "nrows") else float(w[1])
        except ValueError:
            return "bad"
    rows = [r.split() for r in ln if r.strip()]
    num = [floats(r) for r in rows]
    nc, nr = v["ncols"], v["nrows"]
    if len(v) > 7 or nc < 2 or nr < 2 or v.get("cellsize", 1) <= 0 or v.get("dx", 1) <= 0 or v.get("dy", 1) <= 0:
        return None
    o = max(abs(v.get(k, 0.0)) for k in known if k[1:3] == "ll")
    if o > 1e9 * min(v.get(k, np.inf) for k in ("dx", "dy", "cellsize")):
        return None  # the coordinates cannot be told apart
    if len(rows) != nr or any(len(r) != nc for r in rows):
        return "bad"
    return None if None in num else np.array(num)[::-1]


def check_edited_asc(c):
    t = edit(text(dict(c, eol="\n"), header(c), c["body"]), c["edits"])
    want = parse_asc(t)
    f = save(t)
    if want is None:
        return dict(verdict="none", nontrivial=False)
    if isinstance(want, str):
        must_raise("reading the damaged ASCII grid %r" % t[:400], _kt().read_asc_grid, f)
        return dict(verdict="damaged", nontrivial=True)
    g = call("read_asc_grid of %r" % t[:300], _kt().read_asc_grid, f)
    check(np.shape(g[0]) == want.shape and np.array_equal(g[0], want), "values %s, the file holds %s", g[0], want)
    check(np.shape(g[1]) == want.shape[1:] and np.shape(g[2]) == want.shape[:1], "numbers of coordinates")
    return dict(verdict="valid", nontrivial=True)


def check_edited_zmap(c):
    com, h, b = zparts(c)
    body = edit("\n".join(b), c["edits"])
    words = []
    for line in body.split("\n"):
        if line.startswith("!"):
            continue
        if not line.strip():
            break
        words += line.split()
    f = save("\n".join(com + h) + "\n" + body)
    v = floats(words)
    if len(words) != c["nx"] * c["ny"] or v is None:
        must_raise("reading a ZMAP grid with the body %r" % body[:400], _kt().read_zmap_grid, f)
        return dict(verdict="damaged", nontrivial=True)
    g = call("read_zmap_grid of the body %r" % body[:300], _kt().read_zmap_grid, f)
    want = np.array(v).reshape(c["nx"], c["ny"]).T[::-1]
    check(np.shape(g[0]) == want.shape and np.array_equal(g[0], want), "values %s, the file holds %s", g[0], want)
    return dict(verdict="valid", nontrivial=True)


# ---------------------------------------------------------------- large files
@st.composite
def large(draw, base):
    c = draw(base)
    c["size"] = [draw(st.integers(2, k)) for k in draw(st.sampled_from([[150, 150], [150, 150], [3000, 3], [3, 3000]]))]
    c["seed"] = draw(st.integers(0, 2**31 - 1))
    return c


def numbers(c):
    rng = np.random.RandomState(c["seed"])
    n = c["size"][0] * c["size"][1]
    fmt = ["%d", "%.2f", "%.6g", "%.3E", "%r"]
    return [fmt[k] % float(v) for k, v in zip(rng.randint(0, 5, n), 1000.0 * rng.standard_normal(n))]


def grow_asc(c):
    nc, nr = c["size"]
    v = numbers(c)
    c = dict(c, nc=nc, nr=nr, body=[v[i * nc : (i + 1) * nc] for i in range(nr)])
    if "row" in c:
        c["row"], c["col"] = (c["row"] * 29 + c["at"]) % nr, (c["col"] * 31 + c["at"]) % nc
    return c


def grow_zmap(c):
    return dict(c, nx=c["size"][0], ny=c["size"][1], val=numbers(c))


def check_large_asc(c):
    return check_asc(grow_asc(c))


def check_large_asc_bad(c):
    return check_asc_bad(grow_asc(c))


def check_large_zmap(c):
    return check_zmap(grow_zmap(c))


def check_large_zmap_bad(c):
    return check_zmap_bad(grow_zmap(c))


TESTS = [
    T("asc-edited", edited(asc(), " \n\t.-0e5x+"), check_edited_asc, 1500),
    T("zmap-edited", edited(zmap(), " \n\t.-0e5x+"), check_edited_zmap, 1200),
    T("asc", asc(), check_asc, 3000),
    T("asc-damaged", asc_bad(), check_asc_bad, 3000),
    T("zmap", zmap(), check_zmap, 2500),
    T("zmap-damaged", zmap_bad(), check_zmap_bad, 3000),
    T("asc-large", large(asc((2, 2))), check_large_asc, 120),
    T("asc-large-damaged", large(asc_bad()), check_large_asc_bad, 160),
    T("zmap-large", large(zmap()), check_large_zmap, 120),
    T("zmap-large-damaged", large(zmap_bad()), check_large_zmap_bad, 160),
]
