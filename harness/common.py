"""Shared pieces of the property checks."""
import json
import traceback
import warnings

import numpy as np


class Violation(Exception):
    """The code under test breaks the property."""


class Reject(Exception):
    """The generated case cannot be judged (ill-conditioned, tie, ...)."""


def call(what, fn, *a, **k):
    """Call the code under test; any exception on this valid input violates."""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return fn(*a, **k)
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except BaseException as e:  # noqa: BLE001
        tb = traceback.format_exc().strip().splitlines()
        raise Violation(
            "%s raised %s: %s [%s]" % (what, type(e).__name__, e, " | ".join(tb[-4:]))
        ) from None


def call_warn(what, fn, *a, **k):
    """As call; returns (result, recorded warnings)."""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            return fn(*a, **k), w
        except (KeyboardInterrupt, SystemExit, MemoryError):
            raise
        except BaseException as e:  # noqa: BLE001
            raise Violation("%s raised %s: %s" % (what, type(e).__name__, e)) from None


def must_raise(what, fn, *a, **k):
    """The request is invalid: anything but an exception violates."""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = fn(*a, **k)
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except Exception as e:
        return e
    raise Violation("%s was accepted (returned %s)" % (what, str(r)[:200]))


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def close(what, got, want, tol):
    """Elementwise |got-want| <= tol (tol array or scalar); NaN never passes."""
    got = np.asarray(got, dtype=float)
    want = np.asarray(want, dtype=float)
    if got.shape != want.shape:
        raise Violation("%s: shape %s, expected %s" % (what, got.shape, want.shape))
    bad = ~(np.abs(got - want) <= tol)
    if np.any(bad):
        i = tuple(int(k) for k in np.argwhere(bad)[0])
        t = np.broadcast_to(np.asarray(tol, dtype=float), got.shape)[i]
        raise Violation(
            "%s: at %s got %r, expected %r (tolerance %.3g; %d of %d entries differ)"
            % (what, i, float(got[i]), float(want[i]), t, int(bad.sum()), bad.size)
        )


def dumps(case):
    return json.dumps(case, sort_keys=True)
