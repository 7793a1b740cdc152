from proptest import T
import gen
from props import blup

TESTS = [
    T("points", blup.with_points(gen.kcase("UK3D", 8, 16, exact="any")), blup.check_points, 1500),
    T("grid", blup.with_grid(gen.kcase("UK3D", 8, 14, must_drift=True)), blup.check_grid, 700),
    T("larger", blup.with_points(gen.kcase("UK3D", 17, 30, custom=False, must_drift=True), 2, 8), blup.check_points, 200),
    T("many", gen.many("UK3D"), blup.check_many, 160),
    T("huge", gen.many("UK3D", huge=True), blup.check_many, 40),
]
