from proptest import T
import gen
from props import blup

TESTS = [
    T("points", blup.with_points(gen.kcase("OK3D", 2, 14, exact="any")), blup.check_points, 1600),
    T("grid", blup.with_grid(gen.kcase("OK3D", 3, 10)), blup.check_grid, 600),
    T("larger", blup.with_points(gen.kcase("OK3D", 15, 30, custom=False), 2, 8), blup.check_points, 200),
    T("many", gen.many("OK3D"), blup.check_many, 160),
    T("huge", gen.many("OK3D", huge=True), blup.check_many, 40),
]
