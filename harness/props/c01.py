from proptest import T
import gen
from props import blup

TESTS = [
    T("points", blup.with_points(gen.kcase("OK", 2, 14, exact="any")), blup.check_points, 1400),
    T("geographic", blup.with_points(gen.kcase("OK", 3, 12, geo=True, exact="any")), blup.check_points, 700),
    T("grid", blup.with_grid(gen.kcase("OK", 3, 10)), blup.check_grid, 500),
    T("larger", blup.with_points(gen.kcase("OK", 15, 36, custom=False), 2, 8), blup.check_points, 200),
    T("many", gen.many("OK"), blup.check_many, 160),
    T("huge", gen.many("OK", huge=True), blup.check_many, 40),
    T("many-geographic", gen.many("OK", geo=True), blup.check_many, 80),
]
