class T:
    """One generated test of a property.

    check(case) raises common.Violation, raises common.Reject for a case that
    cannot be judged, or returns a dict of labels (classes the case belongs to);
    label nontrivial=False marks a case that does not count as non-trivial."""

    def __init__(self, name, strategy, check, quick, thorough=None, shrink=25.0):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough or 20 * quick
        self.shrink = shrink
