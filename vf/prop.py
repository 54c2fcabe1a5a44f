"""What a property module declares."""


class Section(object):
    def __init__(self, name, gen, check, quick, thorough=None, envs=None):
        self.name = name
        self.gen = gen              # gen(d) -> plain-data case; draws only from d
        self.check = check          # check(case) -> labels; raises Violation
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 15


class Finding(object):
    """A known finding: a concrete input which still fails on the code under test."""

    def __init__(self, key, what, probe):
        self.key = key
        self.what = what
        self.probe = probe          # probe() -> True while the defect is there
