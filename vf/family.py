"""Surrogate classes, importable by path; the check of C26 gives them their schemas."""
from scheme.surrogate import surrogate


class Plain(surrogate):
    pass


class Derived(Plain):
    pass


class Versioned(surrogate):
    schemas = ()


class Other(surrogate):
    schemas = ()


class Late(Versioned):
    schemas = ()

    @classmethod
    def contribute(cls, value, version):
        value['contributed'] = [version]

    @classmethod
    def _acquire_surrogate(cls, version, content=None):
        return content


class Counting(surrogate):
    schemas = ()

    @classmethod
    def contribute(cls, value, version):
        value['count'] = value.get('count', 0) + 1


class NotASurrogate(object):
    pass


instance = Plain({'a': 1})
