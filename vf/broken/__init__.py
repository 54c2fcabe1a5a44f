"""Modules for the check of C27, some of which cannot be imported."""


class Thing(object):
    class Inner(object):
        pass

    @staticmethod
    def method():
        pass


def function():
    pass


Alias = Thing
value = {'a': 1}
text = 'vf.broken.Thing'
