"""Markers understood by the analysis inside contract harnesses (never executed)."""


def given(condition):
    """The contract only speaks about states in which the condition holds"""


def same(a, b):
    """Two quantities which are equal in every admissible state (for example two counts)"""


def fresh(name, like):
    """An arbitrary value of the same type"""


class Exact:
    """Exact[C]: an object of class C itself, not of a class derived from it"""

    def __class_getitem__(cls, item):
        return item
