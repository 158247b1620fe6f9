"""What a check is made of."""
import hashlib
import json


class Violation(Exception):
    """The property does not hold for this case."""


class Skip(Exception):
    """The case is outside the property's domain (counted, never a pass)."""


class T:
    """Collects what one case exercised."""

    def __init__(self):
        self.labels = set()
        self.nontrivial = False

    def label(self, *names):
        self.labels.update(str(n) for n in names)

    def interesting(self, flag=True):
        self.nontrivial = self.nontrivial or bool(flag)


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


class Sub:
    """One generated check of a property.

    strategy: zero-argument callable building a Hypothesis strategy of JSON-able cases
    check:    function (case, t) raising Violation
    quick / thorough: number of cases over all shards
    """

    def __init__(self, name, strategy, check, quick, thorough=None, rule="", known=None):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 15
        self.rule = rule


def canon(case):
    return json.dumps(case, sort_keys=True, default=str)


def digest(case):
    return hashlib.sha1(canon(case).encode()).hexdigest()[:16]
