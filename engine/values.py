"""Python-level values of the symbolic interpreter. Anything that is a z3 term of sort
Val is a plain (immutable) Python value; the classes here are the rest."""
from theory import *


class PyRaise(Exception):
    def __init__(self, exc):
        self.exc = exc


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class PathEnd(Exception):
    """This path ends here (infeasible, or cut at a loop head)."""


class Restart(Exception):
    """Havoc set of a loop grew; start the function over."""


class Unsupported(Exception):
    pass


class Cell:
    def __init__(self, t):
        self.t = t


class Cont:
    """A container: kind is list, dict, set or deque. The cell is either local or a heap
    location (owner)."""
    n = 0

    def __init__(self, ex, kind, term, home=None, frozen=None):
        self.ex, self.kind, self.home, self.frozen = ex, kind, home, frozen
        self._t = term
        self.aux = {}
        ex.conts += 1
        self.no = ex.conts

    @property
    def t(self):
        if self.home:
            v = self.ex.heap_get(*self.home)
            return self.ex.payload(v, self.kind)
        return self._t

    def set(self, t):
        self.ex.note_mutation(self)
        if self.frozen:
            self.ex.fail(f'mutates a container that is shared ({self.frozen})')
        if self.home:
            self.ex.heap_set(*self.home, self.ex.wrap(self.kind, t))
        else:
            self._t = t


class PTuple:
    """Tuple of arbitrary interpreter values."""

    def __init__(self, items):
        self.items = list(items)


class PNt(PTuple):
    """A namedtuple with live containers in it."""

    def __init__(self, name, items):
        self.name, self.items = name, list(items)


class FuncV:
    def __init__(self, node, mod, env, qual, cls=None, kind='func'):
        self.node, self.mod, self.env, self.qual, self.cls, self.kind = (node, mod, env, qual,
                                                                         cls, kind)


class BoundV:
    def __init__(self, self_, fn):
        self.self_, self.fn = self_, fn


class ClassV:
    def __init__(self, name, mod, node, bases):
        self.name, self.mod, self.node, self.bases = name, mod, node, bases
        self.members = {}
        self.is_exc = False


class NTClass:
    def __init__(self, name):
        self.name = name


class EnumV:
    def __init__(self, name):
        self.name = name


class ModV:
    def __init__(self, name):
        self.name = name


class LibV:
    """Something imported from outside the repository, by dotted name."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f'LibV({self.name})'


class ModelV:
    """A Python callable modelling a library function or method: f(ex, args, kw)."""

    def __init__(self, name, f):
        self.name, self.f = name, f


class ExcClass:
    def __init__(self, name, bases=()):
        self.name, self.bases = name, bases

    def isa(self, other):
        return self.name == other.name or any(b.isa(other) for b in self.bases)


class ExcV:
    def __init__(self, cls, args=(), attrs=None):
        self.cls, self.args, self.attrs = cls, args, attrs or {}


class RegexV:
    def __init__(self, pat):
        self.pat = pat


class SuperV:
    def __init__(self, cls, self_):
        self.cls, self_ = cls, self_
        self.self_ = self_


class IterV:
    """An iterator/iterable over a sequence term (already evaluated)."""

    def __init__(self, seq, wrap=None):
        self.seq = seq          # z3 Seq term of Val
        self.wrap = wrap        # optional: (ex, elem, index) -> PV
        self.pos = IntVal(0)


class RangeV:
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step


class ZipV:
    def __init__(self, its, enum_start=None):
        self.its, self.enum_start = its, enum_start


class CtxV:
    """A context manager that does nothing observable (locks, ndb contexts)."""

    def __init__(self, name, enter=None, exit=None):
        self.name, self.enter, self.exit = name, enter, exit


class SliceV:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class OpaqueFn:
    """Callable value known only by contract (callback parameters)."""

    def __init__(self, name, f):
        self.name, self.f = name, f


_B = {}


def _exc(name, *bases):
    _B[name] = ExcClass(name, [_B[b] for b in bases])


_exc('BaseException')
_exc('GeneratorExit', 'BaseException')
_exc('KeyboardInterrupt', 'BaseException')
_exc('Exception', 'BaseException')
for _n in ('ArithmeticError', 'AssertionError', 'AttributeError', 'LookupError', 'NameError',
           'OSError', 'RuntimeError', 'StopIteration', 'TypeError', 'ValueError'):
    _exc(_n, 'Exception')
_exc('IndexError', 'LookupError')
_exc('KeyError', 'LookupError')
_exc('ZeroDivisionError', 'ArithmeticError')
_exc('OverflowError', 'ArithmeticError')
_exc('NotImplementedError', 'RuntimeError')
_exc('ConnectionError', 'OSError')
_exc('TimeoutError', 'OSError')
_exc('UnicodeError', 'ValueError')
_exc('RequestException', 'OSError')
_exc('HTTPError', 'RequestException')
_exc('InvalidSignature', 'Exception')
_exc('DNSException', 'Exception')
_exc('XrpcError', 'ValueError')
_exc('ValidationError', 'ValueError')
_exc('Redirect', 'Exception')
_exc('MultibaseKeyError', 'KeyError')
_exc('MultibaseValueError', 'ValueError')
EXC = _B
