"""Translation of Python indices into MATLAB ones; symbolic integers survive the formatting as marked numbers."""
import re
import types

from harness import matlab_stub
from harness.matlab_stub import prepare
from qtune import mat2py
from symx.core import Sym
from symx.ctx import harness

OFFSET = 10 ** 15


class Int(int):
    """An int with a symbolic value; printed as a number that stands for it."""
    table = {}

    def __new__(cls, sym):
        n = OFFSET + len(cls.table)
        self = super().__new__(cls, n)
        self.sym = sym
        cls.table[n] = sym
        return self


def _lifted(name, wrap):
    def op(self, *args):
        args = [a.sym if isinstance(a, Int) else a for a in args]
        r = getattr(self.sym, name)(*args)
        return Int(r) if wrap and isinstance(r, Sym) else (int(r) if wrap else r)
    return op


for _n in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'neg', 'abs', 'pos'):
    if hasattr(Sym, '__%s__' % _n):
        setattr(Int, '__%s__' % _n, _lifted('__%s__' % _n, True))
for _n in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
    setattr(Int, '__%s__' % _n, _lifted('__%s__' % _n, False))
Int.__bool__ = lambda self: bool(self.sym != 0)
Int.__hash__ = lambda self: id(self)


def _int(ctx, name, lo, hi):
    v = ctx.integer(name, lo, hi)
    return (Int(v), v) if ctx.symbolic else (v, v)


class Matlab:
    """The colon expressions of MATLAB, where the end is n."""

    def __init__(self, text, n):
        self.tokens = re.findall(r'\d+|end|[-+():,]|\S', text)
        self.n = n

    def _peek(self):
        return self.tokens[0] if self.tokens else None

    def _factor(self):
        t = self.tokens.pop(0)
        if t == '-':
            return -self._factor()
        if t == '+':
            return self._factor()
        if t == '(':
            v = self._sum()
            assert self.tokens.pop(0) == ')'
            return v
        if t == 'end':
            return self.n
        v = int(t)
        return Int.table.get(v, v)

    def _sum(self):
        v = self._factor()
        while self._peek() in ('+', '-'):
            v = v + self._factor() if self.tokens.pop(0) == '+' else v - self._factor()
        return v

    def dimensions(self):
        """A list with, for every dimension, either a number or (first, step, last)."""
        out = []
        while True:
            if self._peek() == ':' and (len(self.tokens) == 1 or self.tokens[1] == ','):
                self.tokens.pop(0)
                out.append((1, 1, self.n))
            else:
                parts = [self._sum()]
                while self._peek() == ':':
                    self.tokens.pop(0)
                    parts.append(self._sum())
                out.append(parts[0] if len(parts) == 1 else ((parts[0], 1, parts[1]) if len(parts) == 2 else tuple(parts)))
            if not self.tokens:
                return out
            assert self.tokens.pop(0) == ','


def _element(ctx, n, name):
    idx, v = _int(ctx, name, -n, n - 1)
    return idx, ('one', v)


def _range(ctx, n, name):
    step = ctx.choice(name + '_step', [None, 1, 2, -1, -2])
    up = step is None or step > 0
    start, s = (None, None) if ctx.flag(name + '_start is None') else _int(ctx, name + '_start', -n, n - 1)
    stop, e = (None, None) if ctx.flag(name + '_stop is None') else _int(ctx, name + '_stop', -n, n if up else n - 1)
    return slice(start, stop, step), ('range', s, e, 1 if step is None else step)


def _check(ctx, n, want, got):
    if want[0] == 'one':
        v = want[1]
        ctx.claim('a number stays a number', not isinstance(got, tuple))
        if not isinstance(got, tuple):
            ctx.close('the same element is selected', got, v + 1 if bool(v >= 0) else v + n + 1)
        return
    _, s, e, step = want
    ctx.claim('a range stays a range', isinstance(got, tuple))
    if not isinstance(got, tuple):
        return
    first = (0 if step > 0 else n - 1) if s is None else (s if bool(s >= 0) else s + n)
    stop = (n if step > 0 else -1) if e is None else (e if bool(e >= 0) else e + n)
    a, d, b = got
    ctx.close('the same elements are selected', d, step)
    for k in range((n + 1) // abs(step) + 1):
        inside = first + k * step < stop if step > 0 else first + k * step > stop
        selected = a + k * step <= b if step > 0 else a + k * step >= b
        ctx.claim('as many elements are selected', ctx.Iff(inside, selected))
        if bool(inside):
            ctx.close('the same elements are selected', a + k * step, first + k * step + 1)


@harness('C33', quick=[dict(n=1), dict(n=3), dict(n=4)], thorough=[dict(n=1), dict(n=5), dict(n=8)],
         expect=['the same element is selected', 'the same elements are selected'], max_paths=30000)
def one_dimension(ctx, n):
    """Every index and every slice within an array of n elements."""
    prepare(ctx)
    Int.table.clear()
    idx, want = _element(ctx, n, 'i') if ctx.flag('element') else _range(ctx, n, 'i')
    got = Matlab(str(mat2py.transform_index(idx)), n).dimensions()
    ctx.claim('one index for one dimension', len(got) == 1)
    _check(ctx, n, want, got[0])


@harness('C33', quick=[dict(dims=2)], thorough=[dict(dims=3)], expect=['the same element is selected'], max_paths=30000)
def dimensions(ctx, dims):
    """Several dimensions: element or range in each of them (all of the same size)."""
    prepare(ctx)
    Int.table.clear()
    n = 3
    parts = []
    for k in range(dims):
        if k == 1 and ctx.flag('range'):
            step = ctx.choice('step', [None, 2])
            stop, e = _int(ctx, 'stop', -n, n)
            parts.append((slice(None, stop, step), ('range', None, e, step or 1)))
        else:
            parts.append(_element(ctx, n, 'i%d' % k))
    got = Matlab(str(mat2py.transform_index(tuple(p[0] for p in parts))), n).dimensions()
    ctx.claim('one index for every dimension', len(got) == dims)
    for p, g in zip(parts, got):
        _check(ctx, n, p[1], g)


@harness('C33', expect=['a view selects the element'])
def views(ctx):
    """Indexing a view evaluates nothing and names the element in MATLAB."""
    prepare(ctx)
    Int.table.clear()
    n = 4
    engine = types.SimpleNamespace()
    idx, v = _int(ctx, 'i', 0, n - 1)
    view = mat2py.MATLABStructView(engine, 'data')[idx]
    ctx.claim('an element of a struct is a struct', isinstance(view, mat2py.MATLABStructView))
    numbers = re.findall(r'\d+', view._eval_str)
    ctx.claim('a view selects the element', 'data' in view._eval_str and len(numbers) == 1)
    if len(numbers) == 1:
        ctx.close('a view selects the element', Int.table.get(int(numbers[0]), int(numbers[0])), v + 1)
    asked = []
    engine.util = types.SimpleNamespace(py=types.SimpleNamespace(my_eval=lambda text, **kw: asked.append(text) or float(n)))
    struct = mat2py.MATLABStructView(engine, 'data')
    ctx.claim('the length is asked from MATLAB', len(struct) == n and len(asked) == 1 and 'data' in asked[0])
    ctx.claim('iterating yields every element', [re.findall(r'\d+', e._eval_str) for e in struct] == [[str(k + 1)] for k in range(n)])


@harness('C33')
def cells(ctx):
    """Cells are handed out as what they contain."""
    prepare(ctx)
    import matlab.engine as me
    Int.table.clear()
    n = 3
    asked = []

    def evaluate(text, **kw):
        if text.startswith('functions('):
            raise me.MatlabExecutionError(text)
        if re.match(r'is\w+\(', text):
            return text.startswith('isstruct(') and structured
        if 'numel' in text:
            return float(n)
        asked.append(text)
        return len(asked)
    structured = ctx.flag('structured')
    engine = types.SimpleNamespace(eval=evaluate, util=types.SimpleNamespace(py=types.SimpleNamespace(my_eval=evaluate)))
    view = mat2py.MATLABCellView(engine, 'data')

    def text_of(got):
        """The expression of what was handed out."""
        if structured:
            ctx.claim('a cell with a struct is a struct', isinstance(got, mat2py.MATLABStructView))
            return got._eval_str
        ctx.claim('a value is handed out', got == len(asked))
        return asked[-1]

    def indices(text):
        ctx.claim('a cell is selected', 'data' in text)
        m = re.findall(r"'([^']*\d[^']*)'", text) or re.findall(r'\{([^{}]*\d[^{}]*)\}', text)
        if len(m) != 1:
            return None
        return Matlab(m[0], n).dimensions()
    if ctx.flag('two dimensions'):
        (i, wi), (j, wj) = _element(ctx, n, 'i'), _element(ctx, n, 'j')
        got = indices(text_of(view[i, j]))
        if got is not None:
            ctx.claim('one index for every dimension', len(got) == 2)
            for g, w in zip(got, (wi, wj)):
                _check(ctx, n, w, g)
    else:
        i, wi = _element(ctx, n, 'i')
        got = indices(text_of(view[i]))
        if got is not None:
            ctx.claim('one index for one dimension', len(got) == 1)
            _check(ctx, n, wi, got[0])
    found = []
    for got in view:
        where = indices(text_of(got))
        found.append(where)
    if None not in found:
        ctx.claim('every cell is visited', found == [[k + 1] for k in range(n)])
