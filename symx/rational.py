"""Division-free forms of formulas.  Every symbolic division of the executor has already forked on a zero divisor, so on
the current path all denominators are nonzero and a formula over fractions equals one over polynomials."""
import z3

_HAS = {}


def has_division(e):
    k = e.get_id()
    hit = _HAS.get(k)
    if hit is not None and hit[0].eq(e):
        return hit[1]
    r = (z3.is_app_of(e, z3.Z3_OP_DIV) and not z3.is_rational_value(e)) or any(has_division(c) for c in e.children())
    if len(_HAS) > 200000:
        _HAS.clear()
    _HAS[k] = (e, r)
    return r


class Bail(Exception):
    pass


class _Frac:
    """num / prod(factor ** power)"""
    __slots__ = ('num', 'den')

    def __init__(self, num, den=None):
        self.num, self.den = num, den or {}


def _times(num, den):
    for f, p in den.values():
        for _ in range(p):
            num = num * f
    return num


def _common(a, b):
    lcm = dict(a)
    for k, (f, p) in b.items():
        if k not in lcm or lcm[k][1] < p:
            lcm[k] = (f, p)
    return lcm


def _rest(lcm, den):
    out = {}
    for k, (f, p) in lcm.items():
        q = p - (den[k][1] if k in den else 0)
        if q:
            out[k] = (f, q)
    return out


def _is_one(e):
    return z3.is_rational_value(e) and e.numerator_as_long() == 1 and e.denominator_as_long() == 1


def frac(e, cache):
    k = e.get_id()
    if k in cache:
        return cache[k][1]
    if not has_division(e):
        r = _Frac(e)
    else:
        ch = e.children()
        if z3.is_add(e) or z3.is_sub(e):
            fs = [frac(c, cache) for c in ch]
            lcm = {}
            for f in fs:
                lcm = _common(lcm, f.den)
            nums = [_times(f.num, _rest(lcm, f.den)) for f in fs]
            num = nums[0]
            for n in nums[1:]:
                num = num + n if z3.is_add(e) else num - n
            r = _Frac(num, lcm)
        elif z3.is_mul(e):
            num, den = None, {}
            for c in ch:
                f = frac(c, cache)
                num = f.num if num is None else num * f.num
                for kk, (g, p) in f.den.items():
                    den[kk] = (g, p + (den[kk][1] if kk in den else 0))
            r = _Frac(num, den)
        elif z3.is_app_of(e, z3.Z3_OP_UMINUS):
            f = frac(ch[0], cache)
            r = _Frac(-f.num, f.den)
        elif z3.is_app_of(e, z3.Z3_OP_DIV):
            a, b = frac(ch[0], cache), frac(ch[1], cache)
            num, den = _times(a.num, b.den), dict(a.den)
            if z3.is_rational_value(b.num):
                num = num / b.num
            else:
                kk = b.num.get_id()
                den[kk] = (b.num, 1 + (den[kk][1] if kk in den else 0))
            r = _Frac(num, den)
        elif z3.is_app_of(e, z3.Z3_OP_ITE):
            r = _Frac(z3.If(clear(ch[0], cache), *[c for c in ch[1:]]))
            if has_division(r.num):
                raise Bail
        else:
            raise Bail
    cache[k] = (e, r)
    return r


OPS = {z3.Z3_OP_LE: lambda x: x <= 0, z3.Z3_OP_GE: lambda x: x >= 0, z3.Z3_OP_LT: lambda x: x < 0, z3.Z3_OP_GT: lambda x: x > 0}


def clear(e, cache):
    """An equivalent division-free formula (given nonzero denominators); raises Bail."""
    if not has_division(e):
        return e
    kind = e.decl().kind()
    ch = e.children()
    if kind == z3.Z3_OP_AND:
        return z3.And([clear(c, cache) for c in ch])
    if kind == z3.Z3_OP_OR:
        return z3.Or([clear(c, cache) for c in ch])
    if kind == z3.Z3_OP_NOT:
        return z3.Not(clear(ch[0], cache))
    if kind == z3.Z3_OP_IMPLIES:
        return z3.Implies(clear(ch[0], cache), clear(ch[1], cache))
    if kind in (z3.Z3_OP_EQ, z3.Z3_OP_IFF) and z3.is_bool(ch[0]):
        return clear(ch[0], cache) == clear(ch[1], cache)
    if kind == z3.Z3_OP_ITE and z3.is_bool(e):
        return z3.If(*[clear(c, cache) for c in ch])
    if kind == z3.Z3_OP_EQ and z3.is_real(ch[0]):
        return frac(ch[0] - ch[1], cache).num == 0
    if kind == z3.Z3_OP_DISTINCT and len(ch) == 2 and z3.is_real(ch[0]):
        return frac(ch[0] - ch[1], cache).num != 0
    if kind in OPS and z3.is_real(ch[0]):
        f = frac(ch[0] - ch[1], cache)
        odd = {k: (g, 1) for k, (g, p) in f.den.items() if p % 2}
        return OPS[kind](_times(f.num, odd))
    raise Bail


def division_free(e):
    if not has_division(e):
        return e
    try:
        return clear(e, {})
    except Bail:
        return e


def expand(e):
    """Sum-of-monomials form of the atoms of e (z3's own rewriter); identities become `true`."""
    return z3.simplify(e, som=True, som_blowup=20000, arith_lhs=True)
