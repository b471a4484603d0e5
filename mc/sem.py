"""What a linguistic representation denotes.

A small independent reader for the representations phyem gives to forms, scalars and weak-form terms,
and their meaning as multilinear combinations of atoms:

    value of a form   {atom: coefficient}       atom = ('f', root) | (op, atom) | (op, atom, atom)
    value of a term   {(kind, atom, atom, manifold): coefficient}

Linear operators are distributed over sums and scalars, bilinear ones over both operands, so two
representations have the same value exactly when the calculus says they denote the same thing (up to
identities between different operators, which are not used).  Abstract scalars get generic values.
"""
import hashlib
import math

from phyem.src import config as _c

LIN = _c._global_operator_lin_repr_setting
SEP0, SEP1 = _c._non_root_lin_sep
FORM = _c._global_lin_repr_setting['form']
SCAL = _c._global_lin_repr_setting['scalar_parameter']
MANI = _c._global_lin_repr_setting['manifold']

UNARY = ('Hodge', 'd', 'codifferential', 'time_derivative', 'trace', 'projection', 'log-e')
BINARY = ('wedge', 'cross_product', 'Cross_Product', 'CrossProduct', 'crossProduct', 'convect',
          'tensor_product', 'multi', 'multiply', 'division')
SUMS = ('plus', 'minus')


class Unreadable(Exception):
    pass


def generic(name):
    """A generic value for an abstract scalar."""
    x = int.from_bytes(hashlib.blake2b(name.encode(), digest_size=6).digest(), 'big') / 2 ** 48
    return 0.6180339887 + x


def scalar_value(name):
    try:
        return float(name)
    except ValueError:
        return generic(name)


def tokens(s):
    """longest match first"""
    marks = [(LIN[k].strip(), ('op', k)) for k in UNARY + BINARY + SUMS]
    marks += [(SEP0, ('(',)), (SEP1, (')',))]
    marks.sort(key=lambda m: -len(m[0]))
    i, out = 0, []
    while i < len(s):
        if s[i] == ' ':
            i += 1
            continue
        for kind, (a, b) in (('form', FORM), ('scal', SCAL)):
            if s.startswith(a, i):
                j = s.index(b, i + len(a))
                out.append((kind, s[i + len(a):j]))
                i = j + len(b)
                break
        else:
            for m, t in marks:
                if s.startswith(m, i):
                    out.append(t)
                    i += len(m)
                    break
            else:
                raise Unreadable(f'{s!r} at {i}: {s[i:i + 20]!r}')
    return out


class _P:
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def take(self):
        x = self.peek()
        self.i += 1
        return x

    def sum(self):
        v = self.prod()
        while self.peek() and self.peek()[0] == 'op' and self.peek()[1] in SUMS:
            op = self.take()[1]
            v = (op, v, self.prod())
        return v

    def prod(self):
        v = self.item()
        while self.peek() and self.peek()[0] == 'op' and self.peek()[1] in BINARY:
            op = self.take()[1]
            v = (op, v, self.item())
        return v

    def item(self):
        x = self.take()
        if x is None:
            raise Unreadable('unexpected end')
        if x[0] == '(':
            v = self.sum()
            if self.take() != (')',):
                raise Unreadable('group not closed')
            return v
        if x[0] == 'form':
            return ('f', x[1])
        if x[0] == 'scal':
            return ('s', x[1])
        if x[0] == 'op' and x[1] in UNARY:
            return (x[1], self.item())
        raise Unreadable(f'unexpected {x}')


def parse(s):
    p = _P(tokens(s))
    v = p.sum()
    if p.peek() is not None:
        raise Unreadable(f'trailing {p.t[p.i:]}')
    return v


def clean(d):
    return {k: v for k, v in d.items() if abs(v) > 1e-12}


def add(a, b, s=1.0):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0.0) + s * v
    return clean(r)


def scale(a, s):
    return clean({k: v * s for k, v in a.items()})


def value(ast):
    """AST -> ('s', number) or ('f', {atom: coefficient})"""
    op = ast[0]
    if op == 'f':
        return 'f', {ast: 1.0}
    if op == 's':
        return 's', scalar_value(ast[1])
    if op in UNARY:
        t, v = value(ast[1])
        if t != 'f':
            raise Unreadable(f'{op} of a scalar')
        if op == 'log-e':
            return 'f', {(op, tuple(sorted((k, round(c, 9)) for k, c in v.items()))): 1.0}
        return 'f', clean({(op, k): c for k, c in v.items()})
    t0, v0 = value(ast[1])
    t1, v1 = value(ast[2])
    if op in SUMS:
        s = 1.0 if op == 'plus' else -1.0
        if t0 != t1:
            raise Unreadable('sum of a form and a scalar')
        if t0 == 's':
            return 's', v0 + s * v1
        return 'f', add(v0, v1, s)
    if op == 'multiply':
        if t0 == 's' and t1 == 's':
            return 's', v0 * v1
        if t0 == 's':
            return 'f', scale(v1, v0)
        if t1 == 's':
            return 'f', scale(v0, v1)
        raise Unreadable('product of two forms')
    if op == 'division':
        if t1 != 's':
            raise Unreadable('division by a form')
        return (t0, v0 / v1) if t0 == 's' else (t0, scale(v0, 1.0 / v1))
    if t0 != 'f' or t1 != 'f':
        raise Unreadable(f'{op} with a scalar')
    r = {}
    for a, x in v0.items():
        for b, y in v1.items():
            k = (op, a, b)
            r[k] = r.get(k, 0.0) + x * y
    return 'f', clean(r)


def form(lin_repr):
    t, v = value(parse(lin_repr))
    if t != 'f':
        raise Unreadable('a scalar, not a form')
    return v


def scalar(lin_repr):
    t, v = value(parse(lin_repr))
    if t != 's':
        raise Unreadable('a form, not a scalar')
    return v


def bracket(kind, v0, v1, over, factor=1.0):
    r = {}
    for a, x in v0.items():
        for b, y in v1.items():
            k0, k1 = a, b
            if kind == 'L2-inner-product' and repr(b) < repr(a):
                k0, k1 = b, a
            k = (kind, k0, k1, over)
            r[k] = r.get(k, 0.0) + x * y * factor
    return clean(r)


def term(t):
    """The value of a weak-form term, read from its linguistic representation alone."""
    s = t._lin_repr
    for kind in ('L2-inner-product', 'duality-pairing'):
        a, b, c = LIN[kind]
        i = s.find(a)
        if i >= 0:
            factor = 1.0
            pre = s[:i]
            if pre:
                m = LIN['multiply']
                if not pre.endswith(m):
                    raise Unreadable(f'term {s!r}')
                factor = scalar(pre[:-len(m)])
            j = s.rindex(c)
            body = s[i + len(a):j]
            depth = body.count(b)
            if depth != 1:
                raise Unreadable(f'term {s!r}: {depth} separators')
            l, r = body.split(b)
            return bracket(kind, form(l), form(r), s[j + len(c):], factor)
    raise Unreadable(f'term {s!r}')


def equation(wf, i):
    """left minus right of equation i"""
    v = {}
    for j, side in enumerate(wf._term_dict[i]):
        for k, t in enumerate(side):
            s = 1.0 if wf._sign_dict[i][j][k] == '+' else -1.0
            v = add(v, term(t), s if j == 0 else -s)
    return v


def same(a, b, tol=1e-9):
    ks = set(a) | set(b)
    return all(abs(a.get(k, 0.0) - b.get(k, 0.0)) <= tol * max(1.0, abs(a.get(k, 0.0))) for k in ks)


def show(v):
    return ' + '.join(f'{c:.6g}*{_s(k)}' for k, c in sorted(v.items(), key=repr)) or '0'


def _s(a):
    if isinstance(a, tuple) and a and a[0] == 'f':
        return a[1]
    if isinstance(a, tuple):
        return '(' + ' '.join(_s(x) for x in a) + ')'
    return str(a)
