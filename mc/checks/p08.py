import boot          # noqa
import itertools
import phyem as ph
import sem
from phyem.src import config as cfg
from phyem.src.spaces.main import new

ID = 'P08'
LEVEL = 'model_checking'
RULE = ('explicit enumeration of operator applications on the real symbolic layer, for every manifold dimension 1-3 '
        '(periodic and not): all root spaces (scalar valued and bundle valued, every order and orientation, on the mesh, '
        'a second mesh and the boundary mesh) x all unary operators, all ordered pairs of roots x all binary operators; '
        'then every operator on every result of the first level (one representative for each space and leading operator, '
        'all ordered pairs) and unary operators once more; every state is compared with a reference typing table and with '
        'the meaning of its representation as read by an independent parser, and any two states with different meanings '
        'must have different representations; all ordered pairs of space constructions (every spelling of the '
        'orientation), and all scalar expressions of at most three operators')
ASSUMPTIONS = ('the space of a product of differently oriented forms is only required to have unknown orientation; cross '
               'products refuse or follow the table of the pairs for which the library defines one')


def tasks(tier):
    L = []
    for n in (1, 2, 3):
        for periodic in (False, True):
            for order in ('io', 'oi'):
                L.append(dict(kind='ops', n=n, periodic=periodic, order=order, tier=tier))
        L.append(dict(kind='spaces', n=n))
    L.append(dict(kind='scalars', tier=tier))
    for n in (2, 3):
        L.append(dict(kind='sums', n=n, tier=tier))
    return L


def run(task, rec):
    {'ops': ops, 'spaces': spaces, 'scalars': scalars, 'sums': sums}[task['kind']](task, rec)


# ---------------------------------------------------------------- reference typing

OPP = {'inner': 'outer', 'outer': 'inner', 'unknown': 'unknown'}
REFUSE = 'refuse'

# (method, n): {(k1, o1, k2, o2): (k, o)}
X = {
    ('cross_product', 2): {
        (0, 'outer', 1, 'inner'): (1, 'inner'), (0, 'outer', 1, 'outer'): (1, 'outer'),
        (2, 'inner', 1, 'outer'): (1, 'outer'), (2, 'inner', 1, 'inner'): (1, 'inner'),
        (1, 'inner', 1, 'inner'): (0, 'outer'), (1, 'outer', 1, 'outer'): (0, 'outer'),
        (1, 'outer', 1, 'inner'): (2, 'inner'), (1, 'inner', 1, 'outer'): (0, 'outer')},
    ('cross_product', 3): {
        (1, 'outer', 1, 'inner'): (1, 'inner'), (2, 'inner', 2, 'outer'): (2, 'outer'),
        (1, 'outer', 2, 'outer'): (2, 'outer'), (2, 'inner', 1, 'inner'): (1, 'inner'),
        (2, 'outer', 1, 'inner'): (2, 'inner'), (2, 'outer', 2, 'outer'): (1, 'outer')},
    ('Cross_Product', 2): {
        (0, 'outer', 1, 'inner'): (1, 'outer'), (1, 'outer', 1, 'inner'): (0, 'outer')},
    ('Cross_Product', 3): {
        (1, 'outer', 2, 'outer'): (1, 'outer'), (1, 'outer', 1, 'inner'): (2, 'outer'),
        (2, 'outer', 1, 'inner'): (1, 'outer'), (2, 'inner', 2, 'outer'): (2, 'inner')},
    ('CrossProduct', 3): {(1, 'outer', 1, 'inner'): (1, 'outer')},
}
CROSS = ('cross_product', 'Cross_Product', 'CrossProduct', 'crossProduct')


def ty(f):
    s = f.space
    return s.indicator, s.k, s.orientation, s.mesh._sym_repr


def ref_unary(op, t, n_of, boundary):
    """the space prescribed, REFUSE, or None: no statement"""
    ind, k, o, m = t
    n = n_of[m]
    diag = ind == 'bundle-diagonal'
    if op == 'd':
        return REFUSE if diag or k >= n else (ind, k + 1, o, m)
    if op == 'codifferential':
        return REFUSE if diag or k <= 0 else (ind, k - 1, o, m)
    if op == 'Hodge':
        return REFUSE if diag else (ind, n - k, OPP[o], m)
    if op == 'trace':
        return REFUSE if ind != 'Lambda' or k >= n or m not in boundary else (ind, k, o, boundary[m])
    return t                # time derivative, logarithm, scaling


def ref_binary(op, a, b, n_of):
    n = n_of[a[3]]
    if op in ('plus', 'minus'):
        return a if a == b else REFUSE
    if a[3] != b[3]:
        return REFUSE
    if op == 'wedge':
        if a[0] != b[0] or a[0] == 'bundle-diagonal' or a[1] + b[1] > n:
            return REFUSE
        return a[0], a[1] + b[1], a[2] if a[2] == b[2] else 'unknown', a[3]
    if op in CROSS:
        if a[0] != 'Lambda' or b[0] != 'Lambda':
            return REFUSE
        r = X.get((op, n), {}).get((a[1], a[2], b[1], b[2]), REFUSE)
        return r if r == REFUSE else ('Lambda', r[0], r[1], a[3])
    if op == 'convect':
        if a[0] != 'Lambda' or b[0] != 'Lambda' or n != 2:
            return REFUSE
        if (a[1], b[1]) == (1, 1) and a[2] == b[2] == 'inner':
            return a
        if (a[1], a[2], b[1], b[2]) == (1, 'outer', 0, 'inner'):
            return b
        return REFUSE
    if op == 'tensor_product':
        if n == 2 and a[:3] == b[:3] == ('bundle', 0, 'inner'):
            return 'bundle', 1, 'inner', a[3]
        return REFUSE
    raise Exception(op)


def ref_inner(a, b, n):
    if a[3] != b[3]:
        return REFUSE
    if a[0] == b[0] and a[0] in ('Lambda', 'bundle'):
        return True if a[:3] == b[:3] else REFUSE
    if a[0] == 'bundle-diagonal' and b[0] == 'bundle' and 0 < b[1] < n:
        return True
    return REFUSE


def ref_dp(a, b, n):
    return True if a[0] == b[0] == 'Lambda' and a[3] == b[3] and a[1] + b[1] == n else REFUSE


# ---------------------------------------------------------------- operations

CS = {}


def setup(n, periodic=False):
    cfg._clear_all()
    ph.config.set_embedding_space_dim(n)
    ma = ph.manifold(n, r'\mathcal{M}', 'M', periodic=periodic)
    me = ph.mesh(ma, r'\mathfrak{M}', 'Me')
    ma2 = ph.manifold(n, r'\mathcal{N}', 'N')
    me2 = ph.mesh(ma2, r'\mathfrak{N}', 'Ne')
    ts = ph.time_sequence()
    CS.clear()
    CS['alpha'] = ph.constant_scalar(r'\alpha', 'alpha')
    CS['Re'] = ph.constant_scalar(r'\mathsf{R}', 'Re')
    CS['3'] = ph.constant_scalar(3)
    CS['0.3'] = ph.constant_scalar(0.3)
    CS['0.25'] = ph.constant_scalar(0.25)
    CS['dt'] = ts.make_time_interval('k-1', 'k')
    return me, me2, ts


def sval(name):
    if name == 'dt':
        return sem.scalar(CS['dt']._as_scalar()._lin_repr)
    return float(name) if name[0].isdigit() else sem.generic(name)


UN = {
    'd': lambda f: ph.d(f), 'codifferential': lambda f: ph.codifferential(f), 'Hodge': lambda f: ph.Hodge(f),
    'trace': lambda f: ph.trace(f), 'time_derivative': lambda f: ph.time_derivative(f), 'log-e': lambda f: f.log(),
    'mul:alpha': lambda f: CS['alpha'].__class__.__mul__(CS['alpha'], f) if hasattr(CS['alpha'], '__mul__') else CS['alpha'] * f,
    'mul:3': lambda f: 3 * f, 'mul:0.3': lambda f: CS['0.3'] * f, 'div:2': lambda f: f / 2, 'div:Re': lambda f: f / CS['Re'],
    'div:dt': lambda f: f / CS['dt'], 'div:0.25': lambda f: f / CS['0.25'],
}
UN['mul:alpha'] = lambda f: CS['alpha'] * f
METHOD = {'d': 'exterior_derivative', 'codifferential': 'codifferential', 'time_derivative': 'time_derivative'}
BI = {
    'wedge': lambda a, b: a.wedge(b), 'plus': lambda a, b: a + b, 'minus': lambda a, b: a - b,
    'cross_product': lambda a, b: a.cross_product(b), 'Cross_Product': lambda a, b: a.Cross_Product(b),
    'CrossProduct': lambda a, b: a.CrossProduct(b), 'crossProduct': lambda a, b: a.crossProduct(b),
    'convect': lambda a, b: a.convect(b), 'tensor_product': lambda a, b: a.tensor_product(b),
}


def ref_value_unary(op, v):
    if op.startswith('mul:'):
        return sem.scale(v, sval(op[4:]))
    if op.startswith('div:'):
        return sem.scale(v, 1.0 / sval(op[4:]))
    if op == 'log-e':
        return {(op, tuple(sorted((k, round(c, 9)) for k, c in v.items()))): 1.0}
    return {(op, k): c for k, c in v.items()}


def ref_value_binary(op, v, w):
    if op in ('plus', 'minus'):
        return sem.add(v, w, 1.0 if op == 'plus' else -1.0)
    r = {}
    for a, x in v.items():
        for b, y in w.items():
            r[(op, a, b)] = r.get((op, a, b), 0.0) + x * y
    return sem.clean(r)


class Book:
    """every form seen: representation <-> meaning"""

    def __init__(self, rec):
        self.rec = rec
        self.lin = {}
        self.sym = {}

    def check(self, f, val, name, want):
        rec = self.rec
        rec.state(f._lin_repr, ty(f))
        rec.ok(ty(f) == want, f'{name}:space', lambda: f'{name}: in {ty(f)}, the calculus says {want}')
        rec.ok(f.orientation == f.space.orientation and f.mesh is f.space.mesh, f'{name}:attrs', name)
        try:
            got = sem.form(f._lin_repr)
        except Exception as e:
            rec.bad(f'{name}:repr', f'{name}: {f._lin_repr!r} is not readable: {e!r}')
            return
        rec.ok(sem.same(got, val), f'{name}:meaning',
               lambda: f'{name}: represented as {f._lin_repr!r} meaning {sem.show(got)}, constructed as {sem.show(val)}')
        key = (f._lin_repr, ty(f))
        for book, k in ((self.lin, key), (self.sym, (f._sym_repr, ty(f)))):
            if k in book:
                other, oname = book[k]
                rec.ok(sem.same(other, val), f'{name}:collides',
                       lambda: f'{name} and {oname} have the same representation {k[0]!r} but mean {sem.show(val)} and '
                               f'{sem.show(other)}')
            else:
                book[k] = (val, name)


def attempt(rec, fn):
    rec.step()
    try:
        return True, fn()
    except Exception as e:
        return False, e


def apply_un(book, op, node, n_of, boundary, depth):
    rec = book.rec
    f, val, name, t = node
    want = ref_unary(op, t, n_of, boundary)
    nm = f'{op}[{name}]'
    before = (f._lin_repr, f._sym_repr, ty(f))
    ok, g = attempt(rec, lambda: UN[op](f))
    rec.ok(before == (f._lin_repr, f._sym_repr, ty(f)), f'{nm}:operand', f'{nm} changed its operand')
    rec.outcome(('accept' if ok else 'refuse') + ':' + op.split(':')[0])
    if want == REFUSE:
        rec.ok(not ok, f'{nm}:accepted', lambda: f'{nm} with operand in {t} accepted: {g!r} in {ty(g) if ok else 0}')
        return None
    if not ok:
        return None
    v = ref_value_unary(op, val)
    book.check(g, v, nm, want)
    ok2, g2 = attempt(rec, lambda: UN[op](f))
    rec.ok(ok2 and g2._lin_repr == g._lin_repr and g2._sym_repr == g._sym_repr and g2.space == g.space, f'{nm}:repeat',
           f'{nm} twice gives two different forms')
    if op in METHOD:
        ok2, g2 = attempt(rec, lambda: getattr(f, METHOD[op])())
        rec.ok(ok2 and g2._lin_repr == g._lin_repr and g2.space == g.space, f'{nm}:method', f'{nm}: method and function differ')
    rec.ok(not g.is_root(), f'{nm}:root', f'{nm} is a root form')
    return g, v, nm, want


def apply_bi(book, op, x, y, n_of):
    rec = book.rec
    want = ref_binary(op, x[3], y[3], n_of)
    nm = f'({x[2]} {op} {y[2]})'
    ok, g = attempt(rec, lambda: BI[op](x[0], y[0]))
    rec.outcome(('accept' if ok else 'refuse') + ':' + op)
    if want == REFUSE:
        rec.ok(not ok or g is None, f'{nm}:accepted', lambda: f'{nm} of {x[3]} and {y[3]} accepted: {g!r}')
        return None
    if not ok:
        return None
    v = ref_value_binary(op, x[1], y[1])
    book.check(g, v, nm, want)
    ok2, g2 = attempt(rec, lambda: BI[op](x[0], y[0]))
    rec.ok(ok2 and g2._lin_repr == g._lin_repr and g2.space == g.space, f'{nm}:repeat', f'{nm} twice gives two different forms')
    return g, v, nm, want


def pairings(book, x, y, n_of):
    rec = book.rec
    n = n_of[x[3][3]]
    for kind, fn, want in (('L2-inner-product', ph.inner, ref_inner(x[3], y[3], n)),
                           ('duality-pairing', ph.dp, ref_dp(x[3], y[3], n))):
        for factor in (None, 2, 0.3, 'alpha'):
            fac = CS['alpha'] if factor == 'alpha' else factor
            fv = {None: 1.0, 2: 2.0, 0.3: 0.3, 'alpha': sem.generic('alpha')}[factor]
            nm = f'{kind}[{x[2]}|{y[2]}]x{factor}'
            ok, t = attempt(rec, lambda: fn(x[0], y[0], factor=fac))
            rec.outcome(('accept' if ok else 'refuse') + ':' + kind)
            if want == REFUSE:
                rec.ok(not ok, f'{nm}:accepted', lambda: f'{nm} of {x[3]} and {y[3]} accepted')
                continue
            if not ok:
                continue
            rec.state('term', t._lin_repr)
            try:
                got = sem.term(t)
            except Exception as e:
                rec.bad(f'{nm}:repr', f'{nm}: {t._lin_repr!r} is not readable: {e!r}')
                continue
            exp = sem.bracket(kind, x[1], y[1], t.mesh.manifold._lin_repr, fv)
            rec.ok(sem.same(got, exp), f'{nm}:meaning', lambda: f'{nm}: {t._lin_repr!r} means {sem.show(got)}, not {sem.show(exp)}')
            rec.ok(t.mesh is x[0].mesh, f'{nm}:mesh', nm)
            if factor not in (None,):
                continue
            root = {g._pure_lin_repr for g in t.elementary_forms}
            want_roots = set(_roots(list(x[1])) | _roots(list(y[1])))
            rec.ok(root >= want_roots, f'{nm}:elementary', lambda: f'{nm}: elementary forms {root}, has {want_roots}')
            other = [g for g in root if g not in _reprs(x[0], y[0])]
            rec.ok(not other, f'{nm}:elementary2', lambda: f'{nm}: elementary forms {root} include {other}')
        if want != REFUSE and kind == 'L2-inner-product':
            pass


def _roots(atom):
    if isinstance(atom, tuple) and len(atom) == 2 and atom[0] == 'f':
        return {atom[1]}
    if isinstance(atom, (tuple, list)):
        r = set()
        for a in atom:
            r |= _roots(a)
        return r
    return set()


def _reprs(*fs):
    r = set()
    for f in fs:
        r |= {x[1] for x in sem.tokens(f._lin_repr) if x[0] == 'form'}
    return r


def ops(task, rec):
    n, periodic = task['n'], task['periodic']
    me, me2, ts = setup(n, periodic)
    book = Book(rec)
    n_of = {me._sym_repr: n, me2._sym_repr: n}
    boundary = {}
    for m in (me, me2):
        b = m.boundary()
        if b.__class__.__name__ == 'Mesh':
            boundary[m._sym_repr] = b._sym_repr
            n_of[b._sym_repr] = n - 1
            rec.ok(b.ndim == n - 1 and b.inclusion() is m and m.boundary() is b, f'boundary:{m._sym_repr}', 'boundary mesh')
    rec.ok((me._sym_repr in boundary) == (not periodic), 'periodic-boundary', 'a periodic manifold has no boundary')
    roots = []
    c = 0
    oris = ('inner', 'outer') if task['order'] == 'io' else ('outer', 'inner')
    for ind, ks in (('Lambda', range(n + 1)), ('bundle', range(n + 1)), ('bundle-diagonal', (0, n))):
        for o in oris:
            for k in ks:
                for copy in range(2 if ind == 'Lambda' and k <= 2 else 1):
                    c += 1
                    s = new(ind, k, mesh=me, orientation=o)
                    f = s.make_form(f'a_{{{c}}}', f'a{c}')
                    roots.append((f, {('f', f'a{c}'): 1.0}, f'{ind[:1] if ind != "bundle-diagonal" else "D"}{k}{o[0]}{"b" if copy else ""}',
                                  (ind, k, o, me._sym_repr)))
    for o in oris:
        for k in range(n + 1):
            c += 1
            f = new('Lambda', k, mesh=me2, orientation=o).make_form(f'a_{{{c}}}', f'a{c}')
            roots.append((f, {('f', f'a{c}'): 1.0}, f'N{k}{o[0]}', ('Lambda', k, o, me2._sym_repr)))
    if not periodic:
        bm = me.boundary()
        for o in oris:
            for k in range(n):
                c += 1
                f = new('Lambda', k, mesh=bm, orientation=o).make_form(f'a_{{{c}}}', f'a{c}')
                roots.append((f, {('f', f'a{c}'): 1.0}, f'B{k}{o[0]}', ('Lambda', k, o, bm._sym_repr)))
    for r in roots:
        book.check(r[0], r[1], r[2], r[3])
        rec.ok(r[0].is_root(), f'{r[2]}:root', 'root')
    level1 = []
    for r in roots:
        for op in UN:
            g = apply_un(book, op, r, n_of, boundary, 1)
            if g:
                level1.append((op, g))
    for x in roots:
        for y in roots:
            for op in BI:
                g = apply_bi(book, op, x, y, n_of)
                if g:
                    level1.append((op, g))
            pairings(book, x, y, n_of)
            # a product of two forms in a space of ours
            if x[3][3] == y[3][3]:
                ok, g = attempt(rec, lambda: x[0].multi(y[0], output_space=y[0]))
                if ok:
                    book.check(g, ref_value_binary('multi', x[1], y[1]), f'({x[2]} multi {y[2]})', y[3])
                    level1.append(('multi', (g, ref_value_binary('multi', x[1], y[1]), f'({x[2]} multi {y[2]})', y[3])))
                ok, g = attempt(rec, lambda: x[0].project_to(y[0].space))
                if ok:
                    v = {('projection', k): w for k, w in x[1].items()}
                    rec.ok(ty(g) == y[3], f'pi[{x[2]}->{y[2]}]', f'projection of {x[2]} lands in {ty(g)}, not in {y[3]}')
                # the product that lands in the space asked for
                for z in roots:
                    if z[3][3] == x[3][3] and z[3][0] == 'Lambda' and x[3][0] == y[3][0] == 'Lambda' and z[2][-1] != 'b':
                        ok, g = attempt(rec, lambda: x[0].x(y[0], form_space=z[0]))
                        if ok:
                            rec.ok(ty(g) == z[3], f'x[{x[2]},{y[2]}->{z[2]}]', f'x of {x[2]} and {y[2]} lands in {ty(g)}, asked for {z[3]}')
                            at = list(sem.form(g._lin_repr))[0]
                            rec.ok(ref_binary(at[0], x[3], y[3], n_of) == z[3], f'xop[{x[2]},{y[2]}->{z[2]}]', f'x used {at[0]}')
    # one representative for each (operator, space)
    reps = {}
    for op, g in level1:
        reps.setdefault((op, g[3]), g)
    reps = list(reps.values())
    if task['tier'] == 'quick':
        keep = {}
        for g in reps:
            keep.setdefault((g[3], ) if g[3][0] != 'Lambda' else (g[3], sem.parse(g[0]._lin_repr)[0]), g)
        reps = list(keep.values())
    level2 = []
    for g in reps:
        for op in UN:
            w = apply_un(book, op, g, n_of, boundary, 2)
            if w:
                level2.append(w)
    simple = [r for r in roots if r[3][0] == 'Lambda']
    pool = [g for g in reps if g[3][0] == 'Lambda' or task['tier'] != 'quick']
    for x in pool:
        for y in pool:
            for op in BI:
                if x[3][3] == y[3][3] or op in ('plus', 'wedge'):
                    apply_bi(book, op, x, y, n_of)
            if x[3][3] == y[3][3]:
                pairings(book, x, y, n_of)
    for x in simple:
        for y in pool:
            if x[3][3] == y[3][3]:
                for op in BI:
                    apply_bi(book, op, x, y, n_of)
                    apply_bi(book, op, y, x, n_of)
    keep = {}
    for g in level2:
        keep.setdefault(g[3], g)
    for g in keep.values():
        for op in UN:
            apply_un(book, op, g, n_of, boundary, 3)
    rec.trace(len(book.lin))


# ---------------------------------------------------------------- constructing spaces

SPELL = [('inner', 'inner'), ('i', 'inner'), ('outer', 'outer'), ('o', 'outer'), (None, 'unknown')]


def spaces(task, rec):
    n = task['n']
    items = []
    for ind in ('Lambda', 'bundle', 'bundle-diagonal'):
        for k in (range(n + 1) if ind != 'bundle-diagonal' else (0, n)):
            for sp, o in SPELL:
                items.append((ind, k, sp, o))
    for a, b in itertools.product(items, items):
        if a[1] != b[1] and not (a[0] == b[0] and a[3] == b[3]):
            continue
        me, me2, ts = setup(n)
        made = []
        for ind, k, sp, o in (a, b):
            nm = f'{a}->{b}'
            ok, s = rec.guard(f'new:{nm}', lambda: new(ind, k, mesh=me, orientation=sp))
            if not ok:
                break
            made.append(s)
            rec.state(n, nm, len(made))
            rec.ok((s.indicator, s.k, s.orientation, s.mesh) == (ind, k, o, me), f'new:{nm}:attrs',
                   lambda: f'new({ind},{k},{sp}) after {a}: got {s.indicator} {s.k} {s.orientation}')
        if len(made) == 2:
            rec.ok((made[0] is made[1]) == (a[0] == b[0] and a[1] == b[1] and a[3] == b[3]), f'new:{a}->{b}:same',
                   f'spaces {a} and {b}: identical={made[0] is made[1]}')
            rec.ok((made[0] == made[1]) == (made[0] is made[1]), f'new:{a}->{b}:eq', f'{made[0]!r} == {made[1]!r}')
    # out of range
    me, me2, ts = setup(n)
    for ind in ('Lambda', 'bundle', 'bundle-diagonal'):
        for k in (-1, n + 1, 0.5, '1'):
            rec.raises(f'new:{ind}:{k}', lambda: new(ind, k, mesh=me, orientation='inner'))
    rec.raises('new:ori', lambda: new('Lambda', 0, mesh=me, orientation='up'))


# ---------------------------------------------------------------- scalars

def scalars(task, rec):
    setup(2)
    atoms = [(CS['alpha'], sem.generic('alpha'), 'alpha'), (CS['Re'], sem.generic('Re'), 'Re'), (CS['3'], 3.0, '3'),
             (CS['0.25'], 0.25, '0.25'), (CS['0.3'], 0.3, '0.3'), (2, 2.0, '2'), (0.1, 0.1, '0.1'), (1, 1.0, '1')]
    OPS = {'+': (lambda a, b: a + b, lambda x, y: x + y), '/': (lambda a, b: a / b, lambda x, y: x / y)}
    level = [list(atoms)]
    seen = {}
    for depth in range(2):
        out = []
        small = atoms if depth else level[0]
        pairs = [(x, y) for x in level[-1] for y in small]
        if depth:
            pairs += [(y, x) for x in level[-1] for y in small]
            if task['tier'] != 'quick':
                pairs += [(x, y) for x in level[-1] for y in level[-1]]
        for x, y in pairs:
            for o, (fn, ref) in OPS.items():
                if isinstance(x[0], (int, float)) and isinstance(y[0], (int, float)):
                    continue
                nm = f'({x[2]}{o}{y[2]})'
                ok, s = attempt(rec, lambda: fn(x[0], y[0]))
                rec.outcome('accept' if ok else 'refuse')
                if not ok:
                    continue
                v = ref(x[1], y[1])
                rec.state(s._lin_repr)
                try:
                    got = sem.scalar(s._lin_repr)
                except Exception as e:
                    rec.bad(f'{nm}:repr', f'{nm}: {s._lin_repr!r} not readable: {e!r}')
                    continue
                rec.ok(abs(got - v) <= 1e-12 * max(1, abs(v)), f'{nm}:value', f'{nm}: {s._lin_repr!r} is {got}, constructed {v}')
                if s.is_real():
                    rec.ok(abs(s() - v) <= 1e-12 * max(1, abs(v)), f'{nm}:call', f'{nm}() = {s()}, is {v}')
                for k in (('lin', s._lin_repr), ('sym', s._sym_repr)):
                    if k in seen:
                        rec.ok(abs(seen[k][0] - v) <= 1e-9, f'{nm}:collides', f'{nm} and {seen[k][1]} are both written {k[1]!r}')
                    else:
                        seen[k] = (v, nm)
                out.append((s, v, nm))
        level.append(out)
    # a scalar with a value, given as a number or a callable
    a = CS['alpha']
    rec.raises('no-value', lambda: a())
    a.value = 2.5
    rec.ok(a() == 2.5, 'value', 'number')
    a.value = lambda t: 2 * t
    rec.ok(a(3) == 6, 'value-callable', 'callable')
    from phyem.src.form.parameters import _factor_parser
    a.value = 2.5
    CS['Re'].value = 4.0
    vals = {'alpha': 2.5, 'Re': 4.0}
    for s, _, nm in level[0][:5] + level[1]:
        if isinstance(s, (int, float)):
            continue
        ok, p = attempt(rec, lambda: _factor_parser(s._lin_repr)())
        if ok:
            exp = eval(nm, {}, vals)
            rec.ok(abs(p - exp) <= 1e-12 * max(1, abs(exp)), f'factor:{nm}', f'{nm} evaluates to {p}, is {exp}')
    # numbers are themselves
    for num in (0, 1, -1, 7, 0.5, 0.125, -0.25, 1 / 3, 1e-9, 12345.678, -3.0, 1e22):
        ok, s = rec.guard(f'number:{num}', lambda: ph.constant_scalar(num))
        if ok:
            rec.state('num', num)
            rec.ok(s() == float(num) and s.is_real(), f'number:{num}:value', f'{s()}')
            ok, s2 = rec.guard(f'number:{num}:again', lambda: ph.constant_scalar(num))
            rec.ok(ok and s2 is s and s == s2, f'number:{num}:same', 'equal numbers are one scalar')
    rec.ok(ph.constant_scalar(2.0) is ph.constant_scalar(2), 'int-float', '2 and 2.0')


# ---------------------------------------------------------------- sums, replacements

def sums(task, rec):
    """all sums and differences of up to four operands in every bracketing, each replaced and scaled"""
    n = task['n']
    me, me2, ts = setup(n)
    s = new('Lambda', 1, mesh=me, orientation='inner')
    s0 = new('Lambda', 0, mesh=me, orientation='inner')
    t = ('Lambda', 1, 'inner', me._sym_repr)
    book = Book(rec)
    A = []
    for nm in 'abc':
        f = s.make_form(nm, nm)
        A.append((f, {('f', nm): 1.0}, nm, t))
    h = s0.make_form('h', 'h')
    g = ph.d(h)
    A.append((g, {('d', ('f', 'h')): 1.0}, 'dh', t))
    A.append((A[0][0].time_derivative(), {('time_derivative', ('f', 'a')): 1.0}, 'ddt(a)', t))
    A.append((A[1][0] / 2, {('f', 'b'): 0.5}, 'b/2', t))
    A.append((CS['alpha'] * A[2][0], {('f', 'c'): sem.generic('alpha')}, 'alpha*c', t))
    n_of = {me._sym_repr: n}
    lev = {1: A}
    lev[2] = [z for x in A for y in A for op in ('plus', 'minus') for z in [apply_bi(book, op, x, y, n_of)] if z]
    lev[3] = []
    third = A if task['tier'] != 'quick' else A[:4]
    for x in lev[2]:
        for y in third:
            for op in ('plus', 'minus'):
                for p, q in ((x, y), (y, x)):
                    z = apply_bi(book, op, p, q, n_of)
                    if z:
                        lev[3].append(z)
    small = [x for x in lev[2] if all(a in ('a', 'b', 'c', 'dh') for a in x[2].replace('(', '').replace(')', '').split() if a not in ('plus', 'minus'))]
    four = []
    for x in small:
        for y in small:
            for op in ('plus', 'minus'):
                z = apply_bi(book, op, x, y, n_of)
                if z:
                    four.append(z)
    pool = lev[1] + lev[2] + lev[3] + four
    un = ('d', 'mul:alpha', 'mul:3', 'div:2', 'div:dt', 'time_derivative', 'codifferential')
    for z in lev[2] + lev[3][::1 if task['tier'] != 'quick' else 3]:
        for op in un:
            apply_un(book, op, z, n_of, {}, 2)
    # replacing a form: the meaning changes by substitution, everything else stays
    targets = [A[0], A[1], lev[2][1], [z for z in lev[2] if z[2] == '(a plus b)'][0], A[3], A[4], A[5]]
    bys = [A[2], A[3], A[5], A[6], [z for z in lev[2] if z[2] == '(b minus c)'][0], [z for z in lev[2] if z[2] == '(b plus c)'][0]]
    hosts = list(lev[2]) + lev[3][::1 if task['tier'] != 'quick' else 5]
    hosts += [w for z in lev[2][:12] for op in un for w in [apply_un(book, op, z, n_of, {}, 2)] if w]
    hosts += [w for z in A for op in un for w in [apply_un(book, op, z, n_of, {}, 2)] if w]
    for hst in hosts:
        for f in targets:
            for by in bys:
                nm = f'{hst[2]}[{f[2]}:={by[2]}]'
                before = hst[0]._lin_repr
                ok, r = attempt(rec, lambda: hst[0].replace(f[0], by[0]))
                rec.ok(hst[0]._lin_repr == before, f'{nm}:operand', 'replace changed the form')
                rec.outcome('replace' if ok else 'replace-refuse')
                if not ok:
                    continue
                rec.state(nm)
                want = subst(sem.parse(hst[0]._lin_repr), sem.parse(f[0]._lin_repr), sem.parse(by[0]._lin_repr))
                try:
                    got = sem.form(r._lin_repr)
                except Exception as e:
                    rec.bad(f'{nm}:repr', f'{nm}: {r._lin_repr!r}: {e!r}')
                    continue
                exp = sem.value(want)[1]
                alt = sem.value(subst_sum(sem.parse(hst[0]._lin_repr), sem.parse(f[0]._lin_repr), sem.parse(by[0]._lin_repr)))[1]
                rec.ok(sem.same(got, exp) or sem.same(got, alt), f'{nm}:meaning', lambda: f'{nm}: {r._lin_repr!r} means {sem.show(got)}, substitution gives {sem.show(exp)}')
                rec.ok(ty(r) == hst[3], f'{nm}:space', f'{ty(r)}')
                rec.ok(r.is_root() == (r._lin_repr == by[0]._lin_repr and by[0].is_root()) or r is hst[0], f'{nm}:root',
                       f'{nm}: {r._lin_repr} root={r.is_root()}')
    rec.trace(len(pool))


def subst(ast, f, by):
    if ast == f:
        return by
    if ast[0] in ('f', 's'):
        return ast
    return (ast[0],) + tuple(subst(x, f, by) for x in ast[1:])


def flatten(ast, s=1):
    if ast[0] in ('plus', 'minus'):
        return flatten(ast[1], s) + flatten(ast[2], s if ast[0] == 'plus' else -s)
    return [(s, ast)]


def subst_sum(ast, f, by):
    """the same when a + b + c is read as a + (b + c)"""
    if ast == f:
        return by
    if ast[0] in ('f', 's'):
        return ast
    if ast[0] in ('plus', 'minus') and f[0] in ('plus', 'minus'):
        L, F = flatten(ast), flatten(f)
        out, i = [], 0
        while i < len(L):
            if L[i:i + len(F)] == F:
                out.append((1, by))
                i += len(F)
            else:
                out.append((L[i][0], subst_sum(L[i][1], f, by)))
                i += 1
        r = ('f', 'ZERO')
        r = None
        for sg, a in out:
            if r is None:
                r = a if sg > 0 else ('minus', ('minus', a, a), a)
            else:
                r = ('plus' if sg > 0 else 'minus', r, a)
        return r
    return (ast[0],) + tuple(subst_sum(x, f, by) for x in ast[1:])
