import boot          # noqa
import itertools
import phyem as ph
import sem
from phyem.src import config as cfg
from phyem.src.spaces.main import new

ID = 'P09'
LEVEL = 'model_checking'
RULE = ('explicit-state breadth-first exploration of the real derivation engine: from each of several weak formulations '
        '(tested equations with time derivatives, codifferentials, sums, real and abstract factors, Hodge stars, cross '
        'products and convection in 2 and 3 dimensions, periodic or not, with boundary conditions) all sequences of '
        'derivation steps (replace, delete, switch signs, rearrange, split, integrate by parts, commute a triple product, '
        'change to a duality pairing) up to the depth bound; a reference model, which reads only the representation of a '
        'term, predicts the complete ordered list of signed terms of every equation after the step, or that the step must '
        'refuse; plus all rearrangements of equations of at most four terms in every notation, all pairs of orders of a '
        'triple product, all equation texts of at most three terms, and the testing of every kind of term')
ASSUMPTIONS = ('the factors given to split are the complete factors of the new terms; integrating (A.grad b, c) by parts follows '
               'the documented rule -(b A, grad c)')


def tasks(tier):
    L = []
    for name in WFS:
        for depth in ([2] if tier == 'quick' else [3]):
            for part in range(PARTS):
                L.append(dict(kind='bfs', wf=name, depth=depth, part=part, tier=tier))
    for nl in range(0, 4 if tier == 'quick' else 5):
        for nr in range(0, (4 if tier == 'quick' else 5) - nl):
            if nl + nr:
                L.append(dict(kind='rearrange', nl=nl, nr=nr))
    for n in (2, 3):
        L.append(dict(kind='triple', n=n))
        L.append(dict(kind='expressions', n=n, tier=tier))
        L.append(dict(kind='test', n=n))
        L.append(dict(kind='merge', n=n))
    return L


PARTS = 4


def run(task, rec):
    globals()[task['kind']](task, rec)


# ------------------------------------------------------------------------------- reading a weak formulation

def read_term(t):
    """kind, ast of the first, ast of the second, manifold, factor"""
    s = t._lin_repr
    for kind in ('L2-inner-product', 'duality-pairing'):
        a, b, c = sem.LIN[kind]
        i = s.find(a)
        if i < 0:
            continue
        factor = 1.0
        if s[:i]:
            m = sem.LIN['multiply']
            if not s[:i].endswith(m):
                raise sem.Unreadable(s)
            factor = sem.scalar(s[:i][:-len(m)])
        j = s.rindex(c)
        l, r = s[i + len(a):j].split(b)
        return kind, sem.parse(l), sem.parse(r), s[j + len(c):], factor
    raise sem.Unreadable(s)


def V(ast):
    t, v = sem.value(ast)
    assert t == 'f'
    return v


def ap(op, v):
    return {(op, k): c for k, c in v.items()}


def tval(r):
    kind, a, b, over, factor = r
    return sem.bracket(kind, V(a), V(b), over, factor)


def br(kind, v0, v1, over, factor=1.0):
    return sem.bracket(kind, v0, v1, over, factor)


def frz(v):
    return tuple(sorted(((repr(k), round(c, 7)) for k, c in v.items())))


def structure(wf):
    """per equation: (list of left terms, list of right terms), a term being (sign, value)"""
    out = []
    for i in wf._term_dict:
        sides = []
        for j in range(2):
            sides.append([(wf._sign_dict[i][j][k], sem.term(t)) for k, t in enumerate(wf._term_dict[i][j])])
        out.append(sides)
    return out


def key_of(st):
    return tuple(tuple(tuple((s, frz(v)) for s, v in side) for side in eq) for eq in st)


def eqv(st, i):
    v = {}
    for j in range(2):
        for s, t in st[i][j]:
            v = sem.add(v, t, (1.0 if s == '+' else -1.0) * (1.0 if j == 0 else -1.0))
    return v


def show(st):
    return ' ; '.join(' = '.join(' '.join(f'{s}[{sem.show(v)}]' for s, v in side) or '0' for side in eq) for eq in st)


def roots_in(st):
    out = set()

    def walk(a):
        if isinstance(a, tuple) and len(a) == 2 and a[0] == 'f':
            out.add(a[1])
        elif isinstance(a, tuple):
            for x in a:
                walk(x)
    for eq in st:
        for side in eq:
            for _, v in side:
                for k in v:
                    walk(k)
    return out


def neg(s):
    return '-' if s == '+' else '+'


def compare(rec, nm, wf, want, unknowns, tests, ckey=None):
    """the formulation is the expected one, and its indexing is consistent"""
    try:
        got = structure(wf)
    except Exception as e:
        rec.bad(f'{nm}:unreadable', f'{nm}: {e!r}')
        return None
    same = len(got) == len(want) and all(
        len(g[j]) == len(w[j]) and all(a[0] == b[0] and sem.same(a[1], b[1]) for a, b in zip(g[j], w[j]))
        for g, w in zip(got, want) for j in range(2))
    rec.ok(same, f'{nm}:terms', lambda: f'{nm}: got {show(got)}; expected {show(want)}')
    idx = []
    for i, eq in enumerate(got):
        k = 0
        for j in range(2):
            for s, v in eq[j]:
                idx.append((f'{i}-{k}', s, v))
                k += 1
    rec.ok(list(wf) == [x[0] for x in idx], f'{nm}:indices', lambda: f'{nm}: indices {list(wf)}')
    for name, s, v in idx:
        rec.ok(name in wf and wf[name][0] == s and sem.same(sem.term(wf[name][1]), v) and wf.terms[name] is wf[name][1],
               f'{nm}:index', lambda: f'{nm}: index {name}')
    rec.ok(wf.unknowns is None and unknowns is None or wf.unknowns is not None and unknowns is not None
           and [u._lin_repr for u in wf.unknowns] == [u._lin_repr for u in unknowns], f'{nm}:unknowns', f'{nm}: unknowns {wf.unknowns}')
    rec.ok([f._lin_repr for f in wf.test_forms] == [f._lin_repr for f in tests], f'{nm}:tests', f'{nm}: test forms')
    rec.ok(len(wf) == len(want), f'{nm}:len', nm)
    el = {f._pure_lin_repr for f in wf.elementary_forms}
    rec.ok(el >= roots_in(got), f'{nm}:elementary', lambda: f'{nm}: elementary forms {el}, terms have {roots_in(got)}')
    return got


# ------------------------------------------------------------------------------- the formulations

def base(n, periodic=False):
    cfg._clear_all()
    ph.config.set_embedding_space_dim(n)
    ma = ph.manifold(n, r'\mathcal{M}', 'M', periodic=periodic)
    me = ph.mesh(ma, r'\mathfrak{M}', 'Me')
    ph.space.set_mesh(me)
    return ma, me


def wf_waves(n, periodic):
    ma, me = base(n, periodic)
    S1 = new('Lambda', n, orientation='outer')
    S0 = new('Lambda', n - 1, orientation='outer')
    a = S1.make_form('a', 'a')
    b = S0.make_form('b', 'b')
    f = S1.make_form('f', 'f')
    k = ph.constant_scalar(r'\kappa', 'kappa')
    da, dbt = a.time_derivative(), b.time_derivative()
    d_b, cd_a = b.exterior_derivative(), a.codifferential()
    kcd = k * cd_a
    pde = ph.pde(['da = d_b - f', 'dbt + kcd - b = - cd_a'], dict(da=da, dbt=dbt, d_b=d_b, cd_a=cd_a, f=f, b=b, kcd=kcd))
    pde.unknowns = [a, b]
    if not periodic:
        pde.bc.partition(r'\Gamma_{1}', r'\Gamma_{2}')
        pde.bc.define_bc({r'\Gamma_{1}': ph.trace(ph.Hodge(a)), r'\Gamma_{2}': ph.trace(b)})
    wf = pde.test_with([S1, S0], sym_repr=['p', 'q'])
    return dict(wf=wf, ma=ma, n=n, periodic=periodic, forms=[a, b, f], k=k, unknowns=[a, b], bc=pde._bc)


def wf_ns(n, periodic):
    ma, me = base(n, periodic)
    if n == 2:
        sw, su, sp = new('Lambda', 0, orientation='outer'), new('Lambda', 1, orientation='outer'), new('Lambda', 2, orientation='outer')
    else:
        sw, su, sp = new('Lambda', 1, orientation='outer'), new('Lambda', 2, orientation='outer'), new('Lambda', 3, orientation='outer')
    w, u, p = sw.make_form('w', 'w'), su.make_form('u', 'u'), sp.make_form('p', 'p')
    g = su.make_form('g', 'g')
    wxu = w.cross_product(u)
    du, dw, cp, cu, divu = u.time_derivative(), ph.d(w), ph.codifferential(p), ph.codifferential(u), ph.d(u)
    k = ph.constant_scalar(r'\nu', 'nu')
    kdw = k * dw
    pde = ph.pde(['du + wxu + kdw - cp = g', 'w = cu', 'divu = 0'],
                 dict(du=du, wxu=wxu, kdw=kdw, cp=cp, g=g, w=w, cu=cu, divu=divu))
    pde.unknowns = [u, w, p]
    wf = pde.test_with([su, sw, sp])
    return dict(wf=wf, ma=ma, n=n, periodic=periodic, forms=[u, w, p, g], k=k, unknowns=[u, w, p], bc=None)


def wf_terms(n, periodic):
    """a formulation written directly in terms of pairings, with Hodge stars, sums and triple products"""
    ma, me = base(n, periodic)
    k = ph.constant_scalar(r'\mu', 'mu')
    I1, On1 = new('Lambda', 1, orientation='inner'), new('Lambda', n - 1, orientation='outer')
    On = new('Lambda', n, orientation='outer')
    a, b, c = [I1.make_form(x, x) for x in ('a', 'b', 'c')]
    g, h = [On1.make_form(x, x) for x in ('g', 'h')]
    q = On.make_form('q', 'q')
    t1 = ph.inner(ph.Hodge(g), b, factor=k)                    # (*g, b)
    t2 = ph.inner(a, ph.Hodge(h), factor=2)                    # (a, *h)
    t3 = ph.inner(ph.Hodge(g) + a, b)                          # not one to be turned into a pairing
    t4 = ph.dp(a, g)
    t5 = ph.inner(ph.codifferential(q), g, factor=0.3)
    s = g + h                                                  # exists, so that partial matches would be found
    t6 = ph.inner(ph.Hodge(s), b)
    t7 = ph.inner(ph.codifferential(q) + g, h)                 # a sum: cannot be integrated by parts
    wf = ph.wf([b, g], expression=['t1 - t2 = t3 + t4', '-t5 + t6 = -t7 - t5'],
               interpreter=dict(t1=t1, t2=t2, t3=t3, t4=t4, t5=t5, t6=t6, t7=t7))
    wf.unknowns = [a, h]
    return dict(wf=wf, ma=ma, n=n, periodic=periodic, forms=[a, b, c, g, h, q], k=k, unknowns=[a, h], bc=None)


def wf_convect(n, periodic):
    ma, me = base(2, periodic)
    V1, S = new('Lambda', 1, orientation='outer'), new('Lambda', 0, orientation='inner')
    u, c = V1.make_form('u', 'u'), S.make_form('c', 'c')
    k = ph.constant_scalar(r'\kappa', 'kappa')
    dc, uc = c.time_derivative(), u.convect(c)
    kuc = k * uc
    pde = ph.pde(['dc + uc = kuc + c'], dict(dc=dc, uc=uc, c=c, kuc=kuc))
    pde.unknowns = [c]
    wf = pde.test_with([S], sym_repr=['s'])
    return dict(wf=wf, ma=ma, n=2, periodic=periodic, forms=[u, c], k=k, unknowns=[c], bc=None)


WFS = {}
for _n in (2, 3):
    for _p in (False, True):
        WFS[f'waves{_n}{"p" if _p else ""}'] = (wf_waves, _n, _p)
    WFS[f'ns{_n}'] = (wf_ns, _n, False)
    WFS[f'terms{_n}'] = (wf_terms, _n, False)
WFS['ns2p'] = (wf_ns, 2, True)
WFS['convect'] = (wf_convect, 2, False)


# ------------------------------------------------------------------------------- the steps and the model

def replaced(st, i, j, k, signs_terms):
    """a term replaced by signed terms"""
    new_ = [[list(s) for s in eq] for eq in st]
    old = new_[i][j][k][0]
    new_[i][j][k:k + 1] = [(s if old == '+' else neg(s), v) for s, v in signs_terms]
    return new_


def places(st):
    for i, eq in enumerate(st):
        m = 0
        for j in range(2):
            for k in range(len(eq[j])):
                yield i, j, k, f'{i}-{m}'
                m += 1


MUST = 'must refuse'


def model_ibp(r, ctx, drop):
    kind, a, b, over, fac = r
    if kind == 'L2-inner-product' and a[0] == 'codifferential':
        x, y = V(a[1]), V(b)
        out = [('+', br(kind, x, ap('d', y), over, fac))]
        if not (ctx['periodic'] or drop):
            bd = ctx['ma'].boundary()._lin_repr
            out.append(('-', br('duality-pairing', ap('trace', ap('Hodge', x)), ap('trace', y), bd, fac)))
        return out
    if kind == 'L2-inner-product' and a[0] == 'convect' and a[1][0] == a[2][0] == b[0] == 'f':
        if not drop:
            return MUST
        val = {}
        for ka, ca in V(a[1]).items():
            for kb, cb in V(a[2]).items():
                val[('multi', kb, ka)] = ca * cb
        return [('-', br('duality-pairing', val, ap('d', V(b)), over, fac))]   # A and grad c differ in orientation
    return MUST


def model_dual(r, ctx):
    kind, a, b, over, fac = r
    if kind != 'L2-inner-product':
        return MUST
    if a[0] == 'Hodge':
        return [('+', br('duality-pairing', V(a[1]), V(b), over, fac))]
    if b[0] == 'Hodge':
        return [('+', br('duality-pairing', V(a), V(b[1]), over, fac))]
    return MUST


def model_triple(r, cur, tgt):
    """(A, BxC) and its permutations; antisymmetric in all three"""
    kind, a, b, over, fac = r
    lone_first = cur.index('x') > 3
    lone, other = (a, b) if lone_first else (b, a)
    if other[0] != 'cross_product':
        return MUST
    letters = [ch for ch in cur if ch.isalpha() and ch != 'x']
    lets = letters if lone_first else [letters[2], letters[0], letters[1]]
    m = dict(zip(lets, (lone, other[1], other[2])))
    tl = [ch for ch in tgt if ch.isalpha() and ch != 'x']
    t_first = tgt.index('x') > 3
    tlets = tl if t_first else [tl[2], tl[0], tl[1]]
    perm = [lets.index(x) for x in tlets]
    sign = '+' if perm in ([0, 1, 2], [1, 2, 0], [2, 0, 1]) else '-'
    l, p, q = (V(m[x]) for x in tlets)
    cross = {}
    for ka, ca in p.items():
        for kb, cb in q.items():
            cross[('cross_product', ka, kb)] = ca * cb
    return [(sign, br(kind, l, cross, over, fac) if t_first else br(kind, cross, l, over, fac))]


FORMATS = [('(A,BxC)', '(B,CxA)'), ('(A,BxC)', '(C,BxA)'), ('(BxC,A)', '(CxA,B)'), ('(BxC,A)', '(A,CxB)'), ('(BxC,A)', '(C,AxB)')]
DFORMATS = [tuple(x.replace(',', '|').replace('(', '<').replace(')', '>') for x in f) for f in FORMATS]


def val_of_form(f):
    return sem.form(f._lin_repr)


def steps(wf, st, ctx):
    """all the steps: name, function, expected structure | MUST, may it refuse"""
    k = ctx['k']
    half = {}
    for i in range(len(st)):
        yield f'switch_sign({i})', (lambda i=i: wf.derive.switch_sign(i)), \
            [[[(neg(s), v) for s, v in side] for side in eq] if m == i else eq for m, eq in enumerate(st)], False
    if len(st) > 1:
        yield 'switch_sign(all)', (lambda: wf.derive.switch_sign(list(range(len(st))))), \
            [[[(neg(s), v) for s, v in side] for side in eq] for eq in st], False
    yield f'switch_sign({len(st)})', (lambda: wf.derive.switch_sign(len(st))), MUST, False
    # move one term to the other side; reverse everything
    for i, eq in enumerate(st):
        nl, nr = len(eq[0]), len(eq[1])
        allt = [(0, x) for x in eq[0]] + [(1, x) for x in eq[1]]
        opts = []
        for m in range(nl + nr):
            left = [x for x in range(nl) if x != m] + ([m] if m >= nl else [])
            right = [x for x in range(nl, nl + nr) if x != m] + ([m] if m < nl else [])
            opts.append((left, right))
        if nl + nr:
            opts.append((list(range(nl + nr))[::-1], []))
        for left, right in opts:
            want = []
            for mm, e in enumerate(st):
                if mm != i:
                    want.append(e)
                else:
                    sd = [[], []]
                    for j, ids in enumerate((left, right)):
                        for x in ids:
                            side, (s, v) = allt[x]
                            sd[j].append((s if side == j else neg(s), v))
                    want.append(sd)
            txt = ','.join(map(str, left)) + '=' + ','.join(map(str, right))
            yield f'rearrange({i}:{txt})', (lambda i=i, txt=txt: wf.derive.rearrange({i: txt})), want, False
    for i, j, kk, idx in places(st):
        sign, term = wf[idx]
        r = read_term(term)
        yield f'delete({idx})', (lambda idx=idx: wf.derive.delete(idx)), replaced(st, i, j, kk, []), True
        x = ctx['pool'][(i + kk) % len(ctx['pool'])]
        y = ctx['pool'][(i + kk + 1) % len(ctx['pool'])]
        yield f'replace({idx},-x)', (lambda idx=idx, x=x: wf.derive.replace(idx, x, '-')), \
            replaced(st, i, j, kk, [('-', sem.term(x))]), True
        yield f'replace({idx},[y,-x,old])', (lambda idx=idx, x=x, y=y, t=term: wf.derive.replace(idx, [y, x, t], ['+', '-', '+'])), \
            replaced(st, i, j, kk, [('+', sem.term(y)), ('-', sem.term(x)), ('+', tval(r))]), True
        for drop in (False, True):
            m = model_ibp(r, ctx, drop)
            yield f'ibp({idx},{drop})', (lambda idx=idx, drop=drop: wf.derive.integration_by_parts(idx, drop_bi_term=drop)), \
                m if m == MUST else replaced(st, i, j, kk, m), True
        m = model_dual(r, ctx)
        yield f'dual({idx})', (lambda idx=idx: wf.derive.switch_to_duality_pairing(idx)), \
            m if m == MUST else replaced(st, i, j, kk, m), True
        for cur, tgt in (FORMATS if r[0] == 'L2-inner-product' else DFORMATS):
            m = model_triple(r, cur, tgt)
            yield f'triple({idx},{cur}->{tgt})', \
                (lambda idx=idx, c=cur, t=tgt: wf.derive.commutation_wrt_inner_and_x(idx, c, t)), \
                m if m == MUST else replaced(st, i, j, kk, m), True
        # split: the factors given are the complete factors of the new terms
        for pos, this in (('f0', term._f0), ('f1', term._f1)):
            cand = [f for f in ctx['forms'] if f.space == this.space][:2]
            if len(cand) < 2:
                continue
            u, v = cand
            for signs, factors in ((('+', '-'), None), (('-', '+'), [k, 2]), (('+',), [0.5])):
                into = [u, v][:len(signs)]
                fv = [r[4]] * len(into) if factors is None else [val_of_scalar(x) for x in factors]
                want = []
                for s, w_, fc in zip(signs, into, fv):
                    fw = val_of_form(w_)
                    want.append((s, br(r[0], fw, V(r[2]), r[3], fc) if pos == 'f0' else br(r[0], V(r[1]), fw, r[3], fc)))
                yield f'split({idx},{pos},{signs},{factors is None})', \
                    (lambda idx=idx, pos=pos, into=into, signs=signs, factors=factors:
                     wf.derive.split(idx, pos, into, list(signs), factors=factors)), \
                    replaced(st, i, j, kk, want), True
    yield 'bad index', (lambda: wf.derive.delete(f'{len(st)}-0')), MUST, False
    yield 'bad index 2', (lambda: wf.derive.integration_by_parts('0-99')), MUST, False


def val_of_scalar(x):
    return float(x) if isinstance(x, (int, float)) else sem.scalar(x._lin_repr)


def pool(ctx):
    """other terms on the same mesh"""
    out = []
    fs = ctx['forms']
    for a, b in itertools.combinations_with_replacement(fs, 2):
        if a.space == b.space:
            out.append(ph.inner(a, b, factor=ctx['k']))
            out.append(ph.inner(a, ph.time_derivative(b)))
    return out[:5]


def bfs(task, rec):
    fn, n, periodic = WFS[task['wf']]
    ctx = fn(n, periodic)
    ctx['pool'] = pool(ctx)
    wf0 = ctx['wf']
    st0 = structure(wf0)
    compare(rec, task['wf'], wf0, st0, ctx['unknowns'], wf0.test_forms)
    bc0 = wf0._bc
    rec.ok(bc0 is ctx['bc'], f'{task["wf"]}:bc', 'the boundary conditions are not handed to the weak formulation')
    frontier = [(wf0, st0, task['wf'])]
    seen = {key_of(st0)}
    rec.state(*key_of(st0))
    for d in range(task['depth']):
        nxt = []
        for wf, st, path in frontier:
            for c, (name, go, want, may) in enumerate(steps(wf, st, ctx)):
                if d == 0 and c % PARTS != task['part']:
                    continue
                nm = f'{path}.{name}'
                rec.step()
                try:
                    new_wf, err = go(), None
                except Exception as e:
                    new_wf, err = None, e
                op = name.split('(')[0]
                if want == MUST:
                    rec.outcome(f'{op}:refuse')
                    rec.ok(new_wf is None, f'{nm}:accepted', lambda: f'{nm}: accepted, giving {show(structure(new_wf))} from {show(st)}')
                    if new_wf is None:
                        continue_ok(rec, nm, wf, st, ctx)
                    continue
                if new_wf is None:
                    gone = {u._pure_lin_repr for u in ctx['unknowns']} - roots_in(want) if want else set()
                    empty = not any(side for eq in want for side in eq)
                    allowed = gone or empty or (op == 'triple') or (op == 'ibp' and 'convect' in repr(st))
                    rec.outcome(f'{op}:refuse-valid')
                    rec.ok(allowed, f'{nm}:refused', lambda: f'{nm}: refused with {err!r} on {show(st)}')
                    continue_ok(rec, nm, wf, st, ctx)
                    continue
                rec.outcome(f'{op}:accept')
                got = compare(rec, nm, new_wf, want, ctx['unknowns'], wf0.test_forms)
                continue_ok(rec, nm, wf, st, ctx)
                rec.ok(new_wf._bc is bc0, f'{nm}:bc', f'{nm}: lost the boundary conditions')
                if got is None:
                    continue
                if op in ('rearrange',):
                    for i in range(len(st)):
                        rec.ok(sem.same(eqv(st, i), eqv(got, i)), f'{nm}:equivalent', f'{nm}: equation {i} changed')
                key = key_of(got)
                if key not in seen:
                    seen.add(key)
                    rec.state(*key)
                    rec.trace()
                    if d + 1 < task['depth']:
                        nxt.append((new_wf, got, nm))
        frontier = nxt
    rec.sample(dict(start=task['wf'], depth=task['depth'], states=len(seen)))


def continue_ok(rec, nm, wf, st, ctx):
    """the source formulation is as it was"""
    now = structure(wf)
    rec.ok(key_of(now) == key_of(st), f'{nm}:source', lambda: f'{nm}: changed its source from {show(st)} to {show(now)}')


# ------------------------------------------------------------------------------- rearrangements

def small(nl, nr):
    ma, me = base(2)
    S = new('Lambda', 1, orientation='outer')
    fs = [S.make_form(x, x) for x in 'abcde'[:nl + nr]]
    q = S.make_form('q', 'q')
    terms = [ph.inner(f, q) for f in fs]
    signs = ['+-+--'[i] for i in range(nl + nr)]
    t = {0: (terms[:nl], terms[nl:]), 1: ([terms[0]], [])}
    s = {0: (signs[:nl], signs[nl:]), 1: (['+'], [])}
    wf = ph.wf([q, q], term_sign_dict=(t, s))
    wf.unknowns = [fs[0], fs[-1]]
    return wf, fs


def rearrange(task, rec):
    nl, nr = task['nl'], task['nr']
    n = nl + nr
    wf, fs = small(nl, nr)
    st = structure(wf)
    allt = [(0, x) for x in st[0][0]] + [(1, x) for x in st[0][1]]
    other = st[1]

    def want(left, right):
        sd = [[], []]
        for j, ids in enumerate((left, right)):
            for x in ids:
                side, (s, v) = allt[x]
                sd[j].append((s if side == j else neg(s), v))
        return [sd, other]

    for perm in itertools.permutations(range(n)):
        for cut in range(n + 1):
            left, right = list(perm[:cut]), list(perm[cut:])
            lt, rt = ','.join(map(str, left)), ','.join(map(str, right))
            forms = [('dict', lambda t=f'{lt}={rt}': wf.derive.rearrange({0: t})),
                     ('spaces', lambda t=f' {lt} = {rt} '.replace(',', ' , '): wf.derive.rearrange({0: t})),
                     ('list', lambda t=f'{lt}={rt}': wf.derive.rearrange([t, None])),
                     ('other eq', lambda t=f'{lt}={rt}': wf.derive.rearrange({0: t, 1: '0='}))]
            if right == sorted(right):
                forms += [('left only', lambda t=f'{lt}=': wf.derive.rearrange({0: t})), ('no sign', lambda t=lt: wf.derive.rearrange({0: t}))] if left else []
            if left == sorted(left) and right:
                forms += [('right only', lambda t=f'={rt}': wf.derive.rearrange({0: t}))]
            for how, go in forms:
                nm = f'{nl}+{nr}:{how}:{lt}={rt}'
                okk, w2 = rec.guard(nm, go)
                if okk:
                    rec.state(nl, nr, how, lt, rt)
                    w = want(left, right)
                    compare(rec, nm, w2, w, wf.unknowns, wf.test_forms)
                    rec.ok(sem.same(eqv(structure(w2), 0), eqv(st, 0)), f'{nm}:equivalent', nm)
                    rec.ok(key_of(structure(wf)) == key_of(st), f'{nm}:source', nm)
    # what is not a rearrangement must be refused
    bad = [f'{n}=', f'0,{n}=', f'{",".join(map(str, list(range(n)) + [0]))}=', f'{",".join(map(str, range(n)))}=0', '-1=', 'a=', '0=1=2', '0.5=', ',0=' if n > 9 else 'x']
    for t in bad:
        rec.raises(f'{nl}+{nr}:bad:{t}', lambda t=t: wf.derive.rearrange({0: t}))
    rec.raises(f'{nl}+{nr}:bad eq', lambda: wf.derive.rearrange({2: '0='}))
    rec.raises(f'{nl}+{nr}:bad list', lambda: wf.derive.rearrange(['0=']))
    for keep in ({}, {0: ''}, {0: None}, [None, None], {1: None, 0: ''}):
        okk, w2 = rec.guard(f'{nl}+{nr}:keep:{keep}', lambda: wf.derive.rearrange(keep))
        if okk:
            compare(rec, f'{nl}+{nr}:keep:{keep}', w2, st, wf.unknowns, wf.test_forms)


# ------------------------------------------------------------------------------- triple products

def triple(task, rec):
    n = task['n']
    kinds = [(k, o) for k in range(n + 1) for o in ('inner', 'outer')]
    ncases = 0
    for x in kinds:
        for y in kinds:
            for z in kinds:
                for op in ('L2', 'dp'):
                    for first in (True, False):
                        for fac in (False, True):
                            for order in ((0, 1), (1, 0)):
                                base(n)
                                sp = {}
                                fs = []
                                for m, kk in enumerate([(x, y)[order[0]], (x, y)[order[1]], z]):
                                    if kk not in sp:
                                        sp[kk] = new('Lambda', kk[0], orientation=kk[1])
                                    fs.append(sp[kk].make_form('abc'[m], 'abc'[m]))
                                a, b = fs[order[0]], fs[order[1]]
                                f = fs[2]
                                try:
                                    c = a.cross_product(b)
                                    kap = ph.constant_scalar(r'\kappa', 'kappa') if fac else None
                                    t = (ph.inner if op == 'L2' else ph.dp)(*((f, c) if first else (c, f)), factor=kap)
                                except Exception:
                                    continue
                                ncases += 1
                                one_triple(t, op, rec)
    rec.sample(dict(n=n, cases=ncases))
    rec.ok(ncases > 4, 'vacuous', f'{ncases} cases')


def one_triple(t, op, rec):
    letters = list(itertools.permutations('ABC'))
    shapes = [lambda p: f'({p[0]},{p[1]}x{p[2]})', lambda p: f'({p[1]}x{p[2]},{p[0]})']
    r = read_term(t)
    for p in letters:
        for q in letters:
            for sc in shapes:
                for sq in shapes:
                    cur, tgt = sc(p), sq(q)
                    if op == 'dp':
                        cur, tgt = [x.replace('(', '<').replace(')', '>').replace(',', '|') for x in (cur, tgt)]
                    m = model_triple(r, cur, tgt)
                    rec.step()
                    nm = f'{sem.show(tval(r))}:{cur}->{tgt}'
                    try:
                        nt, sg = t._commutation_wrt_inner_and_x(cur, tgt)
                    except Exception as e:
                        rec.outcome('refuse')
                        rec.ok(sem.same(sem.term(t), tval(r)), f'{nm}:source', nm)
                        continue
                    rec.outcome('accept')
                    rec.state(nm, t._f0.space._sym_repr, t._f1.space._sym_repr)
                    rec.ok(m != MUST, f'{nm}:accepted', nm)
                    if m != MUST:
                        sgn = 1.0 if sg == '+' else -1.0
                        w_ = sem.scale(m[0][1], 1.0 if m[0][0] == '+' else -1.0)
                        rec.ok(sem.same(sem.scale(sem.term(nt), sgn), w_), f'{nm}:value',
                               lambda: f'{nm}: {sg} {sem.show(sem.term(nt))}, expected {sem.show(w_)}')


# ------------------------------------------------------------------------------- equation texts

def meaning(text, names):
    """ordered signed names of both sides; None: malformed"""
    sides = []
    for side in text.replace(' ', '').split('='):
        out, sign, i, pending = [], '+', 0, False
        while i < len(side):
            ch = side[i]
            if ch in '+-':
                if ch == '-':
                    sign = neg(sign)
                pending = True
                i += 1
                continue
            j = i
            while j < len(side) and side[j] not in '+-':
                j += 1
            w = side[i:j]
            if w != '0':
                if w not in names:
                    return None
                out.append((sign, w))
            sign, pending = '+', False
            i = j
        if pending:
            return None
        sides.append(out)
    return sides if len(sides) == 2 else None


def texts(tier):
    toks = ['', '+', '-', ' - ', '--', '+-', '-+', ' - - ']
    heads = ['', '-', '+', '--', '- ']
    seps = [' + ', '-', '+', ' - ', '--', '+-', '-+', '- -', '+ -']
    for h in heads:
        for x in ('a', 'b', '0', 'ab'):
            yield h + x
            for s in seps:
                for y in ('a', 'b', 'zz'):
                    yield h + x + s + y
    for s in seps:
        for s2 in seps:
            for h in ('', '-'):
                yield h + 'a' + s + 'b' + s2 + 'ab'
    for x in ('a+', 'a-', 'a + b -', '-', '+', 'a b', 'a*b', '2a', ''):
        yield x


def expressions(task, rec):
    n = task['n']
    ma, me = base(n)
    S = new('Lambda', 1, orientation='outer')
    forms = {x: S.make_form(x, x) for x in ('a', 'b', 'ab')}
    q = S.make_form('q', 'q')
    terms = {x: ph.inner(f, q) for x, f in forms.items()}
    junk = dict(forms, n=3, s='a', q=q)
    rhs = ['0', 'b', '-b', 'a--b', '']
    for lt in texts(task['tier']):
        for rt in rhs:
            text = f'{lt} = {rt}'
            want = meaning(text, forms)
            for how, make, names in (('pde', lambda: ph.pde([text], junk), forms),
                                     ('pde-str', lambda: ph.pde(text, junk), forms),
                                     ('wf', lambda: ph.wf([q], expression=[text], interpreter=terms), terms)):
                rec.step()
                nm = f'{how}:{text!r}'
                try:
                    e = make()
                except Exception as ex:
                    rec.outcome(f'{how}:refuse')
                    if want is not None and any(want) and '--' not in text.replace(' ', '') and '-+' not in text.replace(' ', ''):
                        rec.bad(f'{nm}:refused', f'{nm}: refused with {ex!r}')
                    continue
                rec.outcome(f'{how}:accept')
                rec.state(how, text)
                got = [[(e._sign_dict[0][j][k], [x for x, f in names.items() if f is t][0]) for k, t in enumerate(e._term_dict[0][j])]
                       for j in range(2)]
                rec.ok(want is not None, f'{nm}:accepted', lambda: f'{nm}: accepted as {got}')
                if want is not None:
                    rec.ok(got == want, f'{nm}:terms', lambda: f'{nm}: read as {got}, it says {want}')
                    idx = [(s, x) for side in want for s, x in side]
                    rec.ok([(e[i][-2], [x for x, f in names.items() if f is e[i][-1]][0]) for i in e] == idx and
                           list(e) == [f'0-{i}' for i in range(len(idx))], f'{nm}:indices', nm)
    # several equations, nothing leaks from one into another
    for t1, t2 in itertools.product(['a = b', '-a = 0', 'a+b = ab'], repeat=2):
        ok_, e = rec.guard(f'two:{t1}:{t2}', lambda: ph.pde([t1, t2], junk))
        if ok_:
            for i, t in enumerate((t1, t2)):
                got = [[(e._sign_dict[i][j][k], [x for x, f in forms.items() if f is u][0]) for k, u in enumerate(e._term_dict[i][j])] for j in range(2)]
                rec.ok(got == meaning(t, forms), f'two:{t1}:{t2}:{i}', lambda: f'{got}')
    for bad in ([''], ['a'], ['a=b=a'], [3], []):
        if bad:
            rec.raises(f'bad:{bad}', lambda: ph.pde(bad, junk))
    # both sides of an equation must live in one space
    S2 = new('Lambda', 0, orientation='outer')
    c = S2.make_form('c', 'c')
    rec.raises('mixed spaces', lambda: ph.pde(['a = c'], dict(a=forms['a'], c=c)))
    S3 = new('Lambda', 1, orientation='inner')
    c = S3.make_form('g', 'g')
    rec.raises('mixed orientation', lambda: ph.pde(['a = g'], dict(a=forms['a'], g=c)))


# ------------------------------------------------------------------------------- testing an equation

NT = [0]


def test(task, rec):
    n = task['n']
    ma, me = base(n)
    k = ph.constant_scalar(r'\kappa', 'kappa')
    spaces = [new('Lambda', m, orientation=o) for m in range(n + 1) for o in ('inner', 'outer')]
    for s in spaces:
        tag = f'{s.k}{s.orientation[0]}'
        a, b = s.make_form(f'a_{{{tag}}}', f'a{tag}'), s.make_form(f'b_{{{tag}}}', f'b{tag}')
        srcs = [a, b]
        if s.k > 0:
            lo = [x for x in spaces if x.k == s.k - 1 and x.orientation == s.orientation][0].make_form(f'l_{{{tag}}}', f'l{tag}')
            srcs.append(ph.d(lo))
        if s.k < n:
            hi = [x for x in spaces if x.k == s.k + 1 and x.orientation == s.orientation][0].make_form(f'h_{{{tag}}}', f'h{tag}')
            srcs.append(ph.codifferential(hi))
        srcs.append(ph.time_derivative(a))
        comp = a + b                      # exists, so that partial matches would be found
        comp2 = ph.time_derivative(a) + b
        makers = [lambda f=f: f for f in srcs]
        for f in srcs:
            makers += [lambda f=f: 2 * f, lambda f=f: k * f, lambda f=f: f / 2, lambda f=f: f / k, lambda f=f: 0.3 * f]
        makers += [lambda: comp, lambda: a - b, lambda: 2 * comp, lambda: k * comp, lambda: 2 * a + b, lambda: k * a + b,
                   lambda: k * a - b, lambda: comp / 2, lambda: comp / k, lambda: a + 2 * b, lambda: 2 * a + 2 * b,
                   lambda: 2 * (k * a), lambda: k * (2 * a + b), lambda: comp2, lambda: k * comp2,
                   lambda: k * ph.time_derivative(a) + b, lambda: b + k * a]
        pool_ = []
        for mk in makers:
            try:
                pool_.append(mk())
            except Exception:
                pool_.append(None)
        for m, f in enumerate(pool_):
            if f is None:
                continue
            for sg in '+-':
                nm = f'{tag}:{sg}{sem.show(sem.form(f._lin_repr))}#{m}'
                rec.step()
                try:
                    pde = ph.pde([f'{sg} x = a' if sg == '-' else 'a = x'], dict(x=f, a=a))
                    pde.unknowns = [a]
                    NT[0] += 1
                    wf = pde.test_with([s], sym_repr=[f't_{{{NT[0]}}}'])
                except Exception as e:
                    rec.outcome('refuse')
                    simple = f in srcs or m < len(srcs) * 6 and (m - len(srcs)) % 5 in (0, 1, 4)
                    rec.ok(not simple, f'{nm}:refused', f'{nm}: refused {e!r}')
                    continue
                rec.outcome('accept')
                rec.state(nm)
                q = wf.test_forms[0]
                rec.ok(q.space == s and q.is_root() and q not in (a, b), f'{nm}:test form', nm)
                over = me.manifold._lin_repr
                qv = sem.form(q._lin_repr)
                xv = sem.bracket('L2-inner-product', sem.form(f._lin_repr), qv, over)
                av = sem.bracket('L2-inner-product', sem.form(a._lin_repr), qv, over)
                want = [[[('-', xv)], [('+', av)]]] if sg == '-' else [[[('+', av)], [('+', xv)]]]
                compare(rec, nm, wf, want, [a], [q])


# ------------------------------------------------------------------------------- merging formulations

def merge(task, rec):
    n = task['n']
    pieces = []
    ma, me = base(n)
    S = [new('Lambda', m, orientation='outer') for m in range(n + 1)]
    f = [s.make_form(f'x_{i}', f'x{i}') for i, s in enumerate(S)]
    g = [s.make_form(f'y_{i}', f'y{i}') for i, s in enumerate(S)]
    wfs = []
    for i in range(n):
        df, cd = ph.d(f[i]), ph.codifferential(f[i + 1])
        p1 = ph.pde(['cd = x', '-y = x + y'], dict(cd=cd, x=f[i], y=g[i]))
        p1.unknowns = [f[i], g[i]]
        wfs.append(p1.test_with([S[i], S[i]], sym_repr=[f't_{3 * i}', f't_{3 * i + 1}']))
        p2 = ph.pde(['df - x = 0'], dict(df=df, x=f[i + 1]))
        p2.unknowns = [f[i + 1]]
        wfs.append(p2.test_with([S[i + 1]], sym_repr=[f't_{3 * i + 2}']))
    sts = [structure(w) for w in wfs]
    for r in range(1, 4):
        for combo in itertools.permutations(range(len(wfs)), r):
            nm = f'merge{combo}'
            ok_, w = rec.guard(nm, lambda: ph.wf(None, wfs=[wfs[c] for c in combo]))
            if not ok_:
                continue
            rec.state(nm)
            want = [eq for c in combo for eq in sts[c]]
            tests = [t for c in combo for t in wfs[c].test_forms]
            compare(rec, nm, w, want, None, tests)
            us = [u for c in combo for u in wfs[c].unknowns]
            rec.guard(nm + ':unknowns', lambda: setattr(w, 'unknowns', us))
            rec.raises(nm + ':unknowns again', lambda: setattr(w, 'unknowns', us))
            ok_, w2 = rec.guard(nm + ':switch', lambda: w.derive.switch_sign(0))
            if ok_:
                compare(rec, nm + ':switch', w2, [[[(neg(s), v) for s, v in side] for side in want[0]]] + want[1:], us, tests)
            for c in combo:
                rec.ok(key_of(structure(wfs[c])) == key_of(sts[c]), f'{nm}:source', nm)
    rec.sample(dict(pieces=len(wfs)))
