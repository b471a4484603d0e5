import boot          # noqa
import itertools
import numpy as np
import phyem as ph
import mp
import problems
import zoo
from meshes import M
from impl import dense
from checks.p14 import Fields, of_d

ID = 'P11'
LEVEL = 'model_checking'
RULE = ('all linear terms of two forms which the library lets a user write (all spaces of both orientations in 2 and 3 dimensions, '
        'all patterns with and without derivatives, both orders of the factors, known, unknown and tested form, both sides of the '
        'equation, both signs, all kinds of factors); all ordered pairs of terms in all equations of a three-field system with all '
        'sides and signs, all orders of the unknowns and of the equations, all ways to move terms between the sides; and '
        'evolution equations with all schemes over the instants of a step: the blocks of the matrix and of the vector of the '
        'system of the formulation, in both implementations, against the sums of the terms computed from mass and incidence '
        'matrices and the integral of the fields')
TIMEOUT = {'quick': 400, 'thorough': 3000}
T = 0.5
TOL = 1e-11

HTT = [M('mix', 'crazy', dict(element_layout=[[1, 1, 2], 1], c=0.0, periodic=False)),
       M('c21', 'crazy', dict(element_layout=[2, 1], c=0.1, periodic=False))]
PY = [mp.D('pmix', 'crazy', [[1, 1, 2], 1], c=0.0, periodic=False, bounds=[[0, 1], [0, 1]]),
      mp.D('pc21', 'crazy', [2, 1], c=0.1, periodic=False, bounds=[[0, 1], [0, 1]])]
HTT3 = [M('h3', 'crazy', dict(element_layout=[[1, 2], 1, 1], c=0.0, periodic=False), dim=3)]
PY3 = [mp.D('p3', 'crazy', [[1, 2], 1, 1], dim=3, c=0.0, periodic=False, bounds=[[0, 1]] * 3)]
FACTORS = {'': lambda: None, 'number': lambda: 0.75, 'scalar': lambda: ph.constant_scalar(2.5),
           'ratio': lambda: 1 / ph.constant_scalar(8), 'negative': lambda: -0.5}
VALUE = {'': 1.0, 'number': 0.75, 'scalar': 2.5, 'ratio': 0.125, 'negative': -0.5}


def names(dim):
    return [f'{o}{k}' for o in 'io' for k in range(dim + 1)]


def shift(s, n, dim):
    k = int(s[1]) + n
    return f'{s[0]}{k}' if 0 <= k <= dim else None


def dual(s, dim):
    return None if s is None else ('o' if s[0] == 'i' else 'i') + str(dim - int(s[1]))


def tasks(tier):
    L = []
    for d in HTT + PY + HTT3 + PY3:
        for N in (1, 2) if d['dim'] == 2 else (1,):
            if tier == 'quick' and d['name'] in ('c21', 'pc21') and N == 2:
                continue
            L += [dict(kind='two', desc=d, N=N, test=s) for s in names(d['dim'])]
    for d in HTT[:1] + PY[:1]:
        for o in 'oi':
            for e in range(3):
                for r in ('pairs', 'orders') + (('moved',) if e == 1 or tier != 'quick' else ()):
                    L += [dict(kind='system', desc=d, N=1, orientation=o, eq=e, what=r, first=i) for i in range(len(POOL[e]))]
        for s in range(len(SCHEMES)):
            L.append(dict(kind='evolution', desc=d, N=1, scheme=s))
    return L


def run(task, rec):
    globals()[task['kind']](task, rec)


class Mat:
    """local matrices of terms of two forms: rows of the tested form, columns of the other"""

    def __init__(self, P, Fi):
        self.P, self.Fi = P, Fi
        self.cache = {}

    def of(self, f, what):
        k = (what, f.space.abstract._pure_lin_repr if hasattr(f.space, 'abstract') else id(f.space))
        if k not in self.cache:
            if what == 'M':
                m = f.space.mass_matrix(f.degree)[0] if self.P.htt else f.matrix.mass
            else:
                m = f.space.incidence_matrix(f.degree)[0] if self.P.htt else f.matrix.incidence
            self.cache[k] = {e: dense(m[e]) for e in self.Fi.elements}
        return self.cache[k]

    def __call__(self, pat, ft, fa, spaces, st, sa):
        """spaces: {name: an implemented form of it}"""
        dim = self.P.dim
        out = {}
        for e in self.Fi.elements:
            if pat == 'rr':
                m = self.of(ft, 'M')[e]
            elif pat == 'dr':
                m = self.of(ft, 'M')[e] @ self.of(fa, 'E')[e]
            elif pat == 'rd':
                m = self.of(ft, 'E')[e].T @ self.of(fa, 'M')[e]
            elif pat == 'dd':
                g = spaces[shift(st, 1, dim)]
                E = self.of(ft, 'E')[e]
                m = E.T @ self.of(g, 'M')[e] @ self.of(fa, 'E')[e]
            else:
                bt, ba = self.Fi.basis(ft, st)[e], self.Fi.basis(fa, sa)[e]
                if pat == 'pd':
                    ba = of_d(self.Fi, fa, sa, e)
                if pat == 'p_d':
                    bt = of_d(self.Fi, ft, st, e)
                w = self.Fi.w * self.Fi.jac(e)
                m = sum(np.einsum('q,qi,qj->ij', w, x, y) for x, y in zip(bt, ba))
            out[e] = m
        return out


PATS = {'rr': 0, 'dr': -1, 'rd': 1, 'dd': 0, 'p': 0, 'pd': -1, 'p_d': 1}


def other_space(pat, st, dim):
    """space of the other form"""
    if pat == 'p':
        return dual(st, dim)
    if pat == 'pd':
        return shift(dual(st, dim), -1, dim)
    if pat == 'p_d':
        return dual(shift(st, 1, dim), dim) if int(st[1]) < dim else None
    return shift(st, PATS[pat], dim)


def make(pat, a, t, factor=None, swap=False):
    d = lambda f: f.exterior_derivative()     # noqa
    x = d(a) if pat in ('dr', 'dd', 'pd') else a
    y = d(t) if pat in ('rd', 'dd', 'p_d') else t
    if swap:
        x, y = y, x
    return (ph.dp if pat[0] == 'p' else ph.inner)(x, y, factor=factor)


REFUSE = (NotImplementedError, AssertionError)


def fill(P, Fi, rng, put=True):
    """random values for all forms"""
    v = {}
    for k, f in P.form.items():
        x = rng.standard_normal(max(int(g.max()) for g in Fi.gm(f).values()) + 1)
        v[k] = {e: x[Fi.gm(f)[e]] for e in Fi.elements}
        if put:
            f[T].cochain = v[k] if P.htt else np.array([v[k][e] for e in Fi.elements])
    return v


def two(task, rec):
    """(c, t) +- factor T(a, t) = (g, t), with a the unknown c, another unknown with (a, t2) = (ga, t2), or known"""
    d, N, st = task['desc'], task['N'], task['test']
    dim = d['dim']
    made = []

    def define(A, finite):
        SP = zoo.spaces(A)
        F = {s: {x: SP[s].make_form(f'{x}_{{{s}}}', f'{x} {s}') for x in ('c', 'g', 'a', 'ga')} for s in SP}
        things, n = {}, 0
        for pat, swap, role, side, sign, fac in itertools.product(PATS, (False, True), ('same', 'other', 'known'), ('left', 'right'), '+-',
                                                                  FACTORS):
            sa = other_space(pat, st, dim)
            if sa is None or role == 'same' and sa != st:
                continue
            n += 1
            rec.state(d['name'], N, st, pat, swap, role, side, sign, fac)
            c, g, a, ga = F[st]['c'], F[st]['g'], F[sa]['a'], F[sa]['ga']
            if role == 'same':
                a = c
            pde = ph.pde(['c = g'] + (['a = ga'] if role == 'other' else []), dict(c=c, g=g, **(dict(a=a, ga=ga) if role == 'other' else {})))
            pde.unknowns = [c] + ([a] if role == 'other' else [])
            wf = pde.test_with([SP[st]] + ([SP[sa]] if role == 'other' else []), sym_repr=[rf't^{{{i}}}_{{{n}}}' for i in range(1 + (role == 'other'))])
            t = wf.test_forms[0]
            try:
                term = make(pat, a, t, FACTORS[fac](), swap)
                rest = ph.inner(c if side == 'left' else g, t)
                w = wf.derive.replace('0-0' if side == 'left' else '0-1', [term, rest], [sign, '+'])
                finite()
                things[f's{n}'] = w.mp().ls()
            except Exception:
                rec.outcome('refused: formulation')
                continue
            made.append((n, pat, swap, role, side, sign, fac, sa))
        for s in F:
            things.update({f'{x}{s}': f for x, f in F[s].items()})
        finite()
        return things
    P = problems.build(d, N, define)
    bent = bool(d['kw'].get('c'))
    Fi = Fields(P, N + 3 if not bent else 2 * N + 2)
    v = fill(P, Fi, np.random.default_rng(3))
    mat = Mat(P, Fi)
    spaces = {s: P.form['c' + s] for s in names(dim)}
    for n, pat, swap, role, side, sign, fac, sa in made:
        key = f"{d['name']}:N{N}:{st}:{pat}{':swapped' if swap else ''}:{role}:{side}{sign}:{fac or 'plain'}"
        rec.trace()
        try:
            s = P.obj[f's{n}'].apply()(T)
            A = {e: dense(s.A[e]) for e in Fi.elements}
            b = {e: np.asarray(s.b[e]) for e in Fi.elements}
        except REFUSE:
            rec.outcome('refused: implementation')
            continue
        except Exception as e:
            if 'MsePyWedgeMatrixLambda' in repr(e):
                rec.outcome('refused: implementation')       # pairings of msepy exist for one pair of spaces only
                continue
            rec.bad(key + ':raise', repr(e))
            continue
        rec.outcome(pat + ' ' + role)
        rec.step()
        ft, fa = P.form['c' + st], P.form[('c' if role == 'same' else 'a') + sa]
        if bent and pat[0] == 'p':
            rec.outcome('curved pairing')      # a quadrature of a rational function of its own kind
            continue
        m = mat(pat, ft, fa, spaces, st, sa)
        for e in Fi.elements:
            x = VALUE[fac] * (1 if sign == '+' else -1) * (1 if side == 'left' else -1) * m[e]
            Mt = mat.of(ft, 'M')[e]
            wb = Mt @ v['g' + st][e]
            if role == 'other':
                Ma = mat.of(fa, 'M')[e]
                WA = np.block([[Mt, x], [np.zeros((len(Ma), len(Mt))), Ma]])
                wb = np.concatenate([wb, Ma @ v['ga' + sa][e]])
            elif role == 'same':
                WA = Mt + x
            else:
                WA = Mt
                wb = wb - x @ v['a' + sa][e]
            rec.close(A[e], WA, TOL * 10, key + ':A', f'matrix of element {e}')
            rec.close(b[e], wb, TOL * 10, key + ':b', f'vector of element {e}')


# ------------------------------------------------------------------------------- three equations

# terms of equation i: (pattern, form); forms in capitals are known
POOL = [[('rr', 'w'), ('rd', 'u'), ('dd', 'w'), ('rr', 'W'), ('rd', 'U')],
        [('rr', 'u'), ('dr', 'w'), ('rd', 'p'), ('dd', 'u'), ('rr', 'U'), ('dr', 'W'), ('rd', 'P')],
        [('rr', 'p'), ('dr', 'u'), ('rr', 'P'), ('dr', 'U')]]
ORDER = {'w': 0, 'u': 1, 'p': 2}


def system(task, rec):
    """the equation i of (w, s) + (p, ..) .. gets two terms"""
    d, N, o, ei, what = task['desc'], task['N'], task['orientation'], task['eq'], task['what']
    made = []

    def define(A, finite):
        S = {k: A.space(i, dict(i='inner', o='outer')[o]) for i, k in enumerate('wup')}
        F = {k: S[k].make_form(k, k) for k in 'wup'}
        F.update({k.upper(): S[k].make_form(k.upper(), k + ' known') for k in 'wup'})
        F.update({'r' + k: S[k].make_form('r_' + k, 'right ' + k) for k in 'wup'})
        things, n = {}, 0
        first = POOL[ei][task['first']]
        if what == 'orders':
            confs = [((first,), (x,), (y,), uo, to) for x in (0, 1) for y in '+-'
                     for uo in itertools.permutations('wup') for to in itertools.permutations('wup')]
        else:
            confs = [((first, q), sides, signs, ('w', 'u', 'p'), ('w', 'u', 'p')) for q in POOL[ei]
                     for sides in itertools.product((0, 1), repeat=2) for signs in (itertools.product('+-', repeat=2) if what == 'pairs' else ['+-'])]
        for terms, sides, signs, uo, to in confs:
            moves = [None] if what != 'moved' else MOVES
            for mv in moves:
                n += 1
                rec.state(d['name'], o, ei, what, terms, sides, signs, uo, to, mv)
                pde = ph.pde([f'{k} = r{k}' for k in to], {k: F[k] for k in list('wup') + ['rw', 'ru', 'rp']})
                pde.unknowns = [F[k] for k in uo]
                wf = pde.test_with([S[k] for k in to], sym_repr=[rf't^{{{k}}}_{{{n}}}' for k in to])
                row = to.index('wup'[ei])
                test = dict(zip(to, wf.test_forms))
                t = test['wup'[ei]]
                lhs, rhs = [(ph.inner(F['wup'[ei]], t), '+')], [(ph.inner(F['r' + 'wup'[ei]], t), '+')]
                for (pat, f), sd, sg in zip(terms, sides, signs):
                    (lhs, rhs)[sd].append((make(pat, F[f], t, 0.75 if sd else None), sg))
                try:
                    wf = wf.derive.replace(f'{row}-0', [x for x, _ in lhs], [y for _, y in lhs])
                    wf = wf.derive.replace(f'{row}-{len(lhs)}', [x for x, _ in rhs], [y for _, y in rhs])
                    if mv is not None:
                        wf = mv_apply(wf, row, len(lhs), len(rhs), mv)
                    finite()
                    things[f's{n}'] = wf.mp().ls()
                except Exception as e:
                    left = [f for (pat, f), sd in zip(terms, sides) if sd == 0 and f.isupper()]
                    if mv is None and not left:
                        rec.bad(f'{d["name"]}:{o}:{ei}:{terms}:{sides}:{signs}:refused', repr(e))
                    rec.outcome('refused: known terms on the left' if left else 'refused')
                    continue
                made.append((n, terms, sides, signs, uo, to, mv))
        things.update(F)
        finite()
        return things
    P = problems.build(d, N, define)
    if not made:
        return
    Fi = Fields(P, N + 3)
    v = fill(P, Fi, np.random.default_rng(4))
    mat = Mat(P, Fi)
    sp = {f'{o}{i}': P.form[k] for i, k in enumerate('wup')}
    size = {k: len(mat.of(P.form[k], 'M')[Fi.elements[0]]) for k in 'wup'}
    K = 'wup'[ei]
    for n, terms, sides, signs, uo, to, mv in made:
        key = f"{d['name']}:{o}:{ei}:{terms}:{sides}:{signs}:{''.join(uo)}:{''.join(to)}:{mv}"
        rec.trace()
        s = P.obj[f's{n}'].apply()(T)
        cols = dict(zip(uo, np.cumsum([0] + [size[k] for k in uo])))
        rows = dict(zip(to, np.cumsum([0] + [size[k] for k in to])))
        for e in Fi.elements:
            n_ = sum(size.values())
            A, b = np.zeros((n_, n_)), np.zeros(n_)
            for k in 'wup':
                m = mat.of(P.form[k], 'M')[e]
                A[rows[k]:rows[k] + size[k], cols[k]:cols[k] + size[k]] += m
                b[rows[k]:rows[k] + size[k]] += m @ v['r' + k][e]
            r = slice(rows[K], rows[K] + size[K])
            for (pat, f), sd, sg in zip(terms, sides, signs):
                m = mat(pat, P.form[K], P.form[f.lower()], sp, f'{o}{ei}', f'{o}{ORDER[f.lower()]}')[e]
                m = m * (0.75 if sd else 1) * (1 if sg == '+' else -1) * (-1 if sd else 1)
                if f.isupper():
                    b[r] -= m @ v[f][e]
                else:
                    A[r, cols[f]:cols[f] + size[f]] += m
            if mv == 'switch':     # the same equation, times -1
                A[r] *= -1
                b[r] *= -1
            rec.close(dense(s.A[e]), A, TOL, key + ':A', f'matrix of element {e}')
            rec.close(np.asarray(s.b[e]), b, TOL, key + ':b', f'vector of element {e}')
        rec.step()
    rec.outcome(what)


MOVES = ('switch', 'swap', 'reverse', 'all left', 'known right')


def mv_apply(wf, row, nl, nr, mv):
    """rearrangements which keep the equation; the last one brings it to the form unknowns = known"""
    L = list(range(nl + nr))
    if mv == 'switch':
        wf = wf.derive.switch_sign(row)
        return wf
    if mv == 'swap':       # the terms of the two sides are exchanged and brought back
        t = f"{','.join(map(str, L[nl:]))} = {','.join(map(str, L[:nl]))}"
        wf = wf.derive.rearrange({row: t})
        L = list(range(nl + nr))
        return wf.derive.rearrange({row: f"{','.join(map(str, L[nr:]))} = {','.join(map(str, L[:nr]))}"})
    if mv == 'reverse':
        return wf.derive.rearrange({row: f"{','.join(map(str, L[:nl][::-1]))} = {','.join(map(str, L[nl:][::-1]))}"})
    known = [i for i in L if not is_unknown(wf, row, i)]
    unknown = [i for i in L if i not in known]
    if mv == 'all left':   # of the unknowns, in reverse order, known ones to the right
        return wf.derive.rearrange({row: f"{','.join(map(str, unknown[::-1]))} = {','.join(map(str, known[::-1]))}"})
    return wf.derive.rearrange({row: f"{','.join(map(str, unknown))} = {','.join(map(str, known))}"})


def is_unknown(wf, row, i):
    sign, term = wf[f'{row}-{i}']
    return any(u in (term._f0, term._f1) or u.exterior_derivative()._sym_repr in (term._f0._sym_repr, term._f1._sym_repr)
               if int(u.space.k) < 2 else u in (term._f0, term._f1) for u in wf.unknowns)


# ------------------------------------------------------------------------------- evolution

# how the terms of  (dt u, v) + (d w, v) - (p, d v) = (f, v), (w, s) - (u, ds) = (g, s), (du, q) + (p, q) = (h, q) are taken in a
# step k-1 -> k: weights of the instants k-1, k for every term
SCHEMES = [dict(u=(a, b), w=(c, e), p=(f, g)) for (a, b), (c, e), (f, g) in
           itertools.product([(0, 1), (.5, .5), (1, 0)], [(0, 1), (.5, .5), (1, 0)], [(0, 1), (.5, .5)])]


def evolution(task, rec):
    from phyem.src.time_sequence import AbstractTimeSequence
    d, N, sc = task['desc'], task['N'], SCHEMES[task['scheme']]
    TSQ = AbstractTimeSequence()
    expected = []

    def define(A, finite):
        S = {k: A.space(i, 'outer') for i, k in enumerate('wup')}
        F = {k: S[k].make_form(k, k) for k in 'wup'}
        F.update({x: S[k].make_form(x, x + ' given') for x, k in (('f', 'u'), ('g', 'w'), ('h', 'p'))})
        D = lambda x: x.exterior_derivative()      # noqa
        u, w, p, f, g, h = (F[k] for k in 'uwpfgh')
        pde = ph.pde(['u = f', 'w = g', 'p = h'], F)
        pde.unknowns = [u, w, p]
        wf = pde.test_with([S['u'], S['w'], S['p']], sym_repr=['v', 's', 'q'])
        v, s_, q = wf.test_forms
        # equation: [(side, sign, term, pattern, form, factor, instants or None)]
        E = [[(0, '+', ph.inner(u.time_derivative(), v), 'dt', 'u', 1, None),
              (0, '+', ph.inner(D(w), v, factor=0.25), 'dr', 'w', 0.25, sc['w']),
              (0, '-', ph.inner(p, D(v)), 'rd', 'p', 1, sc['p']),
              (0, '-', ph.inner(u, v, factor=0.5), 'rr', 'u', 0.5, sc['u']),
              (1, '+', ph.inner(f, v), 'rr', 'f', 1, (.5, .5))],
             [(0, '+', ph.inner(w, s_), 'rr', 'w', 1, (0, 1)), (0, '-', ph.inner(u, D(s_)), 'rd', 'u', 1, sc['u']),
              (1, '-', ph.inner(g, s_, factor=3.), 'rr', 'g', 3, (0, 1))],
             [(0, '+', ph.inner(D(u), q), 'dr', 'u', 1, (0, 1)), (0, '+', ph.inner(p, q), 'rr', 'p', 1, sc['p']),
              (1, '+', ph.inner(h, q), 'rr', 'h', 1, (1, 0))]]
        expected.extend(E)
        for i, eq in enumerate(E):
            wf = wf.derive.replace(f'{i}-0', [x[2] for x in eq if x[0] == 0], [x[1] for x in eq if x[0] == 0])
            wf = wf.derive.replace(f'{i}-{len([x for x in eq if x[0] == 0])}', [x[2] for x in eq if x[0]], [x[1] for x in eq if x[0]])
        td = wf.td
        td.set_time_sequence(TSQ)
        td.define_abstract_time_instants('k-1', 'k')
        for i, eq in enumerate(E):
            for j, (_, _, _, pat, k, _, wt) in enumerate(eq):
                if pat == 'dt':
                    td.differentiate(f'{i}-{j}', 'k-1', 'k')
                else:
                    td.average(f'{i}-{j}', F[k], [x for x, y in zip(('k-1', 'k'), wt) if y])
        ts, dt = TSQ, TSQ.make_time_interval('k-1', 'k')
        wf = td()
        wf.unknowns = [u @ ts['k'], w @ ts['k'], p @ ts['k']]
        for i, eq in enumerate(E):
            kind = []
            for j in range(len(eq) - 1, -1, -1):
                _, _, _, pat, k, fac, wt = eq[j]
                new = [k in 'uwp']
                if pat == 'dt':
                    wf = wf.derive.split(f'{i}-{j}', 'f0', [u @ ts['k'], u @ ts['k-1']], ['+', '-'], factors=[1 / dt, 1 / dt])
                    new = [True, False]
                elif wt == (.5, .5):
                    a = {'dr': lambda x: x.exterior_derivative()}.get(pat, lambda x: x)
                    wf = wf.derive.split(f'{i}-{j}', 'f0', [a(F[k]) @ ts['k'] if pat != 'dr' else a(F[k] @ ts['k']),
                                                            a(F[k]) @ ts['k-1'] if pat != 'dr' else a(F[k] @ ts['k-1'])],
                                         ['+', '+'], factors=[fac / 2, fac / 2])
                    new = [k in 'uwp', False]
                elif wt == (1, 0):
                    new = [False]
                kind = new + kind
            un = [str(x) for x, y in enumerate(kind) if y]
            kn = [str(x) for x, y in enumerate(kind) if not y]
            wf = wf.derive.rearrange({i: ','.join(un) + ' = ' + ','.join(kn)})
        finite()
        return dict(F, ls=wf.mp().ls())
    P = problems.build(d, N, define)
    Fi = Fields(P, N + 3)
    mat = Mat(P, Fi)
    sp = {f'o{i}': P.form[k] for i, k in enumerate('wup')}
    t0, h, steps = (0.3, 0.7, 3)
    TSQ.specify('constant', [t0, t0 + steps * h, steps], 1)
    dyn = P.obj['ls'].apply()
    of = dict(f='u', g='w', h='p')
    order = 'uwp'
    size = {k: len(mat.of(P.form[k], 'M')[Fi.elements[0]]) for k in order}
    off = dict(zip(order, np.cumsum([0] + [size[k] for k in order])))
    at = [TSQ['k'](k=n)() for n in range(steps + 1)]
    vals = [fill(P, Fi, np.random.default_rng(n), False) for n in range(steps + 1)]
    for k in range(1, steps + 1):
        rec.state(d['name'], task['scheme'], k)
        for n in (k - 1, k):       # the implementation keeps a few instants only
            for x, f in P.form.items():
                v = vals[n][x]
                f[at[n]].cochain = v if P.htt else np.array([v[e] for e in Fi.elements])
        rec.trace()
        s = dyn(k=k)
        for e in Fi.elements:
            n_ = sum(size.values())
            A, b = np.zeros((n_, n_)), np.zeros(n_)
            for i, eq in enumerate(expected):
                K = order[i]
                r = slice(off[K], off[K] + size[K])
                for side, sign, _, pat, x, fac, wt in eq:
                    y = of.get(x, x)
                    wt_, pt = ((-1 / h, 1 / h), 'rr') if pat == 'dt' else (wt, pat)
                    m = mat(pt, P.form[K], P.form[y], sp, f'o{ORDER[K]}', f'o{ORDER[y]}')[e]
                    m = m * fac * (1 if sign == '+' else -1) * (-1 if side else 1)
                    if x in order:
                        A[r, off[x]:off[x] + size[x]] += wt_[1] * m
                        b[r] -= wt_[0] * m @ vals[k - 1][x][e]
                    else:
                        b[r] -= m @ (wt_[0] * vals[k - 1][x][e] + wt_[1] * vals[k][x][e])
            key = f"{d['name']}:scheme{task['scheme']}:k{k}"
            rec.close(dense(s.A[e]), A, TOL * 10, key + ':A', f'matrix of element {e}')
            rec.close(np.asarray(s.b[e]), b, TOL * 10, key + ':b', f'vector of element {e}')
        rec.step()
    rec.outcome('evolution')
