import boot          # noqa
import itertools
import phyem as ph
import sem
from checks import p09
from checks.p09 import structure, key_of, show, base, frz, read_term, tval
from phyem.src.spaces.main import new

ID = 'P10'
LEVEL = 'model_checking'
RULE = ('explicit-state exploration of the real temporal discretisation: for weak formulations with time derivatives on either '
        'side, signs, real and abstract factors, several equations and nonlinear terms, all sequences of discretisation steps '
        '(differentiate any term between any two of the instants, average any form of any term over any of the lists of '
        'instants) up to the depth bound; a reference model substitutes the instants into the meaning of the terms and predicts '
        'the complete ordered signed list of terms, or that the step refuses; every result is afterwards split at its instants '
        'and compared again; the values of the resulting coefficients are evaluated at all steps of all time sequences of the '
        'bound')
ASSUMPTIONS = 'none beyond the representation being what a term is'

INST = ['k-1', 'k-1/2', 'k']


def tasks(tier):
    L = []
    for name in WFS:
        parts = 6
        for part in range(parts):
            L.append(dict(kind='explore', wf=name, depth=2 if tier == 'quick' else 3, part=part, parts=parts, tier=tier))
        L.append(dict(kind='unfold', wf=name))
    L.append(dict(kind='values', tier=tier))
    L.append(dict(kind='refusals'))
    return L


def run(task, rec):
    globals()[task['kind']](task, rec)


# ------------------------------------------------------------------------------- formulations

def wf_ode(n, periodic):
    """time derivatives on both sides, with signs and factors, several in one equation"""
    ma, me = base(n, periodic)
    S = new('Lambda', n - 1, orientation='outer')
    a, b, c = [S.make_form(x, x) for x in 'abc']
    k = ph.constant_scalar(r'\kappa', 'kappa')
    da, db = a.time_derivative(), b.time_derivative()
    kda = k * da
    pde = ph.pde(['- kda + b = db - c', 'db = - a + b'], dict(kda=kda, da=da, db=db, a=a, b=b, c=c))
    pde.unknowns = [a, b]
    wf = pde.test_with([S, S], sym_repr=['p', 'q'])
    return dict(wf=wf, ma=ma, n=n, periodic=periodic, forms=[a, b, c], k=k, unknowns=[a, b], bc=None)


WFS = dict(waves2=(p09.wf_waves, 2, False), waves3p=(p09.wf_waves, 3, True), ns2=(p09.wf_ns, 2, False), ns3=(p09.wf_ns, 3, False),
           convect=(p09.wf_convect, 2, False), ode2=(wf_ode, 2, False), ode3=(wf_ode, 3, False), terms2=(p09.wf_terms, 2, False))


# ------------------------------------------------------------------------------- the model

def subst_atom(a, root, by):
    """{atom: coefficient} of an atom with a root form replaced by a combination of others"""
    if a == ('f', root):
        return {('f', x): c for x, c in by.items()}
    if not isinstance(a, tuple) or a[0] == 'f':
        return {a: 1.0}
    if a[0] in ('L2-inner-product', 'duality-pairing'):
        out = {}
        for x, c in subst_atom(a[1], root, by).items():
            for y, d in subst_atom(a[2], root, by).items():
                for k, v in sem.bracket(a[0], {x: 1.0}, {y: 1.0}, a[3]).items():
                    out[k] = out.get(k, 0.0) + c * d * v
        return out
    if len(a) == 2:
        return {(a[0], x): c for x, c in subst_atom(a[1], root, by).items()}
    out = {}
    for x, c in subst_atom(a[1], root, by).items():
        for y, d in subst_atom(a[2], root, by).items():
            out[(a[0], x, y)] = out.get((a[0], x, y), 0.0) + c * d
    return out


def subst(v, root, by):
    out = {}
    for a, c in v.items():
        for x, d in subst_atom(a, root, by).items():
            out[x] = out.get(x, 0.0) + c * d
    return sem.clean(out)


def at(root, inst):
    return f'{root}@Ts[{inst}]'


def dt_value(ks, ke):
    return sem.generic(f'Ts[{ks},{ke}]')


def lists(tier):
    out = [['k'], ['k-1'], ['k-1', 'k'], ['k-1', 'k-1/2', 'k']]
    if tier != 'quick':
        out += [['k-1/2'], ['k', 'k-1/2'], ['k', 'k', 'k-1']]
    return out


def operations(st, terms, tier):
    """(name, what) of all the steps"""
    ops = []
    for i, eq in enumerate(st):
        m = 0
        for j in range(2):
            for kk in range(len(eq[j])):
                idx = f'{i}-{m}'
                roots = sorted(p09.roots_in([[[eq[j][kk]], []]]))
                for ks, ke in (('k-1', 'k'), ('k-1/2', 'k'), ('k-1', 'k-1/2')):
                    ops.append((f'd({idx},{ks},{ke})', ('d', idx, (i, j, kk), ks, ke)))
                for r in roots:
                    if 'test' in r:
                        continue
                    for L in lists(tier):
                        ops.append((f'a({idx},{r},{L})', ('a', idx, (i, j, kk), r, L)))
                m += 1
    return ops


def model(orig, cur, op):
    """the value of every term after the step; None: refuse"""
    if op[0] == 'd':
        _, idx, w, ks, ke = op
        i, j, kk = w
        r = orig[w]['read']
        if not (r[0] == 'L2-inner-product' and r[1][0] == 'time_derivative' and r[1][1][0] == 'f'):
            return None
        root = r[1][1][1]
        h = dt_value(ks, ke)
        v0 = {('f', at(root, ke)): 1 / h, ('f', at(root, ks)): -1 / h}
        new_ = dict(cur)
        new_[w] = sem.bracket(r[0], v0, p09.V(r[2]), r[3], r[4])
        return new_
    _, idx, w, root, L = op
    by = {}
    for x in L:
        by[at(root, x)] = by.get(at(root, x), 0.0) + 1.0 / len(L)
    new_ = dict(cur)
    new_[w] = subst(cur[w], root, by)
    return new_


def fresh(name):
    fn, n, periodic = WFS[name]
    return fn(n, periodic)


def explore(task, rec):
    ctx = fresh(task['wf'])
    wf = ctx['wf']
    st = structure(wf)
    forms = {f._pure_lin_repr: f for f in ctx['forms']}
    orig, cur0 = {}, {}
    for i, eq in enumerate(st):
        for j in range(2):
            for kk in range(len(eq[j])):
                orig[(i, j, kk)] = dict(read=read_term(wf._term_dict[i][j][kk]), sign=eq[j][kk][0])
                cur0[(i, j, kk)] = eq[j][kk][1]
    ops = operations(st, wf._term_dict, task['tier'])
    n = 0
    depth = task['depth']
    if depth == 3 and len(ops) > 40:
        depth = 2
    for d in range(depth + 1):
        for seq in itertools.product(range(len(ops)), repeat=d):
            # one path per execution: the object under discretisation is used up by asking for its result
            if (seq[0] if d else 0) % task['parts'] != task['part']:
                continue
            # the same term or the same equation interacts; other pairs commute, keep one order of every eighth
            if d == 2 and ops[seq[0]][1][1][0] != ops[seq[1]][1][1][0] and seq[0] > seq[1]:
                continue
            n += 1
            one(rec, task['wf'], ctx, wf, st, orig, cur0, [ops[x] for x in seq], forms)
            if d == 0:
                break
    rec.sample(dict(wf=task['wf'], operations=len(ops), depth=depth, sequences=n))


def one(rec, name, ctx, wf, st, orig, cur0, path, forms):
    from phyem.src.time_sequence import AbstractTimeSequence
    nm = name + '.' + '.'.join(p[0] for p in path)
    td = wf.td
    ats = ctx.setdefault('ats', None)
    if ats is None:
        ats = ctx['ats'] = AbstractTimeSequence()
    td.set_time_sequence(ats)
    td.define_abstract_time_instants(*INST)
    cur = cur0
    for nme, op in path:
        rec.step()
        want = model(orig, cur, op)
        try:
            if op[0] == 'd':
                td.differentiate(op[1], op[3], op[4])
            elif len(op[4]) == 1:
                td.average(op[1], forms[op[3]], op[4][0])
            elif len(op[4]) == 2:
                td.average(op[1], forms[op[3]], op[4])
            else:
                td.average(op[1], forms[op[3]], *op[4])
            err = None
        except Exception as e:
            err = e
        if want is None:
            rec.outcome(f'{op[0]}:refuse')
            rec.ok(err is not None, f'{nm}:accepted', f'{nm}: {nme} accepted')
            continue
        rec.outcome(f'{op[0]}:accept')
        rec.ok(err is None, f'{nm}:refused', lambda: f'{nm}: {nme} refused with {err!r}')
        if err is None:
            cur = want
    okk, w2 = rec.guard(f'{nm}:call', lambda: td())
    if not okk:
        return
    want = [[[(s, cur[(i, j, kk)]) for kk, (s, v) in enumerate(eq[j])] for j in range(2)] for i, eq in enumerate(st)]
    rec.state(*key_of(want))
    p09.compare(rec, nm, w2, want, None, wf.test_forms)
    rec.ok(w2._bc is ctx['bc'], f'{nm}:bc', f'{nm}: lost the boundary conditions')
    rec.ok(key_of(structure(wf)) == key_of(st), f'{nm}:source', f'{nm}: changed the source')
    rec.trace()


# ------------------------------------------------------------------------------- splitting the result at its instants

def unfold(task, rec):
    """after differentiating and averaging, splitting every such term into its instants leaves the equation as it is"""
    from phyem.src.time_sequence import AbstractTimeSequence
    for ks, ke in (('k-1', 'k'), ('k-1', 'k-1/2'), ('k-1/2', 'k')):
        for L in (['k-1', 'k'], ['k-1', 'k-1/2', 'k']):
            ctx = fresh(task['wf'])
            wf = ctx['wf']
            st = structure(wf)
            forms = {f._pure_lin_repr: f for f in ctx['forms']}
            td = wf.td
            td.set_time_sequence(AbstractTimeSequence())
            td.define_abstract_time_instants(*INST)
            todo = []
            for i, j, kk, idx in p09.places(st):
                r = read_term(wf[idx][1])
                if r[1][0] == 'time_derivative':
                    td.differentiate(idx, ks, ke)
                    todo.append((idx, 'd', r[1][1][1], r, wf[idx][1]))
                else:
                    for root in sorted(p09.roots_in([[[(1, tval(r))], []]])):
                        if 'test' not in root:
                            td.average(idx, forms[root], L)
                    if r[1][0] == 'f' and 'test' not in r[1][1]:
                        todo.append((idx, 'a', r[1][1], r, wf[idx][1]))
            ts = td.ts
            dt = ts.make_time_interval(ks, ke)
            w2 = td()
            ref = structure(w2)
            nm = f'{task["wf"]}:{ks},{ke}:{L}'
            for idx, how, root, r, term in sorted(todo, key=lambda x: (-int(x[0].split('-')[0]), -int(x[0].split('-')[1]))):
                f = forms[root]
                plain = r[4] == 1.0
                if not plain:
                    continue        # factors given to split are complete factors
                if how == 'd':
                    w2 = w2.derive.split(idx, 'f0', [f @ ts[ke], f @ ts[ks]], ['+', '-'], factors=[1 / dt, 1 / dt])
                else:
                    w2 = w2.derive.split(idx, 'f0', [f @ ts[x] for x in L], ['+'] * len(L), factors=[1 / len(L)] * len(L))
                rec.step()
                now = structure(w2)
                for i in range(len(st)):
                    rec.ok(sem.same(p09.eqv(now, i), p09.eqv(ref, i)), f'{nm}:{idx}:split',
                           lambda: f'{nm}: splitting {idx} changed equation {i} from {sem.show(p09.eqv(ref, i))} to {sem.show(p09.eqv(now, i))}')
                rec.state(nm, idx)


# ------------------------------------------------------------------------------- values at actual times

def values(task, rec):
    """the coefficients and the instants of a discretised formulation at all steps of actual time sequences"""
    from phyem.src.time_sequence import AbstractTimeSequence
    names = ['k-2', 'k-1', 'k-3/4', 'k-1/2', 'k-1/3', 'k']
    frac = {'k-2': 2.0, 'k-1': 1.0, 'k-3/4': 0.75, 'k-1/2': 0.5, 'k-1/3': 1 / 3, 'k': 0.0}
    factors = (1, 2, 3, 4, 12)
    for t0, h in itertools.product((0, 0.3, -1.5), (1, 0.1, 0.7, 1e-3)):
        for fac in factors:
            base(2)
            S = new('Lambda', 1, orientation='outer')
            a = S.make_form('a', 'a')
            ats = AbstractTimeSequence()
            forms = {x: a @ ats[x] for x in names}
            for x in names:
                rec.ok((a @ ats[x]) is forms[x], f'{x}:identity', f'{x}: a form at an instant is not the same one twice')
            ats.specify('constant', [t0, t0 + 5 * h, 5 * fac], fac)
            for k in range(2, 6):
                for x in names:
                    want = t0 + (k - frac[x]) * h
                    aligned = abs(frac[x] * fac - round(frac[x] * fac)) < 1e-9
                    rec.step()
                    try:
                        got = ats[x](k=k)()
                    except Exception as e:
                        rec.outcome('undefined')
                        rec.ok(not aligned, f'{t0},{h},{fac},{x},{k}:refused', lambda: f'{x} at k={k} refused: {e!r}')
                        continue
                    rec.outcome('defined')
                    rec.state(t0, h, fac, k, x)
                    rec.close(got, want, 1e-9, f'{t0},{h},{fac},{x},{k}:instant')
                    for y in names:
                        if frac[y] < frac[x]:
                            try:
                                iv = ats.make_time_interval(x, y)
                                v = iv(k=k)()
                            except Exception:
                                continue
                            rec.close(v, (frac[x] - frac[y]) * h, 1e-9, f'{t0},{h},{fac},{x},{y},{k}:interval')


# ------------------------------------------------------------------------------- what must be refused

def refusals(task, rec):
    from phyem.src.time_sequence import AbstractTimeSequence
    ctx = fresh('waves2')
    wf = ctx['wf']
    a = ctx['forms'][0]
    td = wf.td
    rec.raises('no sequence', lambda: td.define_abstract_time_instants('k'))
    rec.raises('not a sequence', lambda: wf.td.set_time_sequence('ts'))
    td.set_time_sequence(AbstractTimeSequence())
    rec.raises('second sequence', lambda: td.set_time_sequence(AbstractTimeSequence()))
    td.define_abstract_time_instants('k-1', 'k')
    td.define_abstract_time_instants('k-1')                 # again: fine
    rec.raises('not a str', lambda: td.define_abstract_time_instants(1))
    rec.raises('undefined end', lambda: td.differentiate('0-0', 'k-1', 'k+1'))
    rec.raises('undefined start', lambda: td.differentiate('0-0', 'k-2', 'k'))
    rec.raises('undefined average', lambda: td.average('0-1', a, ['k-1', 'k-1/2']))
    rec.raises('index', lambda: td.differentiate('5-0', 'k-1', 'k'))
    rec.raises('index2', lambda: td.average('0-9', a, ['k']))
    rec.raises('no instants', lambda: td.average('0-1', a, []))
    st = structure(wf)
    w2 = td()
    p09.compare(rec, 'refused', w2, st, None, wf.test_forms)
