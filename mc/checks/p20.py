"""Time sequences, symbolic instants and intervals, scalar parameters, against exact rational arithmetic."""
import itertools
from fractions import Fraction as Fr
import numpy as np
import boot
import phyem as ph
from phyem.src.form.parameters import constant_scalar, _factor_parser

ID = 'P20'
RULE = ('every (t0, length, n, factor) of a grid x every multiple of 1/(2*factor) from two steps before the start to two after the '
        'end; every symbolic expression of a grammar (sums, differences, products, powers, fractions, up to two variables) x '
        'every assignment, on several sequences; every ordered pair of instants as an interval and its reciprocal factor; every '
        'query history up to a depth on sequences grown by a function, including a function that fails once; '
        'sums and quotients of scalar parameters')
ASSUMPTIONS = ['one extra step before the start and after the end is documented as a margin: there both an exact answer and a '
               'refusal are accepted; indices within 1e-7 of a valid one count as that one']
TIMEOUT = {'quick': 600, 'thorough': 3000}

T0 = [0, -2, 0.5, 3, 1.7]
LEN = [1, 5, 0.1, 2.5, 7, 1e-6, 1e6]


def tasks(tier):
    nmax, fmax = (16, 6) if tier == 'quick' else (40, 12)
    out = [dict(name=f'grid{t0}', t0=t0, nmax=nmax, fmax=fmax) for t0 in T0]
    out += [dict(name='expr', half=i, tier=tier) for i in range(4)]
    out += [dict(name='function', interval=s, depth=4 if tier == 'quick' else 5) for s in (1, 0.5, 2)]
    out += [dict(name='scalars', tier=tier), dict(name='identity', tier=tier)]
    return out


def run(task, rec):
    globals()['_' + ''.join(c for c in task['name'] if c.isalpha())](task, rec)
    rec.trace()
    rec.sample(task)


def _grid(task, rec):
    t0 = task['t0']
    for L in LEN:
        for n in range(0, task['nmax'] + 1):
            for f in range(0, task['fmax'] + 1):
                key = f't0={t0} T={t0 + L} n={n} factor={f}'
                rec.state(key)
                rec.step()
                good = n > 0 and f > 0 and n % f == 0
                ts = ph.time_sequence()
                if not good:
                    rec.raises(key + '|admissible?', ts.specify, 'constant', [t0, t0 + L, n], f)
                    rec.outcome('refused')
                    continue
                ok, _ = rec.guard(key + '|specify', ts.specify, 'constant', [t0, t0 + L, n], f)
                if not ok:
                    continue
                o = ts._object
                K = n // f
                exact = Fr(t0 + L) - Fr(t0)
                dt = exact / K
                tol = 1e-9 * (abs(t0) + L)
                rec.close(o.dt, float(dt), tol, key + '|dt', 'step')
                rec.ok(o.k_max == K and isinstance(o.k_max, int), key + '|k_max', f'k_max {o.k_max}, not {K}')
                rec.ok(o.t_0 == t0 and o.t_max == t0 + L, key + '|ends')
                rec.raises(key + '|re-specify', ts.specify, 'constant', [0, 1, 1], 1)
                last = before = None
                for i in range(-4 * f, 2 * n + 4 * f + 1):
                    k = Fr(i, 2 * f)
                    value = float(Fr(t0) + k * dt)
                    valid = i % 2 == 0
                    inside = 0 <= k <= K
                    margin = (-1 <= k <= K + 1) and not inside
                    q = k.numerator if k.denominator == 1 else i / (2 * f)
                    rec.step()
                    if valid and inside:
                        w, v = rec.guard(f'{key}|t[{k}]', o.__getitem__, q)
                        if w:
                            rec.close(v(), value, tol, f'{key}|t[{k}]', 'instant')
                            rec.ok(v() == v.time and (last is None or v() > last), f'{key}|t[{k}]|increasing')
                            rec.ok(v == o[q] and (before is None or v != before), f'{key}|t[{k}]|equality')
                            last, before = v(), v
                        for q2 in (float(k), float(k) + 1e-13, float(k) - 1e-13, float(Fr(i + 2 * f, 2 * f)) - 1.0):
                            w, v = rec.guard(f'{key}|t[{k}] with rounding', o.__getitem__, q2)
                            if w:
                                rec.close(v(), value, tol, f'{key}|t[{k}] with rounding', 'instant')
                        rec.outcome('valid')
                    else:
                        try:
                            v = o[q]
                        except Exception:
                            rec.decisions += 1
                            rec.outcome('refused')
                            continue
                        rec.ok(valid and margin, f'{key}|t[{k}]|undefined', f'undefined instant accepted: {v()}')
                        rec.close(v(), value, tol, f'{key}|t[{k}]', 'margin instant')
                        rec.outcome('margin')
                ends = (o[0](), o[K]())
                rec.close(ends, [t0, t0 + L], tol, key + '|start and end')
                for bad in ([t0, t0, n], [t0 + L, t0, n], [t0, t0 + L, n + 0.5], [t0, t0 + L, -n]):
                    rec.raises(key + f'|{bad}', ph.time_sequence().specify, 'constant', bad, f)
                for bf in (f + 0.5, -f):
                    rec.raises(key + f'|factor {bf}', ph.time_sequence().specify, 'constant', [t0, t0 + L, n], bf)


ATOMS1 = ['k', '1', '2', '1/2', '0.5', '2*k', 'k*2', 'k/2', '(k+1)', '(k-1)', '3/4', 'k**2', '1/4']
ATOMS2 = ['k', 'm', '1', '1/2', 'k*m', 'm/4', '2*k', '(k-m)', 'm**2']


def exprs(tier):
    out = list(ATOMS1)
    out += [a + op + b for a in ATOMS1 for op in '+-*' for b in ATOMS1]
    out += ['-' + a for a in ATOMS1] + ['3-' + a for a in ATOMS1]
    out += [a + op + b for a in ATOMS2 for op in '+-*' for b in ATOMS2]
    out += [f'k+{a}/4+{b}/4' for a in range(5) for b in range(5)] + [f'k+{a}/4-{b}/4' for a in range(5) for b in range(5)]
    if tier != 'quick':
        out += [a + p + b + q + c for a in ATOMS2 for p in '+-' for b in ATOMS2 for q in '-*' for c in ATOMS2]
    return list(dict.fromkeys(out))


SEQ = [([0, 5, 20], 4), ([-1, 2, 24], 4), ([0, 0.3, 12], 4), ([2, 9, 36], 12), ([0, 2, 60], 10)]


def exact_value(expr, **kw):
    kw = {k: Fr(v) if not isinstance(v, float) else Fr(v).limit_denominator(10 ** 7) for k, v in kw.items()}
    import re
    e = re.sub(r'\d+\.\d+|\d+', lambda m: f"Fr('{m.group()}')", expr)
    return eval(e, {'Fr': Fr}, kw)


def _expr(task, rec):
    es = exprs(task['tier'])[task['half']::4]
    ks = [0, 1, 2, 3, 4, -1, 0.5, 0.25, 1.75, -0.5]
    ms = [0, 1, 2, -1, 0.5]
    seqs = []
    for args, f in SEQ:
        s = ph.time_sequence()
        s.specify('constant', list(args), f)
        seqs.append((s, args, f))
    for e in es:
        for si, (s, (t0, t1, n), f) in enumerate(seqs):
            K = n // f
            dt = (Fr(t1) - Fr(t0)) / K if isinstance(t1, int) else Fr(str(t1)) / K - Fr(t0) / K
            keys = [x for x in 'km' if x in e]
            inst = s[e]
            rec.ok(s[e] is inst and inst == s[e], f'{e}|same instant twice')
            for vals in itertools.product(*[ks if x == 'k' else ms for x in keys]):
                kw = dict(zip(keys, vals))
                key = f't[{e}] {kw} seq{si}'
                rec.state(key)
                rec.step()
                try:
                    k = exact_value(e, **kw)
                except TypeError:
                    continue
                if not isinstance(k, Fr) and not isinstance(k, int):
                    continue
                k = Fr(k)
                valid = (k * f).denominator == 1
                inside = 0 <= k <= K
                orders = [kw] if len(kw) < 2 else [kw, dict(reversed(list(kw.items())))]
                for o in orders:
                    if valid and inside:
                        w, v = rec.guard(key, inst, **o)
                        if w:
                            rec.close(v(), float(Fr(t0) + k * dt), 1e-9 * (abs(t0) + abs(t1) + 1), key, 'instant')
                        rec.outcome('valid')
                    else:
                        try:
                            v = inst(**o)
                        except Exception:
                            rec.decisions += 1
                            rec.outcome('refused')
                            continue
                        rec.ok(valid and -1 <= k <= K + 1, key + '|undefined', f'undefined instant accepted: {v()}')
                        rec.close(v(), float(Fr(t0) + k * dt), 1e-9 * (abs(t0) + abs(t1) + 1), key, 'margin instant')
                # missing or foreign variables are refused
            for x in keys:
                kw = {y: 1 for y in keys if y != x}
                rec.raises(f't[{e}] without {x}', inst, **kw)
            rec.raises(f't[{e}] with z', inst, **{**{y: 1 for y in keys}, 'z': 1})
    # intervals between all pairs of simple instants
    simple = ['k', 'k-1', 'k+1', 'k-1/2', 'k+1/4', '2*k', '1', '0'][task['half'] * 2:][:2]
    every = ['k', 'k-1', 'k+1', 'k-1/2', 'k+1/4', '2*k', '1', '0', 'k-m']
    for s, (t0, t1, n), f in seqs[:3]:
        K = n // f
        dt = (Fr(str(t1)) - Fr(t0)) / K
        for a in simple:
            for b in every:
                key = f'[{a},{b}] on {t0},{t1},{n}'
                rec.state(key)
                # give by strings, then by instants: the same interval
                iv = s.make_time_interval(a, b)
                rec.ok(s.make_time_interval(s[a], s[b]) is iv and s.make_time_interval(a, s[b]) is iv, key + '|twice')
                rec.ok(iv.start == s[a] and iv.end == s[b] and iv.time_sequence is s, key + '|ends')
                if a == b:
                    continue
                inv = [(c, _factor_parser((c / iv)._lin_repr)) for c in (1, 2, 0.5)]
                for k in (1, 2, 3):
                    for m in ((1, 2) if 'm' in b else (None,)):
                        if 'm' in b and 'm' not in a:
                            # an interval whose ends have different variables: every variable goes to both ends, so it is refused
                            continue
                        kw = {x: v for x, v in (('k', k), ('m', m)) if x in a + b}
                        va, vb = exact_value(a, k=k, m=m or 0), exact_value(b, k=k, m=m or 0)
                        if ('k' in a) != ('k' in b):
                            continue
                        if not (0 <= va <= K and 0 <= vb <= K):
                            continue
                        rec.step()
                        if va >= vb:
                            rec.raises(f'{key}|k={k}|not positive', iv, **kw)
                            continue
                        w, v = rec.guard(f'{key}|k={k}', iv, **kw)
                        if w:
                            ex = float((vb - va) * dt)
                            rec.close([v(), v.end() - v.start()], ex, 1e-9, f'{key}|k={k}', 'length')
                            rec.close(v.start(), float(Fr(t0) + va * dt), 1e-9, f'{key}|k={k}|start')
                            for c, r in inv:
                                rec.close(r(**kw), c / ex, 1e-9 * c / ex, f'{key}|k={k}|{c}/dt', 'factor')


DTS = [1.0, 0.25, 2.0, 0.125, 3.0, 0.5, 1.5, 0.75]


def _function(task, rec):
    st = task['interval']
    depth = task['depth']
    queries = sorted({0, st, 2 * st, 3 * st, st / 2, 1.5 * st, 2.25 * st, -st, 0.1 * st})

    for fail_at in (None, 0, 1, 2):
        for kind in ((None,) if fail_at is None else ('negative', 'zero', 'raise')):
            for hist in itertools.product(queries, repeat=depth):
                calls = []

                def func():
                    i = len(calls)
                    calls.append(None)
                    if i == fail_at:
                        if kind == 'raise':
                            raise RuntimeError('no step')
                        return {'negative': -1.0, 'zero': 0.0}[kind]
                    calls[-1] = DTS[i]
                    return DTS[i]
                ts = ph.time_sequence()
                ts.specify('function', 0.5, func, step_interval=st) if st != 1 else ts.specify('function', 0.5, func)
                times = [0.5]
                key = f'{hist} fail={fail_at}{kind} step={st}'
                rec.state(key)
                for qi, q in enumerate(hist):
                    rec.step()
                    before = len(calls)
                    try:
                        v = ts['k'](k=q)()
                    except Exception as e:
                        v = None
                    new = len(calls) - before
                    ahead = q > (len(times) - 1) * st
                    rec.ok(new == (1 if ahead else 0), f'{key}|{qi}|function calls', f'{new} calls of the step function, ahead={ahead}')
                    if new and calls[-1] is not None:
                        times.append(times[-1] + calls[-1])
                    now = (len(times) - 1) * st
                    if 0 <= q <= now:
                        ref = float(np.interp(q / st, range(len(times)), times))
                        if new and calls[-1] is None:
                            continue
                        rec.ok(v is not None, f'{key}|{qi}|refused', f't[{q}] refused at step {now}')
                        if v is not None:
                            rec.close(v, ref, 1e-12, f'{key}|{qi}', f't[{q}]')
                    else:
                        rec.ok(v is None, f'{key}|{qi}|accepted', f't[{q}] = {v} accepted while only {now} is known')


def _scalars(task, rec):
    nums = [0, 1, 2, -3, 0.5, 0.25, 1 / 3, 0.1, -0.5, 1.5, -1 / 4, 7.25, 1e-3]
    cs = {}
    for a in nums:
        w, c = rec.guard(f'scalar {a}', constant_scalar, a)
        if not w:
            continue
        cs[a] = c
        rec.ok(c.is_real() and c() == a and c.value == a, f'scalar {a}|value', lambda: f'{c()}')
        rec.ok(constant_scalar(a) is c and constant_scalar(float(a)) is c, f'scalar {a}|twice')
    for a, b in itertools.product(nums, repeat=2):
        if a not in cs or b not in cs:
            continue
        rec.state(a, b)
        rec.step()
        rec.ok((cs[a] is cs[b]) == (a == b), f'{a},{b}|identity')
        for name, fn in (('scalar+scalar', lambda: cs[a] + cs[b]), ('scalar+number', lambda: cs[a] + b),
                         ('number+scalar', lambda: a + cs[b])):
            w, c = rec.guard(f'{a}+{b} {name}', fn)
            if w:
                rec.ok(c.is_real(), f'{a}+{b}|real')
                rec.close(c(), a + b, 1e-12, f'{a}+{b}|{name}', 'sum')
    x = constant_scalar('X', 'X')
    y = constant_scalar('Y', 'Y')
    rec.ok(constant_scalar('X', 'X') is x, 'abstract twice')
    rec.raises('lin_repr taken', constant_scalar, 'X2', 'X')
    rec.raises('sym_repr taken', constant_scalar, 'X', 'X2')
    rec.raises('no value yet', x)
    for vx in nums:
        for vy in nums:
            x.value = vx
            y.value = vy
            rec.close([x(), y()], [vx, vy], 0, f'values {vx},{vy}')
            if vy:
                rec.close(_factor_parser((x / y)._lin_repr)(), vx / vy, 1e-12 * abs(vx / vy), f'X/Y {vx},{vy}')
                for a in (1, 2, 0.5):
                    rec.close(_factor_parser((constant_scalar(a) / y)._lin_repr)(), a / vy, 1e-12 * abs(a / vy), f'{a}/Y {vy}')
                if a:
                    rec.close(_factor_parser((x / 4)._lin_repr)(), vx / 4, 1e-12, f'X/4 {vx}')
            x.value = lambda s=vx: s
            rec.close(x(), vx, 0, f'callable value {vx}')
    rec.raises('string value', lambda: setattr(x, 'value', '1'))


def _identity(task, rec):
    """sequences do not see each other; equal expressions of different sequences are different instants"""
    seqs = [ph.time_sequence() for _ in range(3)]
    ex = ['k', 'k+1', '0', 'k-1/2']
    for s in seqs:
        rec.raises('not specified', s['k'], k=1)
    for i, s in enumerate(seqs):
        s.specify('constant', [i, i + 4, 8], 2)
    for (i, s), (j, r) in itertools.product(enumerate(seqs), repeat=2):
        rec.ok((s == r) == (i == j), f'{i}=={j}')
        for a, b in itertools.product(ex, repeat=2):
            rec.state(i, j, a, b)
            rec.step()
            rec.ok((s[a] == r[b]) == (i == j and a == b), f'{i}[{a}]=={j}[{b}]')
            for kk in (1, 2):
                ka = dict(k=kk) if 'k' in a else {}
                kb = dict(k=kk) if 'k' in b else {}
                x, y = s[a](**ka), r[b](**kb)
                va, vb = i + float(exact_value(a, k=kk)), j + float(exact_value(b, k=kk))
                rec.close([x(), y()], [va, vb], 1e-12, f'{i}[{a}],{j}[{b}] k={kk}')
                rec.ok((x == y) == (va == vb), f'{i}[{a}]=={j}[{b}] k={kk}|instants')
            if i != j:
                rec.raises(f'interval over two sequences {i},{j}', s.make_time_interval, s[a], r[b])
    for bad in ('k k', 'kk', 'k+ab'):
        rec.raises(f'instant {bad!r}', seqs[0].__getitem__, bad)
    rec.raises('number', seqs[0].__getitem__, 1)
