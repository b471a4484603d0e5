"""Linear solvers: every small system of a family, every scheme with every option up to a bound, against exact linear algebra."""
import itertools
import warnings
from fractions import Fraction
import numpy as np
import boot  # noqa
import phyem as ph
import scipy.sparse as sp
from checks.common import dense
import impl
import mp
import phyem.msehtt.tools.matrix.static.global_ as _gm_
from phyem.msehtt.tools.matrix.static.global_ import MseHttGlobalMatrix
from phyem.msehtt.tools.vector.static.global_distributed import MseHttGlobalVectorDistributed
from phyem.msehtt.tools.vector.static.global_gathered import MseHttGlobalVectorGathered
from phyem.msehtt.tools.linear_system.static.global_.main import MseHttLinearSystem
from phyem.msehtt.tools.linear_system.static.global_.solvers.mpi_py import LinerSystemSolverDivergenceError
from phyem.msepy.tools.matrix.static.assembled import MsePyStaticAssembledMatrix
from phyem.msepy.tools.vector.static.assembled import MsePyStaticAssembledVector
from phyem.msepy.tools.linear_system.static.assembled.main import MsePyStaticLinearSystemAssembled

ID = 'P13'
RULE = ('every matrix with entries from {-1, 0, 1} of order 1 and 2 (and of order 3 with entries from {0, 1}; {-1, 0, 1} in the '
        'thorough tier) and structured ones up to order 8 (shifts, cyclic permutations, tridiagonal, identity, nearly singular) x '
        'right sides x first guesses (none, 0, arbitrary, exact; as a number, a gathered vector, a list of forms) x schemes '
        '(direct, gmres, lgmres, least squares; preconditioners) x restart lengths from 1 beyond the order x number of cycles '
        '0..3; the result of each cycle is compared with the exact minimiser over the (augmented) Krylov space; and the systems of '
        'a mixed problem with boundary conditions x schemes x first guesses x repetition')
ASSUMPTIONS = ['when a Krylov space is exhausted inside a cycle the msehtt GMRES and LGMRES may stop without a result as long as they '
               'report that; a converged report must be true']
TIMEOUT = {'quick': 600, 'thorough': 3000}
ATOL = 1e-9
REPORTS = (LinerSystemSolverDivergenceError, np.linalg.LinAlgError)


def tasks(tier):
    out = [dict(kind='small', n=1, part=0, parts=1, vals=[-1, 0, 1, 2]), dict(kind='named')]
    out += [dict(kind='small', n=2, part=i, parts=4, vals=[-1, 0, 1]) for i in range(4)]
    v, k = ([0, 1], 8) if tier == 'quick' else ([-1, 0, 1], 64)
    out += [dict(kind='small', n=3, part=i, parts=k, vals=v) for i in range(k)]
    out += [dict(kind='scipy', n=1, part=0, parts=1, vals=[-1, 0, 1, 2])]
    out += [dict(kind='scipy', n=2, part=i, parts=2, vals=[-1, 0, 1]) for i in range(2)]
    k = 4 if tier == 'quick' else 32
    out += [dict(kind='scipy', n=3, part=i, parts=k, vals=v) for i in range(k)]
    from checks import p12
    for d in [p12.HTT[0], p12.HTT[1], p12.PY[0], p12.PY[1]]:
        for i in range(len(p12.SYS_BCS)):
            out.append(dict(kind='problem', desc=d, bcs=i))
    return out


def run(task, rec):
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        globals()['_' + task['kind']](task, rec)
    rec.sample(task)


# ----------------------------------------------------------------------------------------- exact algebra

def rank(rows):
    R = [[Fraction(x).limit_denominator(10 ** 6) for x in r] for r in rows]
    r = 0
    m = len(R[0]) if R else 0
    for c in range(m):
        p = next((i for i in range(r, len(R)) if R[i][c] != 0), None)
        if p is None:
            continue
        R[r], R[p] = R[p], R[r]
        for i in range(r + 1, len(R)):
            if R[i][c] != 0:
                f = R[i][c] / R[r][c]
                R[i] = [x - f * y for x, y in zip(R[i], R[r])]
        r += 1
    return r


def krylov(A, r, m):
    K = [np.asarray(r, dtype=float)]
    for _ in range(m - 1):
        K.append(A @ K[-1])
    return K


def grade(A, r):
    """the dimension of the Krylov space of r, exactly (entries are small integers)"""
    K = krylov(A, r, len(r))
    return rank([list(k) for k in K])


def minimiser(A, b, x, space):
    """x + the correction in the space with the smallest residual, or None when it is not unique"""
    S = np.array(space).T
    W = A @ S
    if np.linalg.matrix_rank(W, tol=1e-9 * max(1, np.abs(W).max())) < S.shape[1]:
        return None
    q, *_ = np.linalg.lstsq(W, b - A @ x, rcond=None)
    return x + S @ q


def matrices(task):
    n = task['n']
    for c, v in enumerate(itertools.product(task['vals'], repeat=n * n)):
        if c % task['parts'] == task['part']:
            yield c, np.array(v, dtype=float).reshape(n, n)


def rights(n):
    if n == 1:
        return [[0], [1], [-2]]
    if n == 2:
        return [list(p) for p in itertools.product((-1, 0, 1), repeat=2)]
    return [[1, 0, 0], [1, 1, 1], [1, -1, 0]]


def named():
    out = {}
    for n in (4, 6, 8):
        out[f'shift{n}'] = np.eye(n, k=1)
        out[f'cycle{n}'] = np.roll(np.eye(n), 1, axis=0)
        out[f'tri{n}'] = 2 * np.eye(n) - np.eye(n, k=1) - np.eye(n, k=-1)
        out[f'convect{n}'] = 2 * np.eye(n) - 3 * np.eye(n, k=1) + np.eye(n, k=-1)
        out[f'neumann{n}'] = out[f'tri{n}'] - np.diag([1] + [0] * (n - 2) + [1])
        out[f'identity{n}'] = np.eye(n)
        out[f'saddle{n}'] = np.block([[np.eye(n // 2), np.eye(n // 2, k=1) + np.eye(n // 2)],
                                      [np.eye(n // 2) + np.eye(n // 2, k=-1), np.zeros((n // 2, n // 2))]])
        out[f'scaled{n}'] = np.diag([10. ** (i - n // 2) for i in range(n)]) @ out[f'tri{n}']
    return out


# ----------------------------------------------------------------------------------------- msehtt

def ls_of(A, b, fmt):
    M = sp.csr_matrix(A) if fmt == 'csr' else sp.csc_matrix(A)
    return MseHttLinearSystem(MseHttGlobalMatrix(M), MseHttGlobalVectorDistributed(np.array(b, dtype=float)))


def decide(rec, key, A, b, scheme, kw, fmt, x0, fn):
    """one call; checks what holds for every call. Returns x or None (reported)"""
    rec.step()
    ls = ls_of(A, b, fmt)
    if x0 is not None and x0 is not 0:      # noqa
        g = MseHttGlobalVectorGathered(np.array(x0, dtype=float))
    else:
        g = x0
    try:
        x, message, info = ls.solve(scheme, x0=g, **kw)
    except REPORTS as e:
        rec.outcome('reported ' + type(e).__name__)
        x, info = None, None
    except RuntimeError as e:       # SuperLU refuses some singular matrices
        rec.outcome('refused')
        rec.ok(np.linalg.matrix_rank(A) < len(A), key + ':raise', f'{scheme} {kw}: {e!r}')
        x, info = None, None
    except Exception as e:
        rec.bad(key + ':raise', f'{scheme} {kw}: {e!r}')
        return None, None
    rec.ok(np.array_equal(dense(ls.A.M), A) and np.array_equal(ls.b.V, b), key + ':input', 'A or b has changed')
    if g is not None and g is not 0:        # noqa
        rec.ok(np.array_equal(g.V, np.array(x0, dtype=float)), key + ':x0', 'the first guess has changed')
        if x is not None:
            rec.ok(not np.shares_memory(g.V, x), key + ':alias', 'the solution is the array of the first guess')
    return x, info


def truth(rec, key, A, b, x, info, maxiter, tol=ATOL):
    r = np.linalg.norm(b - A @ x)
    s = max(1, np.abs(x).max() if np.all(np.isfinite(x)) else 1)
    if info == 0:
        rec.ok(np.isfinite(r) and r <= tol * (1 + 1e-6) + 1e-13 * s, key + ':converged', f'reported as converged with residual {r}')
        rec.outcome('converged')
    else:
        rec.ok(not (r < tol * 0.5), key + ':not', f'reported as not converged ({info}) with residual {r}')
        rec.ok(isinstance(info, (int, np.integer)) and (0 < info <= maxiter or info == 0 or maxiter == 0), key + ':info', f'info {info}')
        rec.outcome('not converged')


def _small(task, rec):
    n = task['n']
    for c, A in matrices(task):
        system(rec, f'n{n}m{c}', A, rights(n), n + 1, full=n < 3)


def _named(task, rec):
    for k, A in named().items():
        n = len(A)
        system(rec, k, A, [[1] + [0] * (n - 1), [0] * (n - 1) + [1], list(range(1, n + 1))], n, full=True, exact=not k.startswith('scaled'))


def system(rec, name, A, bs, mmax, full, exact=True):
    n = len(A)
    rk = rank(A) if exact else np.linalg.matrix_rank(A)
    for fmt in ('csc', 'csr'):
        ls = ls_of(A, np.zeros(n), fmt)
        rec.ok(ls.rank == rk and ls.num_singularities == n - rk, f'{name}:rank', f'{ls.rank}, {ls.num_singularities}')
        for i in range(n):
            rec.ok(ls.A.nnz_of_row(i) == np.count_nonzero(A[i]) and ls.A.nnz_of_col(i) == np.count_nonzero(A[:, i]), f'{name}:nnz')
        if rk == n:
            rec.close(ls.condition_number, np.linalg.cond(A), 1e-8 * np.linalg.cond(A), f'{name}:cond')
    for b in bs:
        b = np.array(b, dtype=float)
        ex = np.linalg.solve(A, b) if rk == n else None
        key = f'{name}:b{[int(v) for v in b]}'
        rec.state(key)
        rec.trace()
        for fmt in ('csc', 'csr'):
            for sch in ('direct', 'spsolve'):
                x, info = decide(rec, f'{key}:{sch}:{fmt}', A, b, sch, {}, fmt, None, None)
                if x is None:
                    continue
                if rk == n:
                    rec.close(x, ex, 1e-9 * max(1, np.abs(ex).max()), f'{key}:{sch}:{fmt}', 'direct solution')
                else:
                    ok = not np.all(np.isfinite(x)) or np.allclose(A @ x, b) or np.abs(x).max() > 1e12
                    rec.outcome('singular')
                    rec.ok(ok, f'{key}:{sch}:singular', f'a singular system is "solved" to {x}')
        guesses = [('0', 0), ('arb', [2., -1., 1., 0., 3., 1., -2., 1.][:n])]
        if full and ex is not None:
            guesses.append(('exact', ex))
        for gn, g in guesses:
            x0 = np.zeros(n) if isinstance(g, int) else np.array(g, dtype=float)
            x0 = start_of(A, b, x0)
            for m in range(1, mmax + 1):
                options = [('gmres', dict(restart=m), m, 0)]
                options += [('lgmres', dict(inner_m=m - k, outer_k=k), m - k, k) for k in range(0, min(m, 3))]
                for sch, opt, inner, outer in options:
                    cycles(rec, f'{key}:{sch}{inner}+{outer}:{gn}', A, b, g, x0, sch, opt, inner, outer, exact, full)


def start_of(A, b, x0):
    """a first guess may be improved in the rows which are an equation for one unknown already"""
    y = x0.copy()
    for i, r in enumerate(A):
        if r[i] == 1 and np.count_nonzero(r) == 1:
            y[i] = b[i]
    return y


def cycles(rec, key, A, b, g, x0, sch, opt, inner, outer, exact, full):
    n = len(A)
    m = inner + outer
    fmt = 'csr' if m % 2 else 'csc'
    refs = None
    xs = []
    err = 0.
    for it in (0, 1, 2, 3) if full else (0, 1, 2):
        x, info = decide(rec, f'{key}:it{it}', A, b, sch, dict(opt, atol=ATOL, maxiter=it), fmt, g, None)
        xs.append(x)
        if x is None:
            break
        truth(rec, f'{key}:it{it}', A, b, x, info, it)
        if it == 0:
            if refs is None:
                raw = np.zeros(n) if isinstance(g, int) else np.array(g, dtype=float)
                if not (np.array_equal(x, raw) or np.array_equal(x, x0)):
                    rec.bad(f'{key}:start', f'zero cycles give {x}, not the first guess')
                refs = [x.copy()]
            continue
        want = None
        prev = refs[-1] if refs[-1] is not None else None
        if prev is not None:
            r = b - A @ prev
            if np.linalg.norm(r) < ATOL:
                want = prev
            else:
                k = min(it - 1, outer) if sch == 'lgmres' else 0
                mm = m - k
                sp_ = krylov(A, r, mm)
                K1 = krylov(A, r, mm + (1 if k else 0))
                # the cycle runs without a breakdown only if all its basis vectors are independent
                aug = [refs[-1 - i] - refs[-2 - i] for i in range(k)]
                basis = list(K1) + [A @ z for z in aug[:-1]]
                if len(basis) <= n and independent(basis):
                    want = minimiser(A, b, prev, sp_ + aug)
        refs.append(want)
        if want is not None:
            rec.outcome('cycle compared')
            s = max(1, np.abs(want).max())
            c = np.linalg.cond(A @ np.array(sp_ + aug).T) if want is not prev else 1
            # the error of the cycle before turns the directions of this one by its ratio to the residual
            err = (1e-12 + err / max(np.linalg.norm(r), 1e-14)) * 100 * s * c * c if want is not prev else 1e-8 * s
            if err < 1e-2:
                rec.close(x, want, err + 1e-12, f'{key}:it{it}', 'not the minimiser of the residual over the Krylov space')
            else:
                refs[-1] = None
    # the same call again gives the same
    if xs and xs[-1] is not None and np.all(np.isfinite(xs[-1])):
        x, info = decide(rec, f'{key}:again', A, b, sch, dict(opt, atol=ATOL, maxiter=it), fmt, g, None)
        if x is not None:
            rec.ok(np.allclose(x, xs[-1], rtol=1e-9, atol=1e-9) or refs[-1] is None, f'{key}:again', f'{x} after {xs[-1]}')


def independent(V):
    Q = np.array([v / np.linalg.norm(v) if np.linalg.norm(v) > 1e-12 else v for v in V])
    s = np.linalg.svd(Q, compute_uv=False)
    return s[-1] > 1e-3


# ----------------------------------------------------------------------------------------- msepy

def _scipy(task, rec):
    n = task['n']
    I = mp.build(mp.D('x', 'crazy', [n, 1], c=0., periodic=False, bounds=[[0, 1], [0, 1]]), 1, ('outer',))
    f = I.forms['outer2']
    gm = f.cochain.gathering_matrix
    assert gm.num_dofs == n
    guess = np.array([2., -1., 1.][:n])
    f.cf = ph.vc.scalar(lambda t, x, y: 0 * x)
    f[0].reduce()
    f[0].cochain = guess[:, None].copy() if np.asarray(gm._gm).shape == (n, 1) else guess
    loc = np.array(f[0].cochain.local)
    x_form = np.zeros(n)
    for e in range(n):
        x_form[int(np.asarray(gm._gm)[e][0])] = loc[e][0]
    for c, A in matrices(task):
        rk = rank(A)
        for b in rights(n):
            b = np.array(b, dtype=float)
            ex = np.linalg.solve(A, b) if rk == n else None
            solvable = rank(np.column_stack([A, b])) == rk
            key = f'n{n}m{c}:b{[int(v) for v in b]}'
            rec.state('scipy', key)
            rec.trace()
            for fmt in ('csc', 'csr'):
                for sch in ('spsolve', 'lsqr', 'gmres', 'lgmres'):
                    for pre in (('default', None, True, dict(name='spilu', drop_tol=1e-3, fill_factor=5)) if 'gmres' in sch else ('-',)):
                        for gn in (('none',) if sch == 'spsolve' else ('0', 'form')):
                            for opt in ({},) + (({'restart': 2, 'maxiter': 3, 'rtol': 1e-10},) if sch == 'gmres' else
                                                ({'inner_m': 2, 'outer_k': 1, 'maxiter': 5, 'rtol': 1e-10},) if sch == 'lgmres' else ()):
                                kk = f'{key}:{fmt}:{sch}:{pre}:{gn}:{sorted(opt)}'
                                rec.step()
                                M = sp.csr_matrix(A) if fmt == 'csr' else sp.csc_matrix(A)
                                ls = MsePyStaticLinearSystemAssembled(MsePyStaticAssembledMatrix(M, gm, gm),
                                                                      MsePyStaticAssembledVector(b.copy(), gm))
                                rec.ok(ls.rank == rk and ls.num_singularities == n - rk, kk + ':rank')
                                solve = ls.solve
                                solve.scheme = sch
                                if gn == '0':
                                    solve.x0 = 0
                                elif gn == 'form':
                                    solve.x0 = [f]
                                    rec.close(solve.x0, x_form, 0, kk + ':x0', 'first guess from a form')
                                kw = dict(opt)
                                if 'gmres' in sch and rk < n and not opt:
                                    kw['maxiter'] = 10
                                if pre not in ('default', '-'):
                                    kw['preconditioner'] = pre
                                try:
                                    x, message, info = solve(**kw)
                                except (RuntimeError, np.linalg.LinAlgError) as e:
                                    rec.outcome('reported ' + type(e).__name__)
                                    rec.ok(rk < n or 'spilu' not in str(pre) and pre is not True, kk + ':report', f'{e!r} for a regular system') \
                                        if 'singular' not in str(e) else None
                                    continue
                                except Exception as e:
                                    rec.bad(kk + ':raise', repr(e))
                                    continue
                                rec.ok(np.array_equal(dense(ls.A._M), A) and np.array_equal(ls.b._v, b), kk + ':input', 'A or b has changed')
                                rec.ok(np.array_equal(np.array(f[0].cochain.local), loc), kk + ':form', 'the form of the first guess has changed')
                                r = np.linalg.norm(b - A @ x)
                                if sch == 'spsolve':
                                    if rk == n:
                                        rec.close(x, ex, 1e-9 * max(1, np.abs(ex).max()), kk, 'direct solution')
                                    else:
                                        rec.ok(not np.all(np.isfinite(x)) or np.allclose(A @ x, b) or np.abs(x).max() > 1e12, kk + ':singular', f'{x}')
                                elif sch == 'lsqr':
                                    if gn == 'form' and not np.any(b):
                                        continue        # scipy stops at once
                                    if rk == n:
                                        rec.close(x, ex, 1e-4 * max(1, np.abs(ex).max()), kk, 'least squares solution')
                                    else:
                                        rec.close(A.T @ (b - A @ x), np.zeros(n), 1e-4, kk, 'normal equations')
                                else:
                                    ci = info['convergence info']
                                    tol = opt.get('rtol', 1e-5) * np.linalg.norm(b)
                                    if ci == 0:
                                        rec.outcome('converged')
                                        rec.ok(r <= 5 * tol + 1e-12, kk + ':converged', f'reported as converged with residual {r}')
                                    else:
                                        rec.outcome('not converged')
                                        rec.ok(not (rk == n and not opt and pre in ('default', None) and gn == '0' and r > 5 * tol), kk + ':fail',
                                               f'not converged ({ci}) for a regular system with the default options')


# ----------------------------------------------------------------------------------------- systems of a problem

def _problem(task, rec):
    from checks import p12
    bcs = p12.SYS_BCS[task['bcs']]
    P = p12.make_problem(task['desc'], 1, bcs)
    nm = f"{task['desc']['name']}:bc{task['bcs']}"
    forms = [P.form[k] for k in 'abp']
    gms = [{e: np.array(f.cochain.gathering_matrix[e]) for e in P.elems} for f in forms]

    def cochains(t):
        return [{e: np.array(np.asarray(f[t].cochain[e] if P.htt else f[t].cochain.local[e])) for e in P.elems} for f in forms]

    def new(t):
        S = p12.System(P, t)
        G = S.real_gm()
        D, v = S.assemble_dense(*S.local(), G)
        return S, G, D, v

    def stacked(S, G, co):
        x = np.zeros(S.N)
        for e in P.elems:
            x[G[e]] = np.concatenate([co[k][e] for k in range(3)])
        return x

    for before in ('nothing', 'older', 'same'):
        for f in forms:
            f.cochain.clean()
        if before != 'nothing':
            t_ = -1.0 if before == 'older' else 0.0
            for k, f in enumerate(forms):
                f.cf = [p12.FV, p12.GV, ph.vc.scalar(lambda t, x, y: 2 + x + t)][k]
                f[t_].reduce()
        for sch in (('direct', 'gmres', 'lgmres') if P.htt else ('spsolve', 'lsqr', 'gmres', 'lgmres')):
            for guess in (('none',) if sch in ('direct', 'spsolve') else ('0', 'forms') if not P.htt else ('0', 'forms', 'gathered')):
                for rep in (1, 2):
                    key = f'{nm}:{before}:{sch}:{guess}:{rep}'
                    t = p12.TIMES[rep - 1]
                    rec.state(key)
                    rec.step()
                    rec.trace()
                    S, G, D, v = new(t)
                    ls = S.s.assemble()
                    first = None
                    co0 = cochains(t_) if before != 'nothing' and all(t_ in list(f.cochain._tcd) for f in forms) else None
                    newest = [f.cochain.newest for f in forms]
                    if P.htt:
                        g = None
                        if guess == '0':
                            g, first = 0, np.zeros(S.N)
                        elif guess == 'forms':
                            g = list(forms)
                            first = stacked(S, G, [cochain_or_zero(P, f, nt, gms[k]) for k, (f, nt) in enumerate(zip(forms, newest))])
                        elif guess == 'gathered':
                            first = np.arange(S.N) / 7
                            g = MseHttGlobalVectorGathered(first.copy(), gm=S.s.A._mA._gm_col)
                        if g is not None:
                            ok, res = rec.guard(key + ':0', ls.solve, sch, x0=g, maxiter=0)
                            if ok:
                                alt = first.copy()
                                for i in range(S.N):
                                    if D[i, i] == 1 and np.count_nonzero(D[i]) == 1:
                                        alt[i] = v[i]
                                rec.ok(np.array_equal(res[0], first) or np.allclose(res[0], alt, atol=1e-12), key + ':guess',
                                       'zero cycles do not give the first guess')
                        kw = {} if sch == 'direct' else dict(atol=1e-10, maxiter=40, **({'restart': S.N // 2} if sch == 'gmres' else
                                                                                       dict(inner_m=S.N // 2, outer_k=3)))
                        try:
                            x, message, info = ls.solve(sch, x0=g, **kw)
                        except REPORTS as e:
                            rec.outcome('reported ' + type(e).__name__)
                            continue
                        except Exception as e:
                            rec.bad(key + ':raise', repr(e))
                            continue
                        if guess == 'gathered':
                            rec.ok(np.array_equal(g.V, first), key + ':x0', 'the first guess has changed')
                        conv = info == 0 or sch == 'direct'
                    else:
                        solve = ls.solve
                        solve.scheme = sch
                        if guess == '0':
                            solve.x0 = 0
                        elif guess == 'forms':
                            solve.x0 = list(forms)
                            first = stacked(S, G, [cochain_or_zero(P, f, nt, gms[k]) for k, (f, nt) in enumerate(zip(forms, newest))])
                            rec.close(solve.x0, first, 0, key + ':guess', 'first guess from forms')
                        kw = {'gmres': dict(rtol=1e-11, restart=60, maxiter=60, preconditioner=True), 'lgmres': dict(rtol=1e-11, maxiter=100)}.get(sch, {})
                        if sch == 'lsqr':
                            kw = dict(atol=1e-13, btol=1e-13)
                        try:
                            x, message, info = solve(**kw)
                        except RuntimeError as e:
                            rec.outcome('reported ' + type(e).__name__)
                            continue
                        except Exception as e:
                            rec.bad(key + ':raise', repr(e))
                            continue
                        conv = info.get('convergence info', 0) == 0
                    A_, b_ = (dense(ls.A.M), ls.b.V) if P.htt else (dense(ls.A._M), ls.b._v)
                    rec.close(A_, D, 1e-10, key + ':A', 'the assembled matrix is not the sum of the local ones')
                    rec.close(b_, v, 1e-9, key + ':b', 'the assembled vector is not the sum of the local ones')
                    rec.outcome('converged' if conv else 'not converged')
                    regular = np.linalg.matrix_rank(D) == S.N
                    if conv and (regular or sch not in ('direct', 'spsolve')):
                        rec.close(D @ x, v, (1e-6 if sch == 'lsqr' else 1e-8) * max(1, np.abs(v).max()), key + ':residual', 'residual of the solution')
                    S.s.x.update(x)
                    for k, f in enumerate(forms):
                        for e in P.elems:
                            rec.close(np.asarray(f[t].cochain[e] if P.htt else f[t].cochain.local[e]), x[G[e][S.split[e][k]:S.split[e][k + 1]]], 0,
                                      key + ':distributed', f'unknown {k}')
                    if co0 is not None and before == 'older':
                        if all(t_ in list(f.cochain._tcd) for f in forms):
                            for k in range(3):
                                for e in P.elems:
                                    rec.close(cochains(t_)[k][e], co0[k][e], 0, key + ':older', 'an older instant has changed')


def cochain_or_zero(P, f, t, gm):
    if t is None:
        return {e: np.zeros(len(gm[e])) for e in P.elems}
    return {e: np.array(np.asarray(f[t].cochain[e] if P.htt else f[t].cochain.local[e])) for e in P.elems}
