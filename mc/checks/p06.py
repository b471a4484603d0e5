"""The same program on 1, 2, 3, 4 processes."""
from checks.common import *
import os
import pickle
import select
import shutil
import tempfile
import traceback
import checks.p23 as p23

ID = 'P06'
LEVEL = 'model_checking'
RULE = ('every program of a list (spaces of all orders and orientations on a mesh; mixed problems with conditions on two parts of the boundary x kinds '
        'of conditions x solvers; a nonlinear evolution problem; saving and reading; values at points) x meshes x degrees x numbers of processes that '
        'the mesh can be distributed over. The ranks run the real code, their collective calls are matched one by one by a hub that decides for every '
        'call whether all ranks make it, with the same root, operation and sizes; ranks share no memory, so all their schedules between two calls are '
        'equivalent and one of them represents all. Every observation is compared with the run of one process')
ASSUMPTIONS = ['the hub stands in for the MPI library (collective calls as in the MPI standard, sums in the order of the ranks); the one-process run uses '
               'the installed mpi4py', 'point-to-point calls occur in the legacy runners only, which are not run']
TIMEOUT = {'quick': 500, 'thorough': 3000}
SH = p23.SH
TRI = {'a': [0, 0], 'b': [1, 0], 'c': [1, 1], 'd': [0, 1], 'e': [2, 0.5]}


def crazy(n, **k):
    return M(n, 'crazy', dict(dict(element_layout=[3, 2], c=0.0, periodic=False), **k))


MESH = [crazy('32'), crazy('w', element_layout=[[1, 2.5, 1], [2, 1]], bounds=[[0, 2], [-1, 0.5]]), crazy('c23', element_layout=[2, 3], c=.1),
        crazy('per33', element_layout=3, periodic=True), crazy('perc', element_layout=[2, 3], c=.1, periodic=True),
        M('rect', 'rectangle', dict(element_layout=3)), M('cyl', 'cylinder_channel', dict(element_layout=1)),
        tqr('turn', [list('abed'), list('cfeb')], SH), tqr('tq', [list('abcd'), list('bec')], TRI), tqr('qt', [list('bec'), list('abcd')], TRI),
        crazy('trf0', element_layout=2, trf=0), crazy('ts1', element_layout=[1, 2], ts=1), crazy('ts2', element_layout=[2, 1], ts=2), crazy('trf1', element_layout=[2, 1], trf=1)]
MESH3 = [M('h112', 'crazy', dict(element_layout=[1, 2, 2], c=0., periodic=False), 3), M('hc', 'crazy', dict(element_layout=[1, 1, 3], c=.1, periodic=False), 3),
         M('hper', 'crazy', dict(element_layout=2, c=0., periodic=True), 3)]
SOLVERS = [['direct', {}], ['gmres', dict(restart=120, maxiter=8, atol=1e-11)], ['lgmres', dict(inner_m=80, outer_k=4, maxiter=12, atol=1e-11)]]


def items(tier):
    L = []
    for d in MESH + MESH3:
        Ns = [1, 2] if d['dim'] == 2 else [1]
        if tier != 'quick':
            Ns = [1, 2, 3] if d['dim'] == 2 else [1, 2]
        for N in Ns:
            L.append(dict(prog='forms', desc=d, N=N))
    box = [d for d in MESH if d['name'] in ('32', 'w', 'c23', 'turn')]
    for d in box:
        for N in (1, 2):
            for form in ('high', 'low', 'stokes'):
                if form == 'stokes' and tier == 'quick' and N == 2:
                    continue
                for o in ('outer', 'inner'):
                    for sides in (['x-'], ['x-', 'y+']) if tier == 'quick' else list(p23.subsets(2)):
                        kinds = p23.FORM[form].kinds
                        for ka, kb in itertools.product(kinds, repeat=2):
                            if form == 'stokes' and ({ka, kb} == {('u', 'w'), ('*p', '*u')} or (tier == 'quick' and ka == kb)):
                                continue
                            if p23.FORM[form].pin(ka, kb) is not None:
                                continue
                            if tier == 'quick' and o == 'inner' and len(sides) == 2:
                                continue
                            L.append(dict(prog='solve', desc=d, N=N, form=form, o=o, sides=sides, ka=ka, kb=kb, schemes=SOLVERS[:1] if form == 'stokes' else SOLVERS,
                                          matrix=int(N == 1 and form == 'high')))
    for d in [MESH3[0], MESH3[1]][:1 if tier == 'quick' else 2]:
        for ka, kb in ((('u',), ('*p',)), (('*p',), ('u',))):
            L.append(dict(prog='solve', desc=d, N=1, form='high', o='outer', sides=['x-', 'z+'], ka=ka, kb=kb, schemes=SOLVERS[:2], matrix=0))
    for d in MESH:
        if d['name'] in ('c23', 'w', 'cyl', 'turn'):
            L.append(dict(prog='flow', desc=d, N=1))
    for d in [crazy('32'), MESH3[0]]:
        L.append(dict(prog='values', desc=d, N=2 if d['dim'] == 2 else 1, points=[[.1, .2], [.7, .9], [.95, .4]] if d['dim'] == 2 else [[.1, .2, .3], [.6, .7, .8]]))
    for d in [crazy('c23', element_layout=[2, 3], c=.1), MESH[7], MESH3[0]]:
        for how in ('saveto', 'save'):
            L.append(dict(prog='io', desc=d, N=1, names=['inner0', 'outer1', 'inner1', 'outer2'] if d['dim'] == 2 else ['inner0', 'outer2', 'inner1'],
                          times=[0.5] if how == 'saveto' else [0.25, 0.5], how=how))
    return L


import itertools   # noqa


def ncells(d):
    return {'turn': 2, 'tq': 2, 'qt': 2, 'ts1': 2, 'ts2': 2, 'trf1': 2, 'hc': 3}.get(d['name'], 4)


def tasks(tier):
    L = items(tier)
    out = []
    for n in (2, 3, 4) if tier == 'quick' else (2, 3, 4, 5):
        mine = [i for i in L if ncells(i['desc']) >= min(n, 4)]
        parts_ = {2: 3, 3: 4, 4: 4, 5: 5}[n]
        for j in range(parts_):
            out.append(dict(n=n, items=mine[j::parts_]))
    return out


def alone(item):
    """the program in one process"""
    import mpi.programs as programs
    a, b = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(a)
        try:
            r = ('ok', programs.run(item))
        except BaseException as e:
            r = ('raise', type(e).__name__, str(e)[:300] + '\n' + ''.join(traceback.format_tb(e.__traceback__)[-4:]))
        with os.fdopen(b, 'wb') as f:
            pickle.dump(r, f)
        os._exit(0)
    os.close(b)
    with os.fdopen(a, 'rb') as f:
        raw = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(raw)


def key_of(n, i):
    s = [str(n), i['prog'], i['desc']['name'], f"N{i['N']}"]
    if i['prog'] == 'solve':
        s += [i['form'], i['o'], '|'.join(i['sides']), ','.join(i['ka']), ','.join(i['kb'])]
    if i['prog'] == 'io':
        s += [i['how']]
    return ':'.join(s)


def run(task, rec):
    from mpi.hub import World, Gone
    n = task['n']
    w = World(n)
    try:
        for item in task['items']:
            key = key_of(n, item)
            rec.state(key)
            rec.trace()
            try:
                if item['prog'] == 'io':
                    io(rec, key, w, item)
                else:
                    pair(rec, key, w, item, item)
            except (Gone, EOFError, OSError) as e:
                rec.bad(key + ':hangs', repr(e))
                w.close()
                w = World(n)
    finally:
        w.close()


def pair(rec, key, w, one, many, ref=None):
    if ref is None:
        ref = alone(one)
    if ref[0] == 'ok':
        many = dict(many, skip=[k for k, v in ref[1].items() if v[0] == 'refused'])
    res, calls, wrong = w.run(many)
    rec.step(calls)
    if ref[0] == 'ok' or not any(r[:2] == ref[:2] for r in res):
          if not rec.ok(wrong is None, key + ':meet', wrong):
            return
    if ref[0] == 'raise':
        # what one process refuses, several refuse
        rec.ok(not any(r[0] == 'ok' for r in res), key + ':refuses', f'one process raises {ref[1:]}, several give {[r[:2] for r in res]}')
        rec.outcome('refused ' + ref[1])
        return
    for i, r in enumerate(res):
        if not rec.ok(r[0] == 'ok', key + ':raises', f'rank {i}: {r[1:]}'):
            return
    compare(rec, key, ref[1], [r[1] for r in res])
    rec.outcome(many['prog'])
    return ref


def same(a, b, tol):
    if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
        return a == b
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * np.maximum(1, np.abs(b))))


def compare(rec, key, ref, many):
    for name, (kind, want) in ref.items():
        if kind == 'refused':
            continue
        k = f'{key}:{name}'
        tol = 1e-6 if 'gmres' in name else 1e-3 if name == 'condition' else 1e-8
        vals = []
        for i, m in enumerate(many):
            if not rec.ok(name in m and m[name][0] == kind, k, f'rank {i} does not have it'):
                break
            vals.append(m[name][1])
        else:
            if kind == 'same':
                for i, v in enumerate(vals):
                    rec.ok(same(v, want, tol), k, f'rank {i}: {v}, one process: {want}')
            elif kind == 'any':
                got = [v for v in vals if v is not None]
                rec.ok(bool(got), k, 'no rank has it')
                for v in got:
                    rec.ok(same(v, want, tol), k, f'{v}, one process: {want}')
            elif kind == 'set':
                rec.ok(sorted(x for v in vals for x in v) == sorted(want), k, lambda: f'together {sorted(x for v in vals for x in v)[:8]}, one process: {sorted(want)[:8]}')
            else:
                tot = {}
                for v in vals:
                    rec.ok(not set(v) & set(tot), k, 'a cell is in two ranks')
                    tot.update(v)
                if not rec.ok(set(tot) == set(want), k, f'cells {sorted(set(tot) ^ set(want))[:3]} are not in both'):
                    continue
                if kind == 'gm':
                    there, back = {}, {}
                    good = all(len(tot[c]) == len(want[c]) and all(there.setdefault(a, b) == b and back.setdefault(b, a) == a for a, b in zip(want[c], tot[c]))
                               for c in want)
                    rec.ok(good, k, 'the numbering is not a renumbering of the one of one process')
                    rec.ok(sorted(back) == list(range(len(back))), k, 'numbers are left out')
                else:
                    for c in want:
                        if not rec.ok(same(tot[c], want[c], tol * max(1, float(np.abs(want[c]).max(initial=0)))), k, lambda: f'cell at {c}: {tot[c]}, one process: {want[c]}'):
                            break


def io(rec, key, w, item):
    d = tempfile.mkdtemp(prefix='p06_')
    try:
        f1, fn = os.path.join(d, 'one'), os.path.join(d, 'many')
        S = dict(item, prog='save')
        ref = pair(rec, key + ':save', w, dict(S, file=f1), dict(S, file=fn))
        if ref is None:
            return
        R = dict(item, prog='load')
        if item['how'] == 'save':
            pair(rec, key + ':read own', w, dict(R, file=f1), dict(R, file=fn))
            return
        pair(rec, key + ':read own', w, None, dict(R, file=fn), ref)
        pair(rec, key + ':many read of one', w, None, dict(R, file=f1), ref)
        r = alone(dict(R, file=fn))
        if rec.ok(r[0] == 'ok', key + ':one reads of many', r[1:]):
            compare(rec, key + ':one reads of many', ref[1], [r[1]])
    finally:
        shutil.rmtree(d)
