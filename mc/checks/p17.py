"""Saving and reading gives back the same objects."""
import itertools
import os
import pickle
import shutil
import tempfile
from checks.common import *
from checks.p22 import forked
from meshes import perms_coo, rot
import impl
import phyem as ph

ID = 'P17'
LEVEL = 'model_checking'
RULE = ('every history of a form (sequences of instants that are set, overwritten or cleaned) x every way to save it x every reader: the same '
        'form, a form with a history of its own, a fresh process on the same mesh, on the same cells in another order / with turned vertex '
        'lists / other vertex numbers, on other meshes, with other degrees, orders and orientations: the coefficients are the same (or the '
        'field is), or reading refuses and changes nothing; great meshes, msepy forms, region-wise data and groups, functions')
ASSUMPTIONS = ['one process (MPI: see P06)', 'automatic cleaning of cochains is off where a history has more instants than it keeps']
TIMEOUT = {'quick': 300, 'thorough': 2000}
G = np.array([-.7, -.2, .2, .7])

SQ = {'a': [0, 0], 'b': [1.1, 0.1], 'c': [0.9, 1.2], 'd': [-0.1, 0.8], 'e': [2.0, -0.2], 'f': [2.2, 1.0]}
TRI = {'a': [0, 0], 'b': [1, 0], 'c': [1, 1], 'd': [0, 1], 'e': [2, 0.5]}


def quads(name, A='abcd', B='befc', order='abcdef', swap=False):
    cells = [list(A), list(B)]
    return tqr(name, cells[::-1] if swap else cells, perms_coo(SQ, order))


QUADS = [quads('q'), quads('q-swap', swap=True), quads('q-renum', order='fedcba'), quads('q-renum2', order='cbadef'),
         quads('q-turn1', A='bcda'), quads('q-turn2', A='cdab'), quads('q-turnB', B='efcb'), quads('q-turnAB', A='dabc', B='fcbe'),
         quads('q-one', B='bef' 'c', order='bacdfe')]
RECT = [M('r22', 'crazy', dict(element_layout=2, c=0., periodic=False)), M('r22b', 'crazy', dict(element_layout=[[1, 1.5], 2], c=0., periodic=False)),
        M('r44', 'crazy', dict(element_layout=4, c=0., periodic=False)), M('r22c', 'crazy', dict(element_layout=2, c=0.1, periodic=False)),
        M('r22p', 'rectangle', dict(element_layout=2))]
CURVED = [M('c22', 'crazy', dict(element_layout=2, c=0.1, periodic=False)), M('c22b', 'crazy', dict(element_layout=2, c=0.12, periodic=False)),
          M('c23', 'crazy', dict(element_layout=[2, 3], c=0.1, periodic=False))]
SMALL = [M('small', 'crazy', dict(element_layout=[20, 2], c=0., periodic=False, bounds=[[0, 1e-3], [0, 1e-3]])),
         M('smallc', 'crazy', dict(element_layout=[20, 2], c=.05, periodic=False, bounds=[[0, 1e-3], [0, 1e-3]]))]
TRIS = [tqr('tq', [list('abcd'), list('bec')], TRI), tqr('tq-swap', [list('bec'), list('abcd')], TRI),
        tqr('tq-renum', [list('abcd'), list('bec')], perms_coo(TRI, 'edcba'))]
HEX = [M('h', 'crazy', dict(element_layout=[1, 2, 1], c=0., periodic=False), 3), M('hc', 'crazy', dict(element_layout=[1, 2, 1], c=.1, periodic=False), 3),
       M('h2', 'crazy', dict(element_layout=[2, 1, 1], c=0., periodic=False), 3)]
SMALL3 = [M('small3', 'crazy', dict(element_layout=[12, 1, 1], c=0., periodic=False, bounds=[[0, 4e-3], [0, 1], [0, 1]]), 3)]
GROUPS = dict(quads=QUADS, rect=RECT, curved=CURVED, small=SMALL, tris=TRIS, hex=HEX, small3=SMALL3)
PY = [mp.D('p22', 'crazy', [2, 3], c=0.1, periodic=False, bounds=[[0, 1], [0, 1]]), mp.D('multi', 'crazy_multi', [2, 1], c=0.05, periodic=False, bounds=[[0, 1], [0, 1]]),
      mp.D('p1', 'crazy', 3, dim=1, c=0.1, periodic=False, bounds=[[0, 1.5]]),
      mp.D('p3', 'crazy', [2, 1, 1], dim=3, c=0.1, periodic=False, bounds=[[0, 1], [0, 1], [0, 1.5]])]

def conflict(d):
    """different degrees of two cells meet at a side (or the degrees of a triangle differ)"""
    return d['name'][:2] == 'tq' or 'turn' in d['name'] or 'one' in d['name']


# histories: instants in the order they are set; -t: set again with other values; 'c': clean(t) of the instant before
HIST = [[], [.5], [1., .5], [0., 1., 2.], [2., 0., 1.], [0., 1., -1.], [-0.25, 0.125], [1 / 3, 2 / 3]]
LONG = [[3., 1., 2., 5., 4.], [0.] + [i / 7 for i in range(1, 9)]]
WHAT = [None, 1, 2, 7]


def tasks(tier):
    out = []
    for g, ds in GROUPS.items():
        for d in ds:
            Ns = [1, 2, [2, 3], [3, 2]] if d['dim'] == 2 else [1, 2]
            if g.startswith('small'):
                Ns = [1]
            if d['dim'] == 3 and tier == 'thorough':
                Ns += [[1, 2, 3]]
            for N in Ns:
                if isinstance(N, list) and conflict(d):
                    continue
                if tier == 'quick' and g not in ('quads', 'rect') and N == [3, 2]:
                    continue
                out.append(dict(kind='forms', group=g, desc=d, N=N, Ns=Ns))
    for ds in GROUPS.values():
        for d in ds:
            out.append(dict(kind='phm', desc=d))
    for d in PY:
        for N in (1, 2) if tier == 'quick' else (1, 2, 3):
            out.append(dict(kind='msepy', desc=d, N=N))
    for d in PY[:2] + [RECT[0], CURVED[0], QUADS[0], HEX[1]]:
        for N in (1, 2):
            out.append(dict(kind='rws', desc=d, N=N))
    out.append(dict(kind='dds'))
    return out


def run(task, rec):
    d = tempfile.mkdtemp(prefix='p17_')
    try:
        dict(forms=forms, phm=phm, msepy=msepy, rws=rws, dds=dds)[task['kind']](task, rec, d)
    finally:
        shutil.rmtree(d)


# ------------------------------------------------------------------------------------------------ msehtt forms
def set_values(A, name, t, seed):
    rng = np.random.default_rng(seed)
    gm = A.gm(name)
    x = rng.standard_normal(max(int(g.max()) for g in gm.values()) + 1)
    A.forms[name][t].cochain = {e: x[gm[e]] for e in A.elems}


def snapshot(A, name):
    """{instant: {cell: coefficients}}"""
    F = A.forms[name]
    out = {}
    for t in sorted(F.cochain._tcd):
        c = F[t].cochain
        out[float(t)] = {e: np.array(c[e]) for e in A.elems}
    return out


def field(A, name, t):
    """{point: value}"""
    out = {}
    x, v = A.forms[name][t].reconstruct(*[G] * A.dim, ravel=True)
    X = np.concatenate([np.array([c[e] for c in x]) for e in A.elems], axis=1)
    V = np.concatenate([np.array([c[e] for c in v]) for e in A.elems], axis=1)
    for p, q in zip(X.T, V.T):
        out[tuple(np.round(p, 9) + 0.)] = q
    return out


def histories(A, rec=None):
    L = []
    for fi, name in enumerate(sorted(A.forms)):
        for hi, h in enumerate(HIST + LONG):
            for what in WHAT if h else [None]:
                L.append((name, hi, h, what))
    return L


def play(A, name, h, seed):
    A.forms[name].cochain._tcd.clear()
    A.forms[name].cochain._newest_t = None
    for j, t in enumerate(h):
        set_values(A, name, abs(t) if t < -.5 else t, seed + j)


def write(rec, task, d):
    ph.config.set_auto_cleaning(False)
    A = impl.make(task['desc'], deg(task['N']))
    idx = []
    for i, (name, hi, h, what) in enumerate(histories(A)):
        try:
            play(A, name, h, 10 * hi)
        except NotImplementedError:
            continue
        before = snapshot(A, name)
        fn = os.path.join(d, f'f{i}')
        A.forms[name].saveto(fn, **({} if what is None else dict(what=what)))
        rec.step()
        key = f"{task['desc']['name']}:N{task['N']}:{name}:h{hi}:what{what}"
        after = snapshot(A, name)
        same(rec, key + ':source', before, after, 'saving changes the form')
        want = before if what is None else {t: before[t] for t in sorted(before)[-what:]}
        flds = None
        if what is None and hi in (2, 3):
            try:
                flds = {t: field(A, name, t) for t in want}
            except NotImplementedError:
                pass
        idx.append((name, hi, h, what, fn, want, flds, key))
        if what is None and want and hasattr(A.forms[name], '_make_cache_data'):      # what the iterator stores of the form
            with open(fn + '.cache', 'wb') as f:
                pickle.dump(A.forms[name]._make_cache_data(), f)
            same(rec, key + ':cache source', before, snapshot(A, name), 'making cache data changes the form')
        # read into the same form: after everything else has changed
        try:
            play(A, name, [9.] + [abs(t) for t in h[:1]], 77)
            mid = snapshot(A, name)
            A.forms[name].read(fn)
        except Exception as e:
            if want or not isinstance(e, AssertionError):
                rec.bad(key + ':self', f'reading raises {e!r}'[:200])
            continue
        mid.update(want)
        same(rec, key + ':self', mid, snapshot(A, name), 'reading into the same form')
        if want:
            rec.ok(float(A.forms[name].cochain.newest) == max(mid), key + ':newest', f'newest instant {A.forms[name].cochain.newest}')
    with open(os.path.join(d, 'index'), 'wb') as f:
        pickle.dump(idx, f)


def same(rec, key, a, b, what):
    if not rec.ok(sorted(a) == sorted(b), key + ':instants', f'{what}: instants {sorted(b)} instead of {sorted(a)}'):
        return
    for t in a:
        ok = a[t].keys() == b[t].keys() and all(np.array_equal(a[t][e], b[t][e]) for e in a[t])
        rec.ok(ok, f'{key}:values', f'{what}: coefficients at {t}')


def reader(rec, task, d, desc, N, exact):
    """fresh process; `exact`: the same mesh and degree"""
    ph.config.set_auto_cleaning(False)
    try:
        A = impl.make(desc, deg(N))
    except NotImplementedError:
        return rec.outcome('no mesh')
    with open(os.path.join(d, 'index'), 'rb') as f:
        idx = pickle.load(f)
    for name, hi, h, what, fn, want, flds, key in idx:
        for other in sorted(A.forms):
            if other == name and N == task['N']:
                cached(rec, A, name, fn, want, flds, key, exact, f"{key}->{desc['name']}:cache")
            if exact and other == name:
                play(A, other, [], 0)
                A.forms[other].read(fn)
                rec.step()
                rec.state(key, 'exact')
                same(rec, key + ':fresh', want, snapshot(A, other), 'fresh process')
                if hi == 3:
                    play(A, other, [.625, 1.], 99)
                    own = snapshot(A, other)
                    A.forms[other].read(fn)
                    own.update(want)
                    same(rec, key + ':merge', own, snapshot(A, other), 'form with a history of its own')
                continue
            if what is not None or hi not in (2, 3):
                continue
            k2 = f"{key}->{desc['name']}:N{N}:{other}"
            rec.state(k2)
            play(A, other, [.625, 1.], 99)
            own = snapshot(A, other)
            try:
                A.forms[other].read(fn)
            except Exception:
                rec.outcome('refused')
                same(rec, k2 + ':refused', own, snapshot(A, other), 'a refused reading')
                continue
            rec.step()
            now = snapshot(A, other)
            if not rec.ok(set(now) == set(own) | set(want), k2 + ':instants', f'instants {sorted(now)}'):
                continue
            try:
                rec.outcome('accepted')
                for t in want:
                    compare(rec, A, other, t, flds, k2)
            except NotImplementedError:
                rec.outcome('no field')


def cached(rec, A, name, fn, want, flds, key, exact, k2):
    """the iterator gives a form its cached data"""
    if not os.path.exists(fn + '.cache'):
        return
    rec.state(k2)
    for mine in ([], [.625, 1.]):
        play(A, name, mine, 99)
        own = snapshot(A, name)
        with open(fn + '.cache', 'rb') as f:
            data = pickle.load(f)
        try:
            A.forms[name]._read_cache_data(data)
        except Exception as e:
            if exact:
                rec.bad(k2, f'reading cached data raises {e!r}'[:200])
            rec.outcome('refused')
            same(rec, k2 + ':refused', own, snapshot(A, name), 'a refused reading')
            continue
        rec.step()
        t = max(want)
        now = snapshot(A, name)
        if exact:
            own[t] = want[t]
            same(rec, k2, own, now, 'cached data')
        elif rec.ok(set(now) == set(own) | {t}, k2 + ':instants', f'instants {sorted(now)}'):
            compare(rec, A, name, t, flds, k2)


def compare(rec, A, name, t, flds, key):
    if flds is None:
        return
    f = field(A, name, t)
    a = flds[t]
    miss = [p for p in f if p not in a]
    if not rec.ok(not miss, key + ':domain', 'accepted, although there are no such cells in the file'):
        return
    p0 = next(iter(f))
    if not rec.ok(len(f[p0]) == len(a[p0]), key + ':field', 'a field of another kind'):
        return
    dev = max(np.abs(f[p] - a[p]).max() for p in f)
    sc = max(np.abs(v).max() for v in a.values())
    rec.close(dev / max(sc, 1e-12), 0., 1e-8, key + ':field', f'the field at {t} is another one')


def forms(task, rec, d):
    key = f"{task['desc']['name']}:N{task['N']}"
    rec.trace()
    forked(write, rec, task, d)
    if not os.path.exists(os.path.join(d, 'index')):
        return rec.bad(key + ':write', 'nothing was written')
    for desc in GROUPS[task['group']]:
        for N in task['Ns']:
            if isinstance(N, list) and conflict(desc):
                continue
            ex = desc is task['desc'] or desc == task['desc']
            forked(reader, rec, task, d, desc, N, ex and N == task['N'])


# ------------------------------------------------------------------------------------------------- great meshes
def mesh_of(A):
    E = A.tgm.elements
    return {e: (str(E[e].etype), [str(x) for x in E[e].map_], np.array(E[e].ct.mapping(*impl.flat(*[G] * A.dim)))) for e in A.elems}


def phm(task, rec, d):
    key = f"{task['desc']['name']}:phm"
    rec.state(key)
    rec.trace()
    fn = os.path.join(d, 'mesh.phm')
    assert fn.count('.') == 1

    def save(rec, *_):
        A = impl.make(task['desc'], 2)
        try:
            A.tgm.saveto(fn)
        except Exception as e:
            rec.outcome('refused')
            return None
        rec.step()
        for n in A.forms:
            set_values(A, n, .5, 3)
            A.forms[n].saveto(os.path.join(d, n))
        gms = {n: {e: np.array(v) for e, v in A.gm(n).items()} for n in A.forms}
        return mesh_of(A), gms, {n: snapshot(A, n) for n in A.forms}

    want = forked(save, rec)
    if want is None:
        return

    def load(rec, *_):
        try:
            A = impl.make(dict(task['desc'], cfg=fn, kw={}), 2)
        except NotImplementedError:                                 # reading meshes of 3d
            return rec.outcome('refused')
        rec.step()
        m = mesh_of(A)
        if not rec.ok(set(m) == set(want[0]), key + ':cells', f'cells {sorted(m)[:9]}'):
            return
        for e in m:
            rec.ok(m[e][0] == want[0][e][0] and m[e][1] == want[0][e][1], key + ':maps', f'type or map of cell {e}')
            rec.close(m[e][2], want[0][e][2], 1e-14, key + ':geometry', f'cell {e}')
        for n in A.forms:
            g = A.gm(n)
            rec.ok(all(np.array_equal(g[e], want[1][n][e]) for e in g), f'{key}:{n}:gm', 'numbering')
            A.forms[n].read(os.path.join(d, n))
            same(rec, f'{key}:{n}', want[2][n], snapshot(A, n), 'form on the mesh that was read')
    forked(load, rec)


# --------------------------------------------------------------------------------------------------------- msepy
def msepy(task, rec, d):
    key = f"{task['desc']['name']}:N{task['N']}:msepy"
    rec.trace()

    def save(rec, *_):
        A = impl.make(task['desc'], task['N'])
        names = sorted(A.forms)
        out = []
        subsets = [[n] for n in names] + [names[:2], names[::-1], names]
        for i, s in enumerate(subsets):
            for j, h in enumerate(HIST[1:6]):
                for n in s:
                    A.forms[n].cochain._tcd.clear()
                    A.forms[n].cochain._newest_t = None
                    for q, t in enumerate(h):
                        rng = np.random.default_rng(100 * i + 10 * j + q + len(n))
                        gm = A.gm(n)
                        x = rng.standard_normal(A.ndofs(n))
                        A.put(n, {e: x[gm[e]] for e in A.elems}, t=abs(t))
                fn = os.path.join(d, f's{i}_{j}')
                ph.save(*[A.forms[n] for n in s], filename=fn)
                rec.step()
                keys = {n: A.forms[n].abstract._pure_lin_repr for n in s}
                snap = {keys[n]: {float(t): np.array(A.forms[n][t].cochain.local) for t in A.forms[n].cochain._tcd} for n in s}
                rc = {keys[n]: A.rec(n, *[G] * A.dim, t=abs(h[-1])) for n in s}
                out.append((fn, snap, rc, abs(h[-1])))
                got = ph.read(fn)
                check(rec, A.dim, A.elems, got, snap, rc, abs(h[-1]), f'{key}:{i}:{j}:same')
        return out

    want = forked(save, rec)

    def load(rec, *_):
        ph.config.set_embedding_space_dim(task['desc']['dim'])     # a setting of the session, like in every program
        for i, (fn, snap, rc, t) in enumerate(want):
            rec.state(key, i)
            got = ph.read(fn)
            rec.step()
            check(rec, task['desc']['dim'], None, got, snap, rc, t, f'{key}:{i}:fresh')
    if want:
        forked(load, rec)


def check(rec, dim, elems, got, snap, rc, t, key):
    if not rec.ok(set(got) == set(snap), key + ':keys', f'{sorted(got)} instead of {sorted(snap)}'):
        return
    for n, f in got.items():
        have = {float(x): np.array(f[x].cochain.local) for x in f.cochain._tcd}
        if rec.ok(sorted(have) == sorted(snap[n]), key + ':instants', f'{sorted(have)}'):
            rec.ok(all(np.array_equal(have[x], snap[n][x]) for x in have), key + ':values', 'coefficients')
        kw = {} if dim == 1 else dict(ravel=True)
        if not rc[n]:
            continue
        x, v = f[t].reconstruct(*[G] * dim, **kw)
        for e in rc[n]:
            rec.close(np.array([c[e] for c in x]), rc[n][e][0], 1e-13, key + ':points', 'points')
            rec.close(np.array([c[e] for c in v]), rc[n][e][1], 1e-12, key + ':field', 'field')


# --------------------------------------------------------------------------------------------- region-wise data
def plain(x):
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return np.array(x)


def equal(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    return a.dtype == b.dtype and np.array_equal(a, b)


def raw(D):
    return plain(D._coo_dict_list), plain(D._val_dict_list)


def rws(task, rec, d):
    key = f"{task['desc']['name']}:N{task['N']}:rws"
    rec.trace()

    def save(rec, *_):
        A = impl.make(task['desc'], task['N'])
        out = []
        for n in sorted(A.forms):
            try:
                x = np.random.default_rng(4).standard_normal(A.ndofs(n))
                A.put(n, {e: x[A.gm(n)[e]] for e in A.elems}, t=.5)
                F = A.forms[n]
                for ddf in (1, 2):
                    D = F.numeric.rws(.5, ddf=ddf) if A.kind == 'msehtt' else F.numeric.dds.rws(.5, ddf=ddf)
                    fn = os.path.join(d, f'{n}-{ddf}')
                    D.saveto(fn)
                    if A.kind == 'msehtt':
                        F[.5].export.rws(fn + 'x', ddf=ddf)
                        rec.ok(equal(list(raw(ph.read(fn + 'x'))), list(raw(D))), f'{key}:{n}:export', 'export.rws is not numeric.rws')
                    rec.step()
                    out.append((fn, list(raw(D)), D.dtype, D.ndim))
            except (NotImplementedError, TypeError) as e:
                rec.outcome(f'refused {type(e).__name__}')
        return out
    want = forked(save, rec) or []

    def load(rec, *_):
        for fn, r, dt, nd in want:
            D = ph.read(fn)
            rec.step()
            k = f'{key}:{os.path.basename(fn)}'
            rec.state(k)
            rec.ok(equal(list(raw(D)), r), k + ':values', 'data that are read')
            rec.ok((D.dtype, D.ndim) == (dt, nd), k + ':type', f'{D.dtype}, {D.ndim}')
    forked(load, rec)


def dds(task, rec, d):
    from phyem.tools.dds.region_wise_structured import DDSRegionWiseStructured as DDS
    from phyem.tools.dds.region_wise_structured_group import DDS_RegionWiseStructured_Group as GR
    rng = np.random.default_rng(2)
    for dim in (2, 3):
        for nreg in (1, 2):
            shape = {r: tuple(int(x) for x in rng.integers(2, 5, dim)) for r in range(nreg)}
            coo = [{r: rng.random(shape[r]) for r in shape} for _ in range(dim)]
            var = {n: [{r: rng.random(shape[r]) for r in shape} for _ in range(c)] for n, c in (('p', 1), ('velo', dim), ('q r', 1))}
            for n, v in var.items():
                key = f'dds:{dim}:{nreg}:{n}'
                rec.state(key)
                rec.trace()
                D = DDS(coo, v)
                fn = os.path.join(d, f'd{dim}{nreg}')
                D.saveto(fn)
                R = ph.read(fn)
                rec.step()
                rec.ok(isinstance(R, DDS) and equal(list(raw(R)), list(raw(D))), key, 'data')
                rec.ok((R.dtype, R.ndim) == (D.dtype, D.ndim), key + ':type', 'type')
            for k in range(1, 4):
                for ns in itertools.permutations(var, k):
                    for named in (True, False):
                        key = f"group:{dim}:{nreg}:{','.join(ns)}:{named}"
                        rec.state(key)
                        rec.trace()
                        D = GR(coo, {n: var[n] for n in ns} if named else [var[n] for n in ns])
                        fn = os.path.join(d, 'g')
                        D.saveto(fn)
                        R = ph.read(fn)
                        rec.step()
                        if not rec.ok(isinstance(R, GR) and list(R._value_names) == list(D._value_names), key + ':names',
                                      f'names {list(R._value_names)} instead of {list(D._value_names)}'):
                            continue
                        for n in D._value_names:
                            rec.ok(equal(list(raw(R[n])), list(raw(D[n]))), key + ':' + n, 'data')
                            rec.ok(R[n].dtype == D[n].dtype, key + ':type', 'type')
