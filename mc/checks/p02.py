"""Global numbering: same number <=> same functional; contiguous; chained numbering; locations; assembling."""
from checks.common import *
from scipy.spatial import cKDTree

ID = 'P02'
RULE = ('every mesh of the families (both implementations) x every degree of the list x every orientation and form '
        'order; the functional of each degree of freedom is identified by its values on six generic fields; all pairs '
        'and one triple of chained numberings; every global number is looked up; a state is one (mesh, degree, form)')
ASSUMPTIONS = ['two different functionals are told apart by six generic fields (separation > 1e-6)']
NF = 5


def tasks(tier):
    out = []
    for d in predefined2(tier) + refined2(tier) + fans(tier) + meshes3(tier) + mp.family(tier):
        for N in degrees_for(d, tier):
            if uniform_ok(d, N):
                out.append([d, N])
    for p in patches(tier):
        out.append([p, 2])
        if tier != 'quick':
            out.append([p, 3])
    return group(out)


def generic(desc, n):
    """generic fields; on a periodic domain sums of several modes without any translation symmetry"""
    per = period_of(desc)
    if per is None:
        return sequences(desc, n)
    w = [2 * np.pi / p for p in per]

    def f(i):
        c = [(1.0, (1, 0, 1), .3), (.8, (0, 1, 2), 1.1), (.7, (1, 1, 0), .5), (.6, (1, -1, 1), 2.2), (.5, (2, 1, -1), .9),
             (.4, (1, 2, 1), 3.1)]

        def g(t, *x):
            r = 0
            for j, (am, m, p0) in enumerate(c):
                r = r + am * np.sin(sum(m[q] * w[q] * x[q] for q in range(len(x))) + p0 + (1.7 + j * .61) * i * (j + 1))
            return r
        if desc['dim'] == 2:
            return lambda t, x, y: g(t, x, y)
        return (lambda t, x: g(t, x)) if desc['dim'] == 1 else (lambda t, x, y, z: g(t, x, y, z))
    out = []
    for i in range(n):
        for o in ('inner', 'outer'):
            for k in range(desc['dim'] + 1):
                cf = ph.vc.scalar(f(i)) if k in (0, desc['dim']) else ph.vc.vector(
                    *[f(i + 7 * q + 7) for q in range(desc['dim'])])
                out.append((o, k, cf, None))
    return out


def signatures(a, desc, tol):
    """name -> {element: (ndofs, NF) functional values}"""
    sig = {}
    for o, k, cf, _ in generic(desc, NF):
        n = f'{o}{k}'
        c = a.reduce(n, cf)
        sig.setdefault(n, []).append(c)
    return {n: {e: np.array([c[e] for c in cs]).T for e in a.elems} for n, cs in sig.items()}


def run(task, rec):
    run_group(one, task, rec)


def one(task, rec):
    desc, N = task
    N = deg(N)
    key = f"{desc['name']}|{N}"
    good, a = rec.guard(key + '|build', impl.make, desc, N)
    if not good:
        return
    tol = 1e-9 if not curved(desc) and not desc['kw'].get('periodic') else 1e-8
    S = signatures(a, desc, tol)
    GM = {}
    for n, sig in S.items():
        kk = f'{key}|{n}'
        g = GM[n] = a.gm(n)
        nd = a.ndofs(n)
        rec.state(kk)
        for e in a.elems:
            rec.ok(g[e].ndim == 1 and len(g[e]) == sig[e].shape[0], kk + '|len', f'element {e}: {len(g[e])} numbers, '
                   f'{sig[e].shape[0]} dofs')
            rec.ok(len(set(g[e].tolist())) == len(g[e]) or period_of(desc) is not None, kk + '|dup',
                   f'element {e} repeats a number')
        used = np.unique(np.concatenate([g[e] for e in a.elems]))
        rec.ok(len(used) == nd and used[0] == 0 and used[-1] == nd - 1, kk + '|contiguous',
               f'{len(used)} numbers in [{used[0]}, {used[-1]}], num_global_dofs={nd}')
        allg = np.concatenate([g[e] for e in a.elems])
        alls = np.concatenate([sig[e] for e in a.elems])
        order = np.argsort(allg, kind='stable')
        ag, as_ = allg[order], alls[order]
        first = np.searchsorted(ag, used)
        rep = as_[first]
        idx = np.searchsorted(used, ag)
        sp_ = np.abs(as_ - rep[idx])
        rec.step(len(ag))
        rec.ok(sp_.max() <= (2e-6 if 'cylinder' in str(desc.get('cfg')) else 1e-7), kk + '|same-number', lambda: 'one global number, different functionals: %d (%g)' % (
            ag[int(sp_.max(axis=1).argmax())], sp_.max()))
        if len(used) > 1:
            # scale to compare: ± the same functional under two numbers = missing identification
            both = np.concatenate([rep, -rep])
            t = cKDTree(both)
            d, j = t.query(rep, k=min(3, len(both)))
            m = np.arange(len(rep))
            other = np.where((j == m[:, None]) | (j == m[:, None] + len(rep)), np.inf, d).min(axis=1)
            sc = 1e-7
            rec.ok(other.min() > sc, kk + '|same-functional', lambda: 'one functional, different global numbers: %d (%g)'
                   % (used[int(other.argmin())], other.min()))
    lookup(a, desc, key, rec, GM)
    chains(a, desc, key, rec, GM)
    rec.trace()
    rec.sample(dict(mesh=desc['name'], degree=N, dofs={n: a.ndofs(n) for n in GM}))


def positions(a, g):
    pos = {}
    for e in a.elems:
        for i, x in enumerate(g[e].tolist()):
            pos.setdefault(x, []).append((e, i))
    return pos


def lookup_one(a, gm, g, nd, kk, rec):
    """gm: the object, g: {e: numbering}"""
    pos = positions(a, g)
    some = sorted(pos)
    step = max(1, len(some) // 40)
    pick = some[::step] + [some[-1]]
    if a.kind == 'msehtt':
        for d in pick:
            good, r = rec.guard(kk + '|find', gm.find_rank_locations_of_global_dofs, d)
            if good:
                rec.ok(sorted(((e, int(i)) for e, i in r[d]), key=str) == sorted(pos[d], key=str), kk + '|find', f'dof {d}: {r[d]} not {pos[d]}')
            good, r = rec.guard(kk + '|nloc', gm.num_global_locations, d)
            if good:
                rec.ok(r == len(pos[d]), kk + '|nloc', f'dof {d}: {r} locations, not {len(pos[d])}')
            good, r = rec.guard(kk + '|rep', gm.find_representative_location, d)
            if good:
                rec.ok(r[0] == 0 and r[1] in [e for e, _ in pos[d]], kk + '|rep', f'dof {d}: {r}')
        for sel in (pick, pick[::-1], pick[:1], pick):
            good, r = rec.guard(kk + '|findmany', gm.find_rank_locations_of_global_dofs, list(sel))
            if good:
                for d in sel:
                    rec.ok(sorted(((e, int(i)) for e, i in r.get(d, [])), key=str) == sorted(pos[d], key=str), kk + '|findmany', f'dof {d}')
        good, r = rec.guard(kk + '|find-1', gm.find_rank_locations_of_global_dofs, -1)
        if good:
            rec.ok(list(r) == [nd - 1] and sorted(r[nd - 1], key=str) == sorted(pos[nd - 1], key=str), kk + '|find-1', f'{r}')
        rec.ok(gm.num_rank_dofs == nd and len(gm) == len(a.elems) and gm.num_global_elements == len(a.elems), kk + '|counts')
        E0 = a.elems[-1]
        r = gm.find_global_numbering_of_local_dofs([E0, a.elems[0]], [0, len(g[a.elems[0]]) - 1])
        rec.ok(r[(E0, 0)] == g[E0][0] and r[(a.elems[0], len(g[a.elems[0]]) - 1)] == g[a.elems[0]][-1], kk + '|findlocal')
    else:
        for sel in (pick, pick[:1], [some[-1]], pick):
            good, r = rec.guard(kk + '|find', gm._find_elements_and_local_indices_of_dofs, list(sel))
            if good:
                for d in sel:
                    got = sorted((int(e), int(i)) for e, i in zip(*r[d]))
                    rec.ok(got == sorted(pos[d]), kk + '|find', f'dof {d}: {got} not {pos[d]}')
        good, r = rec.guard(kk + '|find-1', gm._find_elements_and_local_indices_of_dofs, -1)
        if good:
            rec.ok(sorted((int(e), int(i)) for e, i in zip(*r[nd - 1])) == sorted(pos[nd - 1]), kk + '|find-1', f'{r}')
        E0 = a.elems[-1]
        L = list(range(min(3, len(g[E0]))))
        r = gm._find_global_numbering([E0], [L])
        rec.ok([int(x) for x in r] == sorted(set(g[E0][L].tolist())), kk + '|findlocal', str(r))
    # assemble: replace
    val = {e: np.array([float(x) * 0.5 + 1 for x in g[e]]) for e in a.elems}
    data = val if a.kind == 'msehtt' else np.array([val[e] for e in a.elems])
    good, v = rec.guard(kk + '|assemble', gm.assemble, data)
    if good:
        rec.close(v, np.arange(nd) * 0.5 + 1, 0, kk + '|assemble', 'assemble(replace)')


def gmobj(a, n):
    return a.forms[n].cochain.gathering_matrix


def lookup(a, desc, key, rec, GM):
    for n in GM:
        lookup_one(a, gmobj(a, n), GM[n], a.ndofs(n), f'{key}|{n}', rec)


def chains(a, desc, key, rec, GM):
    ns = sorted(GM)
    combos = [(x, y) for x in ns for y in ns if x <= y] + [(ns[-1], ns[0])]
    combos.append((ns[0], ns[1], ns[-1]))
    combos.append((ns[1],))
    if len(a.elems) > 30:
        combos = combos[::4] + combos[-2:]
    for c in combos:
        kk = f'{key}|chain{"+".join(c)}'
        objs = [gmobj(a, n) for n in c]
        good, cg = rec.guard(kk, objs[0].__class__, objs)
        if not good:
            continue
        rec.state(kk)
        g = {e: np.asarray(cg[e]) for e in a.elems}
        fwd, bwd = {}, {}
        okay = True
        for e in a.elems:
            pairs = [(i, int(x)) for i, n in enumerate(c) for x in GM[n][e]]
            if len(pairs) != len(g[e]):
                okay = False
                break
            for p, x in zip(pairs, g[e].tolist()):
                if fwd.setdefault(p, x) != x or bwd.setdefault(x, p) != p:
                    okay = False
        nd = sum(a.ndofs(n) for n in c)
        rec.ok(okay, kk + '|bijection', 'chained numbering is not a renumbering of (form, dof)')
        rec.ok(sorted(bwd) == list(range(nd)), kk + '|contiguous', f'{len(bwd)} numbers for {nd}')
        n2 = cg.num_global_dofs if a.kind == 'msehtt' else cg.num_dofs
        rec.ok(n2 == nd, kk + '|num', f'{n2} != {nd}')
        rec.step(len(bwd))
        if not okay:
            continue
        lookup_one(a, cg, g, nd, kk, rec)
        if a.kind == 'msehtt':
            for i, n in enumerate(c):
                L = a.ndofs(n)
                for d in sorted({0, L // 2, L - 1}):
                    good, r = rec.guard(kk + '|ith-global', cg.find_global_numbering_of_ith_composition_global_dof, i, d)
                    if good:
                        rec.ok(r == fwd[(i, d)], kk + '|ith-global', f'{n} dof {d}: {r} not {fwd[(i, d)]}')
                e = a.elems[-1]
                j = len(GM[n][e]) - 1
                r = cg.find_global_numbering_of_ith_composition_local_dof(i, e, j)
                rec.ok(r == fwd[(i, int(GM[n][e][j]))], kk + '|ith-local', f'{n}')
            data = {e: np.arange(len(g[e])) + 100. for e in a.elems}
            parts = cg.split(data)
            for e in a.elems:
                rec.close(np.concatenate([p[e] for p in parts]), data[e], 0, kk + '|split')
                for i, n in enumerate(c):
                    rec.ok(len(parts[i][e]) == len(GM[n][e]), kk + '|split-len')
            again = objs[0].__class__(objs)
            rec.ok((again == cg) and all(np.array_equal(again[e], g[e]) for e in a.elems), kk + '|again')
            if len(c) == 2 and c[0] != c[1]:
                rec.ok(not (objs[0] == objs[1]) or all(np.array_equal(GM[c[0]][e], GM[c[1]][e]) for e in a.elems), kk + '|eq')
        else:
            for m in (0, 1):
                good, cg2 = rec.guard(kk + f'|method{m}', objs[0].__class__, objs, chaining_method=m)
                if good:
                    f2 = {}
                    okay = True
                    for e in a.elems:
                        pairs = [(i, int(x)) for i, n in enumerate(c) for x in GM[n][e]]
                        for p, x in zip(pairs, np.asarray(cg2[e]).tolist()):
                            okay &= f2.setdefault(p, x) == x
                    rec.ok(okay and sorted(f2.values()) == list(range(nd)), kk + f'|method{m}')
