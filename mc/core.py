"""The explorer core.

A check is a module with

    ID       property id
    RULE     how the space is enumerated (one paragraph)
    tasks(tier) -> list of JSON-able task descriptors, enumerated completely and deterministically
    run(task, rec) -> explore that part of the space on the real code, reporting into ``rec``

Every task runs in its own freshly forked process (so no task sees the caches another one filled),
eight at a time.  Nothing is sampled: the whole list is always run.  A task that dies, hangs or lets
an exception escape is a violation (the explored calls are all required to work).
"""
import os
import sys
import json
import time
import hashlib
import pickle
import signal
import select
import traceback
import importlib

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
EVID = os.path.join(VERIF, 'evidence')
NPROC = int(os.environ.get('VERIF_JOBS', '8'))


def h(obj):
    return hashlib.blake2b(repr(obj).encode(), digest_size=8).hexdigest()


class Rec:
    """What one task observed."""
    MAXV = 100

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.decisions = 0
        self.outcomes = {}
        self.samples = []
        self.viol = []
        self.nviol = 0
        self.notes = []

    # coverage
    def state(self, *key):
        """register a state; True if it is new for this task"""
        k = h(key)
        if k in self.states:
            return False
        self.states.add(k)
        return True

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, name):
        self.outcomes[name] = self.outcomes.get(name, 0) + 1

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(obj)

    # decisions
    def bad(self, key, what):
        self.nviol += 1
        if len(self.viol) < self.MAXV and not any(v[0] == str(key) for v in self.viol):
            self.viol.append([str(key), str(what)[:1500]])

    def ok(self, cond, key, what=''):
        self.decisions += 1
        if not cond:
            self.bad(key, what() if callable(what) else what)
            return False
        return True

    def close(self, a, b, tol, key, what=''):
        import numpy as np
        self.decisions += 1
        try:
            a = np.asarray(a, dtype=float)
            b = np.asarray(b, dtype=float)
            if a.shape != b.shape:
                a, b = np.broadcast_arrays(a, b)
            d = np.abs(a - b)
            good = bool(np.all(np.isfinite(d))) and (d.size == 0 or float(d.max()) <= tol)
        except Exception as e:
            self.bad(key, f'{what}: not comparable: {e!r}')
            return False
        if not good:
            self.bad(key, f'{what}: max|a-b|={d.max() if d.size else None} > {tol}')
        return good

    def guard(self, key, fn, *a, **k):
        """Call fn; an escaping exception is a violation.  Returns (worked, value)."""
        self.decisions += 1
        self.transitions += 1
        try:
            return True, fn(*a, **k)
        except Exception as e:
            self.bad(f'{key}:raise:{type(e).__name__}', f'{key}: raised {e!r}\n' + tb_tail(e))
            return False, None

    def raises(self, key, fn, *a, **k):
        """fn must refuse (raise)."""
        self.decisions += 1
        self.transitions += 1
        try:
            v = fn(*a, **k)
        except Exception:
            return True
        self.bad(key, f'{key}: accepted, returned {v!r}'[:300])
        return False


def tb_tail(e, n=6):
    return ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-n:])


def _child(mod, task, wfd):
    rec = Rec()
    try:
        mod.run(task, rec)
    except BaseException as e:
        rec.bad(f'{short(task)}:raise:{type(e).__name__}', 'task raised ' + repr(e) + '\n' + tb_tail(e))
    data = pickle.dumps(dict(states=rec.states, transitions=rec.transitions, traces=rec.traces,
                             decisions=rec.decisions, outcomes=rec.outcomes, samples=rec.samples,
                             viol=rec.viol, nviol=rec.nviol, notes=rec.notes))
    with os.fdopen(wfd, 'wb') as f:
        f.write(data)
        f.flush()


def short(task):
    s = json.dumps(task, separators=(',', ':'), default=str)
    return s if len(s) <= 160 else s[:120] + '#' + h(s)


def explore(mod, tasks, timeout, quiet=False):
    """Run all the tasks, at most NPROC at a time.  Returns list of (task index, result or error)."""
    results = {}
    running = {}   # fd -> (pid, idx, buf, t0)
    todo = list(range(len(tasks)))[::-1]
    tries = {}
    devnull = os.open(os.devnull, os.O_WRONLY)
    while todo or running:
        while todo and len(running) < NPROC:
            i = todo.pop()
            r, w = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    os.setpgid(0, 0)
                    if quiet:
                        os.dup2(devnull, 1)
                        os.dup2(devnull, 2)
                    _child(mod, tasks[i], w)
                finally:
                    os._exit(0)
            os.close(w)
            running[r] = [pid, i, bytearray(), time.time()]
        rl, _, _ = select.select(list(running), [], [], 1.0)
        now = time.time()
        for fd in list(running):
            pid, i, buf, t0 = running[fd]
            done = False
            if fd in rl:
                d = os.read(fd, 1 << 20)
                if d:
                    buf += d
                else:
                    done = True
            timed_out = False
            if not done and now - t0 > timeout:
                timed_out = True
                done = True
            if done:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    try:
                        os.kill(pid, signal.SIGKILL)
                    except OSError:
                        pass
                os.close(fd)
                _, st = os.waitpid(pid, 0)
                del running[fd]
                try:
                    res = pickle.loads(bytes(buf)) if buf and not timed_out else None
                except Exception:
                    res = None
                if res is not None:
                    res['wall'] = now - t0
                if res is None:
                    tries[i] = tries.get(i, 0) + 1
                    if tries[i] < 2 and not timed_out:
                        todo.append(i)      # once more: it may have been ended for lack of memory
                        continue
                    why = f'no result after {timeout}s (hang)' if timed_out else f'process died, status {st}'
                    results[i] = dict(states=set(), transitions=0, traces=0, decisions=0, outcomes={}, samples=[],
                                      viol=[[f'{short(tasks[i])}:died', why]], nviol=1, notes=[], wall=now - t0)
                else:
                    results[i] = res
    os.close(devnull)
    return results


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get('findings', [])


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--only', help='substring filter on tasks (development)')
    ap.add_argument('-v', action='store_true')
    args = ap.parse_args()
    t0 = time.time()
    pid = args.pid
    tier = 'thorough' if args.tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(EVID, exist_ok=True)

    sys.path.insert(0, HERE)
    try:
        import boot  # noqa
    except BaseException as e:
        rp = os.path.join(EVID, f'replay-{pid}-import.json')
        with open(rp, 'w') as f:
            json.dump(dict(property=pid, what='phyem does not import', error=tb_tail(e, 20)), f)
        print(tb_tail(e, 20))
        print(f'VIOLATION property={pid} replay={rp}')
        sys.stdout.flush()
        os._exit(1)
    mod = importlib.import_module(f'checks.{pid.lower()}')

    if args.replay:
        with open(args.replay) as f:
            task = json.load(f)['task']
        rec = Rec()
        mod.run(task, rec)
        for k, w in rec.viol:
            print('  ', k, '::', w)
        print('replay: violations', rec.nviol)
        sys.stdout.flush()
        os._exit(1 if rec.nviol else 0)

    tasks = mod.tasks(tier)
    # nothing may depend on the seed: it only rotates the order in which the complete list is run
    if args.only:
        tasks = [t for t in tasks if args.only in json.dumps(t)]
    n = len(tasks)
    order = [(i + seed) % n for i in range(n)] if n else []
    otasks = [tasks[i] for i in order]
    timeout = getattr(mod, 'TIMEOUT', {'quick': 300, 'thorough': 3000})[tier]
    res = explore(mod, otasks, timeout, quiet=not args.v)

    known = [k for k in load_known() if k['property'] == pid]
    states = set()
    tr = traces = dec = nviol = 0
    outcomes, samples, viols, notes = {}, [], [], []
    walls = []
    per_task_states = 0
    for i in sorted(res, key=lambda j: order[j]):
        r = res[i]
        states |= r['states']
        per_task_states += len(r['states'])
        tr += r['transitions']
        traces += r['traces']
        dec += r['decisions']
        for k, v in r['outcomes'].items():
            outcomes[k] = outcomes.get(k, 0) + v
        if len(samples) < 6:
            for s in r['samples'][:1]:
                samples.append(s)
        notes += [x for x in r['notes'] if x not in notes][:5]
        walls.append((round(r['wall'], 2), short(otasks[i])))
        for k, w in r['viol']:
            viols.append((otasks[i], k, w))
        nviol += r['nviol']

    new, seen_known = [], {}
    for task, k, w in viols:
        for kf in known:
            if k in kf['keys']:
                seen_known.setdefault(kf['what'], 0)
                seen_known[kf['what']] += 1
                break
        else:
            new.append((task, k, w))
    for kf in known:
        print(f"KNOWN-FINDING: property={pid} {kf['what']}")

    if not samples:
        samples = [otasks[0]] if otasks else ['-']
    cov = dict(
        states=len(states), transitions=tr, traces_validated_against_impl=traces,
        property_decisions=dec, tasks=n, samples=samples, rule=mod.RULE,
        outcomes=dict(sorted(outcomes.items())[:60]),
        exhaustive=bool(getattr(mod, 'EXHAUSTIVE', True)) and not args.only,
        slowest_tasks=sorted(walls, reverse=True)[:3],
    )
    level = getattr(mod, 'LEVEL', 'model_checking')
    if level == 'fault_enumeration':
        cov['evaluations'] = traces
        cov['distinct_nontrivial'] = len(states)
    if notes:
        cov['notes'] = notes[:10]
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])), wall_s=round(time.time() - t0, 2),
              violations=len(new))
    txt = json.dumps(ev, indent=1, default=str)
    if len(txt) > 60000:
        cov['samples'] = [str(s)[:500] for s in samples[:3]]
        cov['outcomes'] = {}
        txt = json.dumps(ev, indent=1, default=str)
    with open(os.path.join(EVID, f'{pid}.json'), 'w') as f:
        f.write(txt)
    print(f'{pid} [{tier}] tasks={n} states={len(states)} transitions={tr} traces={traces} '
          f'decisions={dec} violations={len(new)} known={sum(seen_known.values())} '
          f'wall={time.time() - t0:.1f}s slowest={sorted(walls, reverse=True)[:2]}')
    if new:
        keys = set()
        c = 0
        for j, (task, k, w) in enumerate(new):
            if k in keys:
                continue
            keys.add(k)
            c += 1
            if c > 15 and not args.v:
                continue
            rp = os.path.join(EVID, f'replay-{pid}-{c}.json')
            with open(rp, 'w') as f:
                json.dump(dict(property=pid, task=task, key=k, what=w,
                               replay=f'cd /verif && ./run.sh {pid} --replay {rp}'), f, indent=1, default=str)
            print(f'  {k} :: {w}'[:900])
            print(f'VIOLATION property={pid} replay={rp}')
        print(f'{nviol} violating decisions in total')
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(1 if new else 0)


if __name__ == '__main__':
    main()
