"""The hub: starts the ranks of a communicator and matches their collective calls.

Ranks have no memory in common and meet in collective calls only, so all the schedules of a run are one trace (steps of different ranks
between two collective calls commute); what could go wrong is that the ranks do not meet: different calls, different roots, different
sizes, or a rank that has ended. The hub decides that at every call of every run."""
import functools
import os
import select
import socket
import subprocess
import sys

import numpy as np

from mpi.mpi4py_wire import send_msg, recv_msg

HERE = os.path.dirname(os.path.abspath(__file__))


class Gone(Exception):
    pass


def _ops():
    return dict(SUM=lambda a, b: a + b, MAX=lambda a, b: np.maximum(a, b) if isinstance(a, np.ndarray) else max(a, b),
                MIN=lambda a, b: np.minimum(a, b) if isinstance(a, np.ndarray) else min(a, b), PROD=lambda a, b: a * b,
                LAND=lambda a, b: bool(a) and bool(b), LOR=lambda a, b: bool(a) or bool(b))


class World:
    def __init__(self, size):
        self.send, self.recv = send_msg, recv_msg
        self.size = size
        self.socks, self.procs = [], []
        for r in range(size):
            a, b = socket.socketpair()
            env = dict(os.environ, MC_MPI_FD=str(b.fileno()), MC_MPI_RANK=str(r), MC_MPI_SIZE=str(size),
                       PYTHONPATH=HERE + os.pathsep + os.environ.get('PYTHONPATH', ''))
            self.procs.append(subprocess.Popen([sys.executable, '-B', os.path.join(HERE, 'rank.py')], env=env, pass_fds=[b.fileno()],
                                               stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=None if os.environ.get("MC_MPI_ERR") else subprocess.DEVNULL))
            b.close()
            self.socks.append(a)

    def close(self):
        for p in self.procs:
            p.kill()
            p.wait()
        for s in self.socks:
            s.close()

    def _get(self, r, limit):
        if not select.select([self.socks[r]], [], [], limit)[0]:
            raise Gone(f'rank {r} does not answer within {limit} s')
        return self.recv(self.socks[r])

    def run(self, item, limit=240):
        """run the item on all ranks: (results per rank: ('ok', value) or ('raise', type, text), number of calls, what went wrong)"""
        for s in self.socks:
            self.send(s, ('item', item))
        res = [None] * self.size
        calls, wrong, log = 0, None, []
        aborting = False
        alive = set(range(self.size))
        while alive:
            msg = {}
            for r in sorted(alive):
                m = self._get(r, limit)
                if m[0] == 'done':
                    res[r] = m[1]
                    alive.discard(r)
                else:
                    msg[r] = m
            if not msg:
                continue
            if aborting or len(msg) < self.size:
                if wrong is None:
                    ended = [r for r in range(self.size) if r not in msg]
                    wrong = (f'rank(s) {ended} ended ({[res[r][:2] if res[r][0] != "ok" else "ok" for r in ended]}) while rank(s) {sorted(msg)} wait in '
                             f'{sorted({m[1] for m in msg.values()})}')
                aborting = True
            else:
                kinds = {m[1:4] for m in msg.values()}
                if len(kinds) > 1:
                    wrong = 'the ranks call different things: ' + str({r: m[1:4] for r, m in msg.items()})
                    aborting = True
            if not aborting:
                calls += 1
                try:
                    ans = self._match(msg)
                except Mismatch as e:
                    wrong, aborting = str(e), True
            for r in sorted(msg):
                self.send(self.socks[r], ('abort', wrong) if aborting else ('ok', ans[r]))
        return res, calls, wrong

    def _match(self, msg):
        n = self.size
        name, root, op = msg[0][1:4]
        P = [msg[r][4] for r in range(n)]
        nothing = [None] * n
        if name == 'barrier':
            return nothing
        if name == 'bcast':
            return [P[root]] * n
        if name in ('gather', 'allgather'):
            return [list(P)] * n if name == 'allgather' else [list(P) if r == root else None for r in range(n)]
        if name == 'scatter':
            return list(P[root])
        if name == 'alltoall':
            return [[P[q][r] for q in range(n)] for r in range(n)]
        if name in ('reduce', 'allreduce'):
            v = functools.reduce(_ops()[op], P)
            return [v] * n if name == 'allreduce' else [v if r == root else None for r in range(n)]
        if name == 'Bcast':
            k = {p[:2] for p in P}
            if len(k) > 1:
                raise Mismatch(f'Bcast of buffers of different sizes or types: {[p[:2] for p in P]}')
            return [P[root][2]] * n
        if name in ('Reduce', 'Allreduce'):
            k = {(int(np.prod(p[0])), p[1]) for p in P}
            if len(k) > 1:
                raise Mismatch(f'{name} of buffers of different sizes or types: {[p[:2] for p in P]}')
            v = functools.reduce(_ops()[op], [np.frombuffer(p[2], dtype=p[1]) for p in P]).tobytes()
            return [v] * n if name == 'Allreduce' else [v if r == root else None for r in range(n)]
        raise Mismatch(f'unknown call {name}')


class Mismatch(Exception):
    pass
