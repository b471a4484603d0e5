"""COMM_WORLD whose collective calls are matched by the hub. Anything else is refused."""
import os
import socket
import time

import numpy as np

_sock = socket.socket(fileno=int(os.environ['MC_MPI_FD']))
_rank = int(os.environ['MC_MPI_RANK'])
_size = int(os.environ['MC_MPI_SIZE'])


class Op:
    def __init__(self, name):
        self.name = name


SUM, MAX, MIN, PROD, LAND, LOR = [Op(_) for _ in ('SUM', 'MAX', 'MIN', 'PROD', 'LAND', 'LOR')]


class Datatype:
    def __init__(self, name, size):
        self.name, self.size = name, size


FLOAT, DOUBLE, INT, LONG = Datatype('FLOAT', 4), Datatype('DOUBLE', 8), Datatype('INT', 4), Datatype('LONG', 8)
ANY_SOURCE, ANY_TAG = -1, -1


class Aborted(BaseException):
    """the hub stops this rank (the others can not be met any more)"""


from mpi4py_wire import send_msg, recv_msg   # noqa


def Wtime():
    return time.time()


def _buffer(spec):
    """the array of a buffer argument; what it is (its bytes) is checked by the hub"""
    a = spec[0] if isinstance(spec, (list, tuple)) else spec
    a = np.asarray(a) if not isinstance(a, np.ndarray) else a
    if not (a.flags.c_contiguous or a.flags.f_contiguous):
        raise ValueError('ndarray is not contiguous')
    return a


class Intracomm:
    def Get_rank(self):
        return _rank

    def Get_size(self):
        return _size

    rank = property(Get_rank)
    size = property(Get_size)

    def _call(self, name, root, op, payload):
        send_msg(_sock, ('call', name, root, op and op.name, payload))
        kind, val = recv_msg(_sock)
        if kind == 'abort':
            raise Aborted(val)
        return val

    # python objects
    def barrier(self):
        self._call('barrier', None, None, None)

    Barrier = barrier

    def bcast(self, obj, root=0):
        r = self._call('bcast', root, None, obj if _rank == root else None)
        return obj if _rank == root else r

    def gather(self, sendobj, root=0):
        return self._call('gather', root, None, sendobj)

    def allgather(self, sendobj):
        return self._call('allgather', None, None, sendobj)

    def scatter(self, sendobj, root=0):
        if _rank == root:
            sendobj = list(sendobj)
            if len(sendobj) != _size:
                raise ValueError(f'expecting {_size} items, got {len(sendobj)}')
        return self._call('scatter', root, None, sendobj if _rank == root else None)

    def reduce(self, sendobj, op=SUM, root=0):
        return self._call('reduce', root, op, sendobj)

    def allreduce(self, sendobj, op=SUM):
        return self._call('allreduce', None, op, sendobj)

    def alltoall(self, sendobj):
        sendobj = list(sendobj)
        if len(sendobj) != _size:
            raise ValueError(f'expecting {_size} items, got {len(sendobj)}')
        return self._call('alltoall', None, None, sendobj)

    # buffers
    def Bcast(self, buf, root=0):
        a = _buffer(buf)
        r = self._call('Bcast', root, None, (a.nbytes, a.dtype.str, (a if a.flags.c_contiguous else a.T).tobytes('C') if _rank == root else None))
        if _rank != root:
            self._into(a, r)

    @staticmethod
    def _into(a, raw):
        flat = np.frombuffer(raw, dtype=a.dtype)
        (a if a.flags.c_contiguous else a.T).reshape(-1)[...] = flat

    def Reduce(self, sendbuf, recvbuf, op=SUM, root=0):
        s = _buffer(sendbuf)
        r = self._call('Reduce', root, op, (s.shape, s.dtype.str, s.tobytes('C')))
        if _rank == root:
            a = _buffer(recvbuf)
            if a.size * a.itemsize < len(r):
                raise RuntimeError('MPI_ERR_TRUNCATE: message truncated')
            a.reshape(-1)[:s.size] = np.frombuffer(r, dtype=s.dtype)

    def Allreduce(self, sendbuf, recvbuf, op=SUM):
        s = _buffer(sendbuf)
        r = self._call('Allreduce', None, op, (s.shape, s.dtype.str, s.tobytes('C')))
        a = _buffer(recvbuf)
        if a.size * a.itemsize < len(r):
            raise RuntimeError('MPI_ERR_TRUNCATE: message truncated')
        a.reshape(-1)[:s.size] = np.frombuffer(r, dtype=s.dtype)

    def __getattr__(self, name):
        raise NotImplementedError(f'COMM.{name} is not a call the explorer can match')


COMM_WORLD = Intracomm()
