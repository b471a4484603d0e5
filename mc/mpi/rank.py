"""One rank: for every item of the hub a forked child runs the program and reports."""
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import boot   # noqa
from mpi4py import MPI   # noqa
import mpi.programs as programs   # noqa

sock = MPI._sock
while True:
    try:
        kind, item = MPI.recv_msg(sock)
    except EOFError:
        os._exit(0)
    pid = os.fork()
    if pid == 0:
        try:
            out = ('ok', programs.run(item))
        except MPI.Aborted as e:
            out = ('aborted', str(e))
        except BaseException as e:
            out = ('raise', type(e).__name__, str(e)[:300] + '\n' + ''.join(traceback.format_tb(e.__traceback__)[-4:]))
        MPI.send_msg(sock, ('done', out))
        os._exit(0)
    st = os.waitpid(pid, 0)[1]
    if st:
        MPI.send_msg(sock, ('done', ('raise', 'died', f'status {st}')))
