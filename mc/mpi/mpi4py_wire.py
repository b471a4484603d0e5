import pickle
import struct


def send_msg(sock, obj):
    b = pickle.dumps(obj, protocol=4)
    sock.sendall(struct.pack('<q', len(b)) + b)


def recv_msg(sock):
    b = b''
    while len(b) < 8:
        c = sock.recv(8 - len(b))
        if not c:
            raise EOFError
        b += c
    n = struct.unpack('<q', b)[0]
    parts, got = [], 0
    while got < n:
        c = sock.recv(min(n - got, 1 << 20))
        if not c:
            raise EOFError
        parts.append(c)
        got += len(c)
    return pickle.loads(b''.join(parts))
