"""Fresh interpreters on demand: a process that has imported the tested code but
has never created a symbol, and forks for every request.

Client:  fresh(module, function, blob, *args) -> result of function(blob, *args)
"""
import json
import os
import pickle
import struct
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
_proc = [None]


def _start():
    env = dict(os.environ)
    env['PYTHONHASHSEED'] = str((int(env.get('PYTHONHASHSEED', '0') or 0) + 3) % 97)
    _proc[0] = subprocess.Popen([sys.executable, '-B', os.path.abspath(__file__)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env)


def _read(f, n):
    out = b''
    while len(out) < n:
        chunk = f.read(n - len(out))
        if not chunk:
            raise EOFError()
        out += chunk
    return out


def fresh(module, function, blob, *args):
    if _proc[0] is None or _proc[0].poll() is not None:
        _start()
    p = _proc[0]
    try:
        msg = pickle.dumps((module, function, blob, args))
        p.stdin.write(struct.pack('>Q', len(msg)) + msg)
        p.stdin.flush()
        n, = struct.unpack('>Q', _read(p.stdout, 8))
        kind, res = json.loads(_read(p.stdout, n).decode())
    except BaseException:
        # Out of step (for instance a timeout): start anew next time.
        p.kill()
        p.wait()
        _proc[0] = None
        raise
    return kind, res


def _serve():
    import worker  # paths
    worker.setup()
    import importlib
    import traceback
    import signal
    import numpy  # noqa
    out = os.fdopen(os.dup(1), 'wb')
    os.dup2(2, 1)
    import c17  # noqa
    import symfit.contrib.interactive_guess  # noqa
    f = sys.stdin.buffer
    while True:
        try:
            n, = struct.unpack('>Q', _read(f, 8))
            msg = _read(f, n)
        except EOFError:
            os._exit(0)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                signal.alarm(60)
                module, function, blob, args = pickle.loads(msg)
                res = ('ok', getattr(importlib.import_module(module), function)(blob, *args))
            except BaseException as err:
                tb = traceback.extract_tb(err.__traceback__)
                res = ('error', '{}: {} (at {}:{})'.format(type(err).__name__, err, os.path.basename(tb[-1].filename), tb[-1].lineno))
            with os.fdopen(w, 'wb') as o:
                o.write(json.dumps(res).encode())
            os._exit(0)
        os.close(w)
        with os.fdopen(r, 'rb') as i:
            data = i.read()
        os.waitpid(pid, 0)
        data = data or json.dumps(('error', 'the process died')).encode()
        out.write(struct.pack('>Q', len(data)) + data)
        out.flush()


if __name__ == '__main__':
    sys.path.insert(0, HERE)
    _serve()
