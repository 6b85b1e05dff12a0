"""Simulated processes and the simulated disk.

A *session* is one plasTeX process of the simulated history: a forked child that
runs real plasTeX code in a scratch directory, with every file operation on that
directory going through `Disk`, which may fail it, stop it half way, pause it while
another session runs, or end the process there (only what reached the real file
survives).  Nothing in here draws random numbers: all decisions come in from the plan.
"""
import builtins
import io
import json
import os
import pickle
import random
import select
import signal
import struct
import sys
import time

CRASH = 99


class Disk:
    """Interposes on the file calls the code under test makes below `root`.

    faults: list of {'op': ..., 'kind': ..., 'suffix': '.paux', ...}
      op 'write'  kind crash|pause: after `frac` of the payload of the write call reached the file
                  kind enospc|eio:  after `frac` of the payload, raise OSError
      op 'open_w' / 'open_r' / 'remove'   kind eacces|eio: raise OSError; kind crash
      op 'read'   kind eio
      op 'close_w' kind crash: process ends right after the file was closed
    A fault fires once, at the `nth` matching operation (0 = first).
    """

    ERR = {'eacces': 13, 'eio': 5, 'enospc': 28, 'enoent': 2}

    def __init__(self, root, faults=(), listdir_seed=None, tell=None):
        self.root = os.path.realpath(root) + os.sep
        self.faults = [dict(f, left=f.get('nth', 0)) for f in faults]
        self.fired = []
        self.listdir_seed = listdir_seed
        self.tell = tell                # callable for 'pause'
        self.ops = []

    def under(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.realpath(p)
        return p if p.startswith(self.root) else None

    def hit(self, op, path):
        rel = path[len(self.root):]
        self.ops.append((op, rel))
        for f in self.faults:
            if f['op'] != op or f.get('done'):
                continue
            if f.get('suffix') and not rel.endswith(f['suffix']):
                continue
            if f['left'] > 0:
                f['left'] -= 1
                continue
            f['done'] = True
            return f
        return None

    def fire(self, f):
        self.fired.append(f['op'] + ':' + f['kind'])

    def err(self, f, path):
        self.fire(f)
        e = self.ERR[f['kind']]
        raise OSError(e, os.strerror(e), path)

    def crash(self, f):
        self.fire(f)
        if self.tell:
            self.tell('crash', self.fired)
        os._exit(CRASH)

    def simple(self, op, path):
        f = self.hit(op, path)
        if f is None:
            return
        if f['kind'] == 'crash':
            self.crash(f)
        if f['kind'] == 'pause':
            self.fire(f)
            self.tell('pause', self.fired)
            return
        self.err(f, path)

    def install(self):
        disk = self
        real_open = io.open

        def sim_open(file, mode='r', *a, **kw):
            p = disk.under(file) if not isinstance(file, int) else None
            if p is None:
                return real_open(file, mode, *a, **kw)
            writing = any(c in mode for c in 'wax+')
            disk.simple('open_w' if writing else 'open_r', p)
            fh = real_open(file, mode, *a, **kw)
            return File(disk, fh, p, writing)

        builtins.open = sim_open
        io.open = sim_open

        def wrap(name, op):
            real = getattr(os, name)

            def fn(path, *a, **kw):
                p = disk.under(path) if not isinstance(path, int) else None
                if p is not None:
                    disk.simple(op, p)
                return real(path, *a, **kw)
            fn.__name__ = name
            setattr(os, name, fn)
        wrap('remove', 'remove')
        wrap('unlink', 'remove')
        wrap('replace', 'replace')
        wrap('rename', 'replace')

        if self.listdir_seed is not None:
            def key(name):
                return random.Random('%s/%s' % (disk.listdir_seed, os.fspath(name))).random()
            real_listdir = os.listdir
            real_scandir = os.scandir

            def listdir(path='.'):
                return sorted(real_listdir(path), key=key)

            class Scan:
                def __init__(self, path):
                    self._it = real_scandir(path)
                    self._l = sorted(self._it, key=lambda e: key(e.name))
                    self._i = iter(self._l)

                def __iter__(self):
                    return self

                def __next__(self):
                    return next(self._i)

                def close(self):
                    self._it.close()

                def __enter__(self):
                    return self

                def __exit__(self, *a):
                    self.close()

            def scandir(path='.'):
                return Scan(path)
            os.listdir = listdir
            os.scandir = scandir


class File:
    """A file object whose writes and reads the disk decides on."""
    def __init__(self, disk, fh, path, writing):
        self.__dict__.update(_d=disk, _fh=fh, _p=path, _w=writing)

    def __getattr__(self, name):
        return getattr(self._fh, name)

    def __setattr__(self, name, value):
        setattr(self._fh, name, value)

    def __enter__(self):
        self._fh.__enter__()
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        return iter(self._fh)

    def __next__(self):
        return next(self._fh)

    def write(self, data):
        f = self._d.hit('write', self._p)
        if f is None:
            return self._fh.write(data)
        n = int(len(data) * f.get('frac', 0.5))
        self._fh.write(data[:n])
        self._fh.flush()
        if f['kind'] == 'crash':
            self._d.crash(f)
        if f['kind'] == 'pause':
            self._d.fire(f)
            self._d.tell('pause', self._d.fired)
            return n + self._fh.write(data[n:])
        self._d.err(f, self._p)

    def writelines(self, lines):
        for ln in lines:
            self.write(ln)

    def read(self, *a):
        self._d.simple('read', self._p)
        return self._fh.read(*a)

    def readline(self, *a):
        self._d.simple('read', self._p)
        return self._fh.readline(*a)

    def readinto(self, b):
        self._d.simple('read', self._p)
        return self._fh.readinto(b)

    def close(self):
        already = self._fh.closed
        self._fh.close()
        if self._w and not already:
            self._d.simple('close_w', self._p)


class Session:
    """A forked plasTeX process.  fn(disk) runs in it and returns a JSON-able value."""

    def __init__(self, root, fn, faults=(), listdir_seed=None, cwd=None, timeout=60):
        self.timeout = timeout
        r, w = os.pipe()            # child -> parent
        r2, w2 = os.pipe()          # parent -> child (resume)
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                os.close(w2)

                def send(kind, value):
                    data = json.dumps([kind, value]).encode()
                    data = struct.pack('>I', len(data)) + data
                    while data:
                        data = data[os.write(w, data):]

                def tell(kind, fired):
                    send(kind, list(fired))
                    if kind == 'pause':
                        os.read(r2, 1)
                disk = Disk(root, faults, listdir_seed, tell)
                if cwd:
                    os.chdir(cwd)
                disk.install()
                try:
                    value = fn(disk)
                    send('ok', [value, disk.fired])
                except MemoryError:
                    os._exit(12)
                except BaseException as e:
                    from sim.kernel import short_tb
                    send('exc', [short_tb(e), disk.fired, exc_origin(e)])
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        os.close(r2)
        self.pid, self.r, self.w2 = pid, r, w2
        self.paused = False
        self.fired = []
        self.value = None
        self.error = None
        self.origin = None
        self.status = None

    def _read(self, n):
        buf = b''
        while len(buf) < n:
            ready, _, _ = select.select([self.r], [], [], self.timeout)
            if not ready:
                return None
            d = os.read(self.r, n - len(buf))
            if not d:
                return b''
            buf += d
        return buf

    def wait(self):
        """Run until the session pauses or ends.  Returns its status."""
        h = self._read(4)
        msg = None
        if h:
            msg = self._read(struct.unpack('>I', h)[0])
        if h is None or msg is None and h:
            os.kill(self.pid, signal.SIGKILL)
            self._end()
            self.status = 'hang'
            return self.status
        if not h or not msg:
            st = self._end()
            self.status = 'died'
            self.error = 'wait status %d' % st
            return self.status
        kind, value = json.loads(msg)
        if kind == 'pause':
            self.fired = value
            self.paused = True
            self.status = 'paused'
            return self.status
        if kind == 'crash':
            self.fired = value
            self.status = 'crash'
        elif kind == 'ok':
            self.value, self.fired = value
            self.status = 'ok'
        else:
            self.error, self.fired, self.origin = value
            self.status = 'exc'
        self._end()
        return self.status

    def resume(self):
        os.write(self.w2, b'x')
        self.paused = False
        return self.wait()

    def _end(self):
        _, st = os.waitpid(self.pid, 0)
        os.close(self.r)
        os.close(self.w2)
        return st


def exc_origin(e):
    import traceback
    from sim.kernel import REPO, ROOT
    tb = traceback.extract_tb(e.__traceback__)
    for f in reversed(tb):
        if f.filename == __file__:
            continue
        if f.filename.startswith(REPO + os.sep):
            return 'repo'
        if f.filename.startswith(ROOT + os.sep):
            return 'harness'
    return 'other'
