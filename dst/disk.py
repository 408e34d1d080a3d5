"""Simulated disk: files below a scratch directory are opened through a raw layer that can tear, shorten, interrupt, refuse
or crash at any byte. Everything above the raw layer (buffering, text encoding, json) is real."""
import builtins
import contextlib
import errno
import fcntl
import io
import os
import random
import shutil
import stat
import tempfile


class SimCrash(BaseException):
    """The simulated process died: bytes already handed to the raw layer survive, nothing else does."""


class Scratch:
    """Scratch directory of one worker process, created on first use, emptied per run and removed at the end."""

    def __init__(self):
        self.dir = None

    def fresh(self):
        if self.dir is None:
            self.dir = tempfile.mkdtemp(prefix='dst-disk-')
        for n in os.listdir(self.dir):
            p = os.path.join(self.dir, n)
            if os.path.isdir(p) and not os.path.islink(p):
                os.chmod(p, 0o755)
                shutil.rmtree(p)
            else:
                os.unlink(p)
        return self.dir

    def remove(self):
        if self.dir is not None:
            shutil.rmtree(self.dir, ignore_errors=True)
            self.dir = None


class Raw(io.RawIOBase):
    direct = False  # unbuffered: like a real FileIO it retries interrupted calls itself

    def __init__(self, disk, path, mode):
        super().__init__()
        self.disk, self.f = disk, io.FileIO(path, mode)
        if isinstance(path, int):
            self.path = disk.fds.pop(path)
        else:
            self.path = path

    def readable(self):
        return self.f.readable()

    def writable(self):
        return self.f.writable()

    def seekable(self):
        return self.f.seekable()

    def seek(self, *a):
        return self.f.seek(*a)

    def tell(self):
        return self.f.tell()

    def truncate(self, size=None):
        return len(b'') if self.disk.crashed else self.f.truncate(size)

    def fileno(self):
        return self.f.fileno()

    @property
    def name(self):
        return self.f.name

    @property
    def mode(self):
        return self.f.mode

    def write(self, b):
        return self.disk.write(self.f, bytes(b), not self.direct)

    def readinto(self, b):
        return self.disk.readinto(self.f, b)

    def close(self):
        if not self.closed:
            super().close()
            name, writing = self.path, self.f.mode != 'rb'
            self.f.close()
            if not self.disk.crashed and writing:
                self.disk.at_close(name)


class Disk:
    """plan: {'buf': buffer size, 'short': p, 'eintr': p, 'fault': None or {'kind', 'at'}} with `at` in bytes."""

    def __init__(self, root, plan, ctx):
        self.root, self.plan, self.ctx = os.path.realpath(root), plan, ctx
        self.rng = random.Random(plan.get('seed', 0))
        self.fault = plan.get('fault')
        self.crashed = False
        self.fired = None
        self.pos = 0
        self.rpos = 0
        self.on_write = None
        self.fds = {}

    def fire(self, kind):
        self.fired = kind
        self.ctx.fault(kind)
        self.ctx.log('disk', kind, 'at byte', self.pos)

    def write(self, f, b, eintr=True):
        if self.crashed:
            return len(b)
        if eintr and self.rng.random() < self.plan.get('eintr', 0):
            self.ctx.fault('eintr')
            raise InterruptedError(errno.EINTR, 'simulated')
        n = len(b)
        if n > 1 and self.rng.random() < self.plan.get('short', 0):
            n = self.rng.randint(1, n - 1)
            self.ctx.fault('short_write')
        ft = self.fault
        if ft and ft['kind'] in ('crash', 'enospc', 'eio') and self.pos + n > ft['at']:
            n = max(0, ft['at'] - self.pos)
            if n:
                self.put(f, b[:n])
            if ft['kind'] == 'crash':
                self.fire('crash_at_byte')
                self.crashed = True
                raise SimCrash()
            if n:
                self.ctx.fault('short_write')
                return n
            if ft['kind'] == 'enospc':
                self.fire('disk_full')
                raise OSError(errno.ENOSPC, 'No space left on device (simulated)')
            self.fire('write_error')
            self.fault = None
            raise OSError(errno.EIO, 'Input/output error (simulated)')
        self.put(f, b[:n])
        return n

    def put(self, f, b):
        while b:
            k = f.write(b)
            self.pos += k
            b = b[k:]
        if self.on_write:
            self.on_write()

    def readinto(self, f, b):
        if self.rng.random() < self.plan.get('eintr', 0):
            self.ctx.fault('eintr')
            raise InterruptedError(errno.EINTR, 'simulated')
        ft = self.fault
        m = memoryview(b).cast('B')
        n = len(m)
        if n > 1 and self.rng.random() < self.plan.get('short', 0):
            n = self.rng.randint(1, n - 1)
            self.ctx.fault('short_read')
        if ft and ft['kind'] == 'read_eio' and self.rpos + n > ft['at']:
            self.fire('read_error')
            raise OSError(errno.EIO, 'Input/output error (simulated)')
        k = f.readinto(m[:n])
        self.rpos += k or 0
        return k

    def at_close(self, name):
        if self.fault and self.fault['kind'] == 'close_eio':
            # delayed write-back failed: the error is reported at close and the end of the file is lost
            size = os.path.getsize(name)
            os.truncate(name, min(self.fault['at'], max(0, size - 1)))
            self.fault = None
            self.fire('close_error')
            raise OSError(errno.EIO, 'Input/output error on close (simulated)')

    def inside(self, file):
        if isinstance(file, int):
            return file in self.fds
        p = os.path.realpath(os.fspath(file))
        p = p.decode() if isinstance(p, bytes) else p
        return p.startswith(self.root + os.sep)

    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if not self.inside(file) or opener is not None:
            return self.real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        writing = any(c in mode for c in 'wax+')
        if self.fault and self.fault['kind'] == ('open_w' if writing else 'open_r'):
            self.fire('open_error')
            self.fault = None
            raise PermissionError(errno.EACCES, 'Permission denied (simulated)')
        raw = Raw(self, file, mode.replace('b', '').replace('t', ''))
        size = self.plan.get('buf', 8192)
        if buffering == 0:
            raw.direct = True
            return raw
        buf = io.BufferedRandom(raw, size) if '+' in mode else io.BufferedWriter(raw, size) if writing else \
            io.BufferedReader(raw, size)
        if 'b' in mode:
            return buf
        return io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline)

    # ---- the same seam for programs that use file descriptors
    def os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        if not self.on or dir_fd is not None or not self.inside(path):
            return self.real['open'](path, flags, mode, dir_fd=dir_fd)
        writing = flags & (os.O_WRONLY | os.O_RDWR)
        if self.fault and self.fault['kind'] == ('open_w' if writing else 'open_r'):
            self.fire('open_error')
            self.fault = None
            raise PermissionError(errno.EACCES, 'Permission denied (simulated)')
        fd = self.real['open'](path, flags, mode)
        if not stat.S_ISREG(os.fstat(fd).st_mode):
            return fd
        self.fds[fd] = os.fspath(path)
        return fd

    def os_write(self, fd, b):
        if fd not in self.fds:
            return self.real['write'](fd, b)
        return self.write(Fd(self, fd), bytes(b), False)

    def os_close(self, fd):
        path = self.fds.pop(fd, None)
        writing = path is not None and fcntl.fcntl(fd, fcntl.F_GETFL) & (os.O_WRONLY | os.O_RDWR)
        self.real['close'](fd)
        if writing and not self.crashed:
            self.at_close(path)

    def after_death(self, name):
        """Renames and removals a real process would never have got to after its crash."""
        real = self.real[name]

        def call(*a, **kw):
            if self.crashed and any(self.inside(x) for x in a[:2] if isinstance(x, (str, bytes, os.PathLike))):
                return None
            return real(*a, **kw)
        return call

    def mkdir(self, path, *a, **kw):
        if self.fault and self.fault['kind'] == 'mkdir' and self.inside(path) and not os.path.exists(path):
            self.fire('mkdir_error')
            self.fault = None
            raise PermissionError(errno.EACCES, 'Permission denied (simulated)')
        return self.real_mkdir(path, *a, **kw)

    @contextlib.contextmanager
    def mounted(self):
        self.real_open, self.real_mkdir, io_open = builtins.open, os.mkdir, io.open
        names = ['open', 'write', 'close', 'replace', 'rename', 'unlink', 'remove', 'truncate']
        self.real = {n: getattr(os, n) for n in names}
        self.on = True
        builtins.open, io.open, os.mkdir = self.open, self.open, self.mkdir
        os.open, os.write, os.close = self.os_open, self.os_write, self.os_close
        for n in names[3:]:
            setattr(os, n, self.after_death(n))
        try:
            yield self
        finally:
            self.on = False
            builtins.open, io.open, os.mkdir = self.real_open, io_open, self.real_mkdir
            for n in names:
                setattr(os, n, self.real[n])
            for fd in list(self.fds):  # left open by a crashed or failed export
                with contextlib.suppress(OSError):
                    os.close(fd)


class Fd:
    def __init__(self, disk, fd):
        self.disk, self.fd = disk, fd

    def write(self, b):
        return self.disk.real['write'](self.fd, b)
