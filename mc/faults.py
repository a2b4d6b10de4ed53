"""Crash points of real file writes: run fn in a forked child whose files may grow to n bytes at most.
Disk: in-process, every transfer of the watched files is counted and any of them can be made to fail."""
import builtins
import errno
import io
import os
import resource
import signal
import sys


def limited(n, fn, kill=False):
    """Returns 'ok', 'error' (fn raised) or 'killed'.  kill=False: the write past byte n fails (disk full);
    kill=True: the process dies there (crash), whatever was flushed so far stays."""
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            signal.setitimer(signal.ITIMER_REAL, 0)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL if kill else signal.SIG_IGN)
            if n is not None:
                resource.setrlimit(resource.RLIMIT_FSIZE, (n, resource.RLIM_INFINITY))
            try:
                fn()
                code = 0
            except BaseException:
                code = 1
        finally:
            os._exit(code)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        return 'killed'
    return {0: 'ok', 1: 'error'}.get(os.WEXITSTATUS(st), 'broken')


class _Raw(io.RawIOBase):
    """One opening of a watched file.  The disk counts the bytes over all openings and fails at one of them."""

    def __init__(self, disk, path, mode):
        io.RawIOBase.__init__(self)
        self.disk = disk
        self.file = io.FileIO(path, mode)

    def readable(self):
        return self.file.readable()

    def writable(self):
        return self.file.writable()

    def seekable(self):
        return self.file.seekable()

    def seek(self, *a):
        return self.file.seek(*a)

    def tell(self):
        return self.file.tell()

    def truncate(self, *a):
        return self.file.truncate(*a)

    def fileno(self):
        return self.file.fileno()

    def readinto(self, buf):
        left = self.disk.left()
        if left == 0:
            raise self.disk.fail(OSError(errno.EIO, 'Input/output error'))
        data = self.file.read(min(len(buf), left) if left is not None else len(buf))
        buf[:len(data)] = data
        self.disk.used += len(data) if data else 1       # the end counts, reading it can fail too
        return len(data)

    def write(self, data):
        data = bytes(data)
        left = self.disk.left()
        if left == 0:
            raise self.disk.fail(OSError(errno.ENOSPC, 'No space left on device'))
        n = self.file.write(data if left is None else data[:left])
        self.disk.used += n
        return n

    def close(self):
        if not self.closed:
            self.disk.open -= 1
            self.file.close()
        io.RawIOBase.close(self)


class Disk(object):
    """While active, files opened below root go through a disk that fails after `limit` bytes (None: never).
    chunk: how much is read ahead or collected before it is written (1: each byte is its own transfer).
    error: raised instead of the OSError; once: the transfers after the failed one work again."""

    def __init__(self, root, limit=None, chunk=1, match=None, error=None, once=False):
        self.root, self.limit, self.chunk, self.match, self.error, self.once = os.path.realpath(root), limit, chunk, match, error, once
        self.used = self.open = self.opened = 0

    def left(self):
        return None if self.limit is None else max(0, self.limit - self.used)

    def fail(self, error):
        if self.once:
            self.limit = None
        return self.error or error

    def opener(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if not isinstance(file, (str, bytes, os.PathLike)) or opener is not None:
            return self.real(file, mode, buffering, encoding, errors, newline, closefd, opener)
        p = os.path.realpath(os.fsdecode(file))
        if not p.startswith(self.root + os.sep) or '+' in mode or self.match is not None and not self.match(p):
            return self.real(file, mode, buffering, encoding, errors, newline, closefd, opener)
        raw = _Raw(self, p, mode.replace('b', '').replace('t', ''))
        self.open += 1
        self.opened += 1
        buf = io.BufferedReader(raw, self.chunk) if raw.readable() else io.BufferedWriter(raw, self.chunk)
        if 'b' in mode:
            return buf
        text = io.TextIOWrapper(buf, encoding, errors, newline, write_through=self.chunk == 1)
        if raw.readable():
            text._CHUNK_SIZE = self.chunk
        return text

    def __enter__(self):
        self.real = builtins.open
        builtins.open = self.opener
        return self

    def __exit__(self, *exc):
        builtins.open = self.real
        return False
