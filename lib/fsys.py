"""Interposition on the file system calls of the code under test.

Installed before the library is imported, so `from os import unlink` style code is caught as well. While no hook is
set for the thread the calls go straight through. A hook is an object with
    before(name, args)            -> None, or raises OSError (injected fault); may block (scheduler) or end the process
    after(name, args, result)     -> None
and only calls that concern paths below hook.root (or descriptors opened there) are reported.
"""
import os, io, builtins, threading, functools

_local = threading.local()
_orig = {}
PATH_CALLS = ['open', 'unlink', 'remove', 'rename', 'replace', 'link', 'symlink', 'mkdir', 'rmdir', 'listdir', 'scandir',
              'stat', 'lstat', 'chmod', 'utime', 'truncate', 'access', 'readlink', 'mkfifo', 'mknod']
FD_CALLS = ['read', 'write', 'close', 'fsync', 'fdatasync', 'ftruncate', 'pread', 'pwrite', 'fstat', 'lseek', 'fchmod']


def hook():
    return getattr(_local, 'hook', None)


def set_hook(h):
    _local.hook = h


def _under(h, p):
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if hasattr(p, '__fspath__'):
        p = p.__fspath__()
    return isinstance(p, str) and p.startswith(h.root)


def _path_call(name):
    real = getattr(os, name)

    @functools.wraps(real)
    def call(*args, **kw):
        h = hook()
        if h is None or not args or not (_under(h, args[0]) or (isinstance(args[0], int) and args[0] in h.fds)):
            return real(*args, **kw)
        h.before(name, args)
        r = real(*args, **kw)
        if name == 'open':
            h.fds[r] = os.fspath(args[0])
        h.after(name, args, r)
        return r
    return call


def _fd_call(name):
    real = getattr(os, name)

    @functools.wraps(real)
    def call(fd, *args, **kw):
        h = hook()
        if h is None or fd not in h.fds:
            return real(fd, *args, **kw)
        full = (h.fds[fd],) + args
        h.before(name, full)
        if name == 'close':
            h.fds.pop(fd, None)
        r = real(fd, *args, **kw)
        h.after(name, full, r)
        return r
    return call


class File(object):
    """Wrapper of a file object that reports reads, writes, flushes and closing."""

    def __init__(self, f, path, h):
        self.__dict__.update(_f=f, _path=path, _h=h, _closed=False)

    def _act(self, name, call, *args):
        h = hook()
        if h is None or h is not self._h:
            return call(*args)
        h.before('file.' + name, (self._path,) + args)
        r = call(*args)
        h.after('file.' + name, (self._path,) + args, r)
        return r

    def write(self, data):
        return self._act('write', self._f.write, data)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def read(self, *a):
        return self._act('read', self._f.read, *a)

    def readline(self, *a):
        return self._act('read', self._f.readline, *a)

    def readlines(self, *a):
        return self._act('read', self._f.readlines, *a)

    def flush(self):
        return self._act('flush', self._f.flush)

    def truncate(self, *a):
        return self._act('truncate', self._f.truncate, *a)

    def close(self):
        if self._closed:
            return
        self.__dict__['_closed'] = True
        h = self._h
        try:
            fd = self._f.fileno()
        except ValueError:
            fd = None
        try:
            return self._act('close', self._f.close)
        except OSError:
            # an injected failure of close: the descriptor is released all the same
            self._f.close()
            raise
        finally:
            if fd is not None:
                h.fds.pop(fd, None)

    def __iter__(self):
        return iter(self.readlines())

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()

    def __getattr__(self, name):
        return getattr(self._f, name)

    def __setattr__(self, name, value):
        setattr(self._f, name, value)


def _wrap_open(real):
    @functools.wraps(real)
    def call(file, *args, **kw):
        h = hook()
        if h is None:
            return real(file, *args, **kw)
        if isinstance(file, int):
            if file not in h.fds:
                return real(file, *args, **kw)
            return File(real(file, *args, **kw), h.fds[file], h)
        if not _under(h, file):
            return real(file, *args, **kw)
        mode = args[0] if args else kw.get('mode', 'r')
        h.before('file.open', (os.fspath(file), mode))
        f = real(file, *args, **kw)
        h.fds[f.fileno()] = os.fspath(file)
        h.after('file.open', (os.fspath(file), mode), None)
        return File(f, os.fspath(file), h)
    return call


def install():
    if _orig:
        return
    for n in PATH_CALLS:
        if hasattr(os, n):
            _orig[n] = getattr(os, n)
            setattr(os, n, _path_call(n))
    for n in FD_CALLS:
        if hasattr(os, n):
            _orig[n] = getattr(os, n)
            setattr(os, n, _fd_call(n))
    o = _wrap_open(io.open)
    _orig['io.open'] = io.open
    io.open = o
    builtins.open = o


class Hook(object):
    """Base hook: records, never interferes."""

    def __init__(self, root):
        self.root = root
        self.fds = {}
        self.log = []

    def before(self, name, args):
        self.log.append((name, args))

    def after(self, name, args, result):
        pass


class using(object):
    def __init__(self, h):
        self.h = h

    def __enter__(self):
        self.prev = hook()
        set_hook(self.h)
        return self.h

    def __exit__(self, *exc):
        set_hook(self.prev)
