"""
A simulated disk under the prefix /simdisk/.

Files are byte arrays with a log of what was written since the last fsync, and
the directory has a log of name changes, so that a power loss can keep any
prefix of the un-synced writes (the last one torn) and lose the rest.  Every
write, truncate, fsync, rename and unlink is a decision point for a crash or an
I/O error.  ``install()`` routes open/os functions for that prefix here and
leaves every other path alone.
"""
import builtins
import errno
import importlib
import io
import os
import stat as statmod

from sim import kernel

PREFIX = '/simdisk/'
ROOT = '/simdisk'


class Inode:
    __slots__ = ('data', 'durable', 'pending', 'isdir', 'number', 'mtime')
    serial = 0

    def __init__(self, data=b'', isdir=False):
        Inode.serial += 1
        self.number = Inode.serial
        self.data = bytearray(data)
        self.durable = bytes(data)
        self.pending = []          # ('w', offset, bytes) | ('t', size)
        self.isdir = isdir
        self.mtime = 0.0


def _apply(data, op):
    if op[0] == 't':
        size = op[1]
        if size <= len(data):
            del data[size:]
        else:
            data.extend(b'\0' * (size - len(data)))
    else:
        off, buf = op[1], op[2]
        if off > len(data):
            data.extend(b'\0' * (off - len(data)))
        data[off:off + len(buf)] = buf


class Disk:
    """The disk of one simulated machine."""

    def __init__(self, sim, image=None):
        self.sim = sim
        self.names = {ROOT: Inode(isdir=True)}
        for path, data in sorted((image or {}).items()):
            self.names[path] = (Inode(isdir=True) if data is None
                                else Inode(data))
        self.durable_names = {p: n for p, n in self.names.items()}
        self.name_log = []         # ('set', path, inode) | ('del', path)
        self.fds = {}
        self.next_fd = 1_000_000
        self.locks = set()
        self.capacity = None       # bytes, None: unlimited
        self.faults = {}           # fault kind -> probability
        self.crash_ok = ()         # crash modes allowed now
        self.broken = None         # errno of every op after a dead disk
        self.calls = 0
        self.fault_filter = None   # fn(op, path) -> bool: may this op fail?
        self.one_per_op = None     # fn() -> bool: has this op failed already?
        self.hook = None           # fn(op, path): before every operation
        self.spare = set()         # labels of operations without I/O errors

    # --------------------------------------------------------------- crashing
    def image(self):
        """What a process crash leaves: everything handed to the kernel."""
        return {p: (None if n.isdir else bytes(n.data))
                for p, n in self.names.items() if p != ROOT}

    def power_image(self, names_kept, kept, torn):
        """
        What a power loss leaves: durable data and names, the first
        ``names_kept`` name changes, and of each file the first ``kept``
        (fraction of the) un-synced writes with the next one torn.
        """
        names = dict(self.durable_names)
        for op in self.name_log[:int(len(self.name_log) * names_kept + 0.5)]:
            if op[0] == 'set':
                names[op[1]] = op[2]
            else:
                names.pop(op[1], None)
        out = {}
        for i, (p, n) in enumerate(sorted(names.items())):
            if p == ROOT:
                continue
            if n.isdir:
                out[p] = None
                continue
            frac = kept[i % len(kept)]
            count = int(len(n.pending) * frac + 0.5)
            data = bytearray(n.durable)
            for op in n.pending[:count]:
                _apply(data, op)
            if torn and count < len(n.pending):      # 8 bytes: atomic
                op = n.pending[count]
                if op[0] == "w" and len(op[2]) > 8:
                    cut = int(len(op[2]) * torn)
                    if '.py' in p and int(torn * 1000) & 1:
                        # of a text, whole lines
                        cut = op[2].find(b'\n', cut) + 1 or cut
                    _apply(data, ('w', op[1], op[2][:cut]))
            out[p] = bytes(data)
        return out

    def op(self, what, path, inode=None):
        """A disk operation is about to happen: may crash or fail."""
        sim = self.sim
        self.calls += 1
        sim.point('io')
        if sim.task().quiet or sim.quiet:
            return
        if self.hook is not None:
            self.hook(what, path)
        if self.broken:
            raise OSError(self.broken, os.strerror(self.broken), path)
        crash = self.faults.get('crash', 0)
        spared = self.spare and sim.task().label in self.spare
        if self.crash_ok and what not in ('read', 'open') and \
                not (spared and what == 'rename') and \
                (crash or sim.replay is not None):
            how = sim.choose('crash', lambda r: self._draw_crash(r, crash))
            if how:
                self.crash(how, what, path)
        for kind, err in (('eio', errno.EIO), ('enospc', errno.ENOSPC)):
            p = self.faults.get(kind, 0)
            if not p and sim.replay is None:
                continue
            if spared or what == 'trunc':
                continue     # see DESIGN: FileStorage cannot undo then
            if kind == 'enospc' and what not in ('write', 'create', 'mkdir',
                                                 'trunc'):
                continue
            if self.fault_filter and not self.fault_filter(kind, what, path):
                continue
            if self.one_per_op is not None and self.one_per_op():
                continue
            if sim.chance(kind, p):
                sim.count('fault:' + kind + ':' + what)
                sim.log('fault', kind, what, os.path.basename(path))
                if sim.fault_hook is not None:
                    sim.fault_hook(kind, what, path)
                raise OSError(err, os.strerror(err), path)

    def _draw_crash(self, r, p):
        if r.random() >= p:
            return None
        mode = r.choice(self.crash_ok)
        if mode == 'kill':
            return ['kill']
        return ['power', r.choice([0, 0.5, 1, r.random()]),
                [r.choice([0, 1, r.random()]) for _ in range(3)],
                r.choice([0, r.random()])]

    def reboot(self, prefix, how):
        """The machine that owns the files below prefix dies and comes back:
        what its processes had open is no longer what is there."""
        image = self.image() if how[0] == 'kill' else \
            self.power_image(how[1], how[2], how[3])
        under = prefix + '/'
        for p in [p for p in self.names if p.startswith(under)]:
            del self.names[p]
        for p, data in sorted(image.items()):
            if p.startswith(under):
                self.names[p] = Inode(isdir=True) if data is None \
                    else Inode(data)
        self.name_log = []
        self.durable_names = dict(self.names)
        self.locks = {p for p in self.locks if not p.startswith(under)}

    def crash(self, how, what='step', path=''):
        sim = self.sim
        sim.count('fault:' + how[0] + ':' + what)
        sim.log('crash', how[0], what, path)
        if how[0] == 'kill':
            image = self.image()
        else:
            image = self.power_image(how[1], how[2], how[3])
        sim.emit(('crash', how, image))
        raise kernel.HarnessError('crash did not end the process')

    # -------------------------------------------------------------- namespace
    def _set_name(self, path, inode):
        self.names[path] = inode
        self.name_log.append(('set', path, inode))

    def _del_name(self, path):
        del self.names[path]
        self.name_log.append(('del', path))

    def sync_names(self):
        self.durable_names = dict(self.names)
        self.name_log = []

    def lookup(self, path, call='open'):
        path = norm(path)
        n = self.names.get(path)
        if n is None:
            parent = self.names.get(os.path.dirname(path))
            if parent is not None and not parent.isdir:
                raise NotADirectoryError(errno.ENOTDIR,
                                         os.strerror(errno.ENOTDIR), path)
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT),
                                    path)
        return n

    def parent_ok(self, path):
        parent = self.names.get(os.path.dirname(path))
        if parent is None:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT),
                                    path)
        if not parent.isdir:
            raise NotADirectoryError(errno.ENOTDIR, os.strerror(errno.ENOTDIR),
                                     path)

    def total(self):
        return sum(len(n.data) for n in self.names.values())

    # ------------------------------------------------------------- file calls
    def open_raw(self, path, mode):
        path = norm(path)
        creating = 'w' in mode or 'x' in mode or 'a' in mode
        n = self.names.get(path)
        if n is not None and n.isdir:
            raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR),
                                    path)
        if n is None:
            if not creating:
                self.lookup(path)
            self.parent_ok(path)
            self.op('create', path)
            n = Inode()
            self._set_name(path, n)
        elif 'x' in mode:
            raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST),
                                  path)
        else:
            self.op('open', path)
            if 'w' in mode:
                self.truncate(n, 0)
        return SimRaw(self, path, n, mode)

    def write(self, n, path, off, data):
        self.op('write', path, n)
        if self.capacity is not None:
            grow = max(0, off + len(data) - len(n.data))
            room = self.capacity - self.total()
            if grow > max(0, room):
                if self.sim.task().quiet == 0 and self.sim.quiet == 0:
                    self.sim.count('fault:full-disk')
                    if self.sim.fault_hook is not None:
                        self.sim.fault_hook('full', 'write', path)
                    part = len(data) - (grow - max(0, room))
                    if part > 0 and len(data) > 8:
                        data = data[:part]
                        self.sim.count('fault:short-write')
                    else:
                        raise OSError(errno.ENOSPC,
                                      os.strerror(errno.ENOSPC), path)
        data = bytes(data)
        if len(data) > 8 and self.faults.get("short") and \
                not self.sim.task().quiet and \
                self.sim.chance('short', self.faults['short']):
            self.sim.count('fault:short-write')
            data = data[:len(data) // 2]
        op = ('w', off, data)
        _apply(n.data, op)
        n.pending.append(op)
        n.mtime = self.sim.now
        return len(data)

    def truncate(self, n, size):
        op = ('t', size)
        _apply(n.data, op)
        n.pending.append(op)

    def fsync(self, n, path):
        self.op('fsync', path, n)
        n.durable = bytes(n.data)
        n.pending = []
        self.sync_names()
        self.sim.count('fsync')

    def sync_all(self):
        for n in self.names.values():
            n.durable = bytes(n.data)
            n.pending = []
        self.sync_names()

    def rename(self, a, b):
        a, b = norm(a), norm(b)
        n = self.lookup(a)
        self.parent_ok(b)
        self.op('rename', a)
        t = self.names.get(b)
        if t is not None and t.isdir and not n.isdir:
            raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), b)
        if n.isdir:
            for p in [p for p in self.names if p.startswith(a + '/')]:
                self._set_name(b + p[len(a):], self.names[p])
                self._del_name(p)
        self._set_name(b, n)
        self._del_name(a)

    def unlink(self, path):
        path = norm(path)
        n = self.lookup(path)
        if n.isdir:
            raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR),
                                    path)
        self.op('unlink', path)
        self._del_name(path)

    def mkdir(self, path):
        path = norm(path)
        if path in self.names:
            raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST),
                                  path)
        self.parent_ok(path)
        self.op('mkdir', path)
        self._set_name(path, Inode(isdir=True))

    def rmdir(self, path):
        path = norm(path)
        n = self.lookup(path)
        if not n.isdir:
            raise NotADirectoryError(errno.ENOTDIR, os.strerror(errno.ENOTDIR),
                                     path)
        if self.listdir(path):
            raise OSError(errno.ENOTEMPTY, os.strerror(errno.ENOTEMPTY), path)
        self.op('rmdir', path)
        self._del_name(path)

    def listdir(self, path):
        path = norm(path)
        n = self.lookup(path)
        if not n.isdir:
            raise NotADirectoryError(errno.ENOTDIR, os.strerror(errno.ENOTDIR),
                                     path)
        pre = path + '/'
        return sorted(p[len(pre):] for p in self.names
                      if p.startswith(pre) and '/' not in p[len(pre):])

    def stat(self, path):
        n = self.lookup(path) if not isinstance(path, Inode) else path
        mode = (statmod.S_IFDIR | 0o755) if n.isdir else (statmod.S_IFREG |
                                                          0o644)
        t = n.mtime
        return os.stat_result((mode, n.number, 1, 1, 0, 0, len(n.data),
                               t, t, t))


class SimRaw(io.RawIOBase):
    def __init__(self, disk, path, inode, mode):
        super().__init__()
        self._disk = disk
        self.name = path
        self._inode = inode
        self._pos = 0
        self._r = 'r' in mode or '+' in mode
        self._w = 'w' in mode or 'a' in mode or '+' in mode or 'x' in mode
        self._append = 'a' in mode
        self.mode = mode
        self._fd = disk.next_fd
        disk.next_fd += 1
        disk.fds[self._fd] = self

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')
        return self._fd

    def isatty(self):
        return False

    def readinto(self, b):
        if not self._r:
            raise io.UnsupportedOperation('not readable')
        self._disk.op('read', self.name, self._inode)
        data = bytes(self._inode.data[self._pos:self._pos + len(b)])
        b[:len(data)] = data
        self._pos += len(data)
        return len(data)

    def readall(self):
        self._disk.op('read', self.name, self._inode)
        data = bytes(self._inode.data[self._pos:])
        self._pos = max(self._pos, len(self._inode.data))
        return data

    def write(self, b):
        if not self._w:
            raise io.UnsupportedOperation('not writable')
        data = bytes(memoryview(b).cast('B')) if not isinstance(b, bytes) \
            else b
        if self._append:
            self._pos = len(self._inode.data)
        if not data:
            return 0
        n = self._disk.write(self._inode, self.name, self._pos, data)
        self._pos += n
        return n

    def seek(self, off, whence=0):
        if whence == 0:
            pos = off
        elif whence == 1:
            pos = self._pos + off
        else:
            pos = len(self._inode.data) + off
        if pos < 0:
            raise OSError(errno.EINVAL, os.strerror(errno.EINVAL))
        self._pos = pos
        return pos

    def tell(self):
        return self._pos

    def truncate(self, size=None):
        if size is None:
            size = self._pos
        self._disk.op('trunc', self.name, self._inode)
        self._disk.truncate(self._inode, size)
        return size

    def close(self):
        if not self.closed:
            self._disk.fds.pop(self._fd, None)
        super().close()


class SimLockFile:
    """Stands in for zc.lockfile.LockFile on the simulated disk."""

    def __init__(self, path, content_template='{pid}'):
        import zc.lockfile
        self._path = path
        sim = kernel.SIM
        if sim is None or not simulated(path):
            self._inner = zc.lockfile.LockFile(path, content_template)
            return
        self._inner = None
        self._disk = sim.disk
        sim.point('lock')
        if path in self._disk.locks:
            raise zc.lockfile.LockError("Couldn't lock %r" % path)
        self._disk.locks.add(path)
        self._held = True
        if path not in self._disk.names:
            self._disk._set_name(path, Inode())

    def close(self):
        if self._inner is not None:
            return self._inner.close()
        if self._held:
            self._held = False
            self._disk.locks.discard(self._path)

    def __del__(self):
        # closing the file gives up the lock
        if getattr(self, '_held', False):
            self.close()


def norm(path):
    path = os.fspath(path)
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    return os.path.normpath(path)


def simulated(path):
    if kernel.SIM is None or kernel.SIM.disk is None:
        return False
    if isinstance(path, int):
        return False
    try:
        path = os.fspath(path)
    except TypeError:
        return False
    if isinstance(path, bytes):
        return path.startswith(b'/simdisk/') or path == b'/simdisk'
    return path.startswith(PREFIX) or path == ROOT


class DirEntry:
    def __init__(self, disk, parent, name):
        self.name = name
        self.path = os.path.join(parent, name)
        self._disk = disk

    def is_dir(self, follow_symlinks=True):
        return self._disk.lookup(self.path).isdir

    def is_file(self, follow_symlinks=True):
        return not self.is_dir()

    def is_symlink(self):
        return False

    def is_junction(self):
        return False

    def stat(self, follow_symlinks=True):
        return self._disk.stat(self.path)

    def inode(self):
        return self._disk.lookup(self.path).number

    def __fspath__(self):
        return self.path


class ScanDir(list):
    def __enter__(self):
        return iter(self)

    def __exit__(self, *a):
        pass

    def close(self):
        pass


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    real_open = builtins.open
    real_io_open = io.open
    R = {name: getattr(os, name) for name in (
        'stat', 'lstat', 'rename', 'replace', 'remove', 'unlink', 'mkdir',
        'rmdir', 'listdir', 'scandir', 'fsync', 'fdatasync', 'access',
        'truncate', 'fstat', 'open', 'ftruncate', 'utime', 'chmod')}

    def disk():
        return kernel.SIM.disk

    def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None,
                 newline=None, closefd=True, opener=None):
        if not simulated(file):
            return real_open(file, mode, buffering, encoding, errors, newline,
                             closefd, opener)
        binary = 'b' in mode
        core = mode.replace('b', '').replace('t', '')
        raw = disk().open_raw(file, core)
        if binary and buffering == 0:
            return raw
        size = io.DEFAULT_BUFFER_SIZE if buffering in (-1, 1) else buffering
        if '+' in core:
            buf = io.BufferedRandom(raw, size)
        elif 'r' in core:
            buf = io.BufferedReader(raw, size)
        else:
            buf = io.BufferedWriter(raw, size)
        if 'a' in core:
            buf.seek(0, 2)
        if binary:
            return buf
        return io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline,
                                line_buffering=buffering == 1)

    builtins.open = sim_open
    io.open = sim_open

    def route(name, fn):
        real = R[name]

        def call(path, *a, **k):
            if simulated(path):
                return fn(disk(), path, *a, **k)
            return real(path, *a, **k)
        call.__name__ = name
        setattr(os, name, call)

    route('stat', lambda d, p, **k: d.stat(p))
    route('lstat', lambda d, p, **k: d.stat(p))
    route('rename', lambda d, p, q, **k: d.rename(p, q))
    route('replace', lambda d, p, q, **k: d.rename(p, q))
    route('remove', lambda d, p, **k: d.unlink(p))
    route('unlink', lambda d, p, **k: d.unlink(p))
    route('mkdir', lambda d, p, mode=0o777, **k: d.mkdir(p))
    route('rmdir', lambda d, p, **k: d.rmdir(p))
    route('scandir', lambda d, p='.', **k: ScanDir(
        DirEntry(d, norm(p), n) for n in d.listdir(p)))
    route('access', lambda d, p, mode, **k: norm(p) in d.names)
    route('utime', lambda d, p, *a, **k: None)
    route('chmod', lambda d, p, *a, **k: None)
    route('truncate', lambda d, p, n: d.truncate(d.lookup(p), n))

    def listdir(path='.'):
        if simulated(path):
            return disk().listdir(path)
        return R['listdir'](path)
    os.listdir = listdir

    def by_fd(name, fn):
        real = R[name]

        def call(fd, *a):
            sim = kernel.SIM
            if sim is not None and sim.disk is not None:
                n = fd if isinstance(fd, int) else fd.fileno()
                if n in sim.disk.fds:
                    return fn(sim.disk, sim.disk.fds[n], *a)
            return real(fd, *a)
        call.__name__ = name
        setattr(os, name, call)

    by_fd('fsync', lambda d, f: d.fsync(f._inode, f.name))
    by_fd('fdatasync', lambda d, f: d.fsync(f._inode, f.name))
    by_fd('fstat', lambda d, f: d.stat(f._inode))
    by_fd('ftruncate', lambda d, f, n: f.truncate(n))

    def os_open(path, flags, mode=0o777, *, dir_fd=None):
        if not simulated(path):
            return R['open'](path, flags, mode, dir_fd=dir_fd)
        d = disk()
        n = d.names.get(norm(path))
        if n is not None and n.isdir:
            raw = SimRaw(d, norm(path), n, 'r')
            return raw._fd
        m = 'r'
        if flags & (os.O_WRONLY | os.O_RDWR):
            m = 'r+'
            if flags & os.O_CREAT and norm(path) not in d.names:
                m = 'w+'
            if flags & os.O_TRUNC:
                m = 'w+'
            if flags & os.O_EXCL and norm(path) in d.names:
                raise FileExistsError(errno.EEXIST, 'File exists', path)
        return d.open_raw(path, m)._fd
    os.open = os_open
    real_close, real_write, real_read = os.close, os.write, os.read

    def os_close(fd):
        sim = kernel.SIM
        if sim is not None and sim.disk is not None and fd in sim.disk.fds:
            sim.disk.fds.pop(fd)
            return None
        return real_close(fd)

    def os_write(fd, data):
        sim = kernel.SIM
        if sim is not None and sim.disk is not None and fd in sim.disk.fds:
            return sim.disk.fds[fd].write(data)
        return real_write(fd, data)

    def os_read(fd, n):
        sim = kernel.SIM
        if sim is not None and sim.disk is not None and fd in sim.disk.fds:
            f = sim.disk.fds[fd]
            b = bytearray(n)
            return bytes(b[:f.readinto(b)])
        return real_read(fd, n)
    os.close, os.write, os.read = os_close, os_write, os_read

    import shutil
    shutil._use_fd_functions = False

    import importlib.machinery
    real_get_data = importlib.machinery.SourceFileLoader.get_data
    real_path_stats = importlib.machinery.SourceFileLoader.path_stats

    def get_data(self, path):
        if simulated(path):
            with sim_open(path, 'rb') as f:
                return f.read()
        return real_get_data(self, path)

    def path_stats(self, path):
        if simulated(path):
            st = os.stat(path)
            return {'mtime': st.st_mtime, 'size': st.st_size}
        return real_path_stats(self, path)
    real_set_data = importlib.machinery.SourceFileLoader.set_data

    def set_data(self, path, data, *, _mode=0o666):
        if not simulated(path):
            return real_set_data(self, path, data, _mode=_mode)
        try:
            parent = os.path.dirname(path)
            if not os.path.isdir(parent):
                os.mkdir(parent)
            with sim_open(path + '.1', 'wb') as f:
                f.write(data)
                f.flush()
                # Python itself does not survive a torn cache file
                os.fsync(f.fileno())
            os.replace(path + '.1', path)
        except OSError:
            pass           # as the real one
    importlib.machinery.SourceFileLoader.set_data = set_data
    importlib.machinery.SourceFileLoader.get_data = get_data
    importlib.machinery.SourceFileLoader.path_stats = path_stats


def install_zodb():
    """After ZODB has been imported: its lock file and its captured fsync."""
    fs = importlib.import_module("ZODB.FileStorage.FileStorage")
    fs.LockFile = SimLockFile
    fs.fsync = os.fsync
    install_order()


class OrderedSet(dict):
    """A set that iterates in insertion order, not by memory address."""

    def add(self, x):
        self[x] = None

    def remove(self, x):
        del self[x]

    def discard(self, x):
        self.pop(x, None)


def install_order():
    """Iteration by address would make runs unrepeatable."""
    mv = importlib.import_module("ZODB.mvccadapter")
    orig = mv.MVCCAdapter.__init__

    def __init__(self, storage):
        orig(self, storage)
        self._instances = OrderedSet()
    mv.MVCCAdapter.__init__ = __init__
