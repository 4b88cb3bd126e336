'''
The files of a process that may stop: every operation that changes a file is a
point at which it can stop for good, a file being written having kept a part.
'''
import __builtin__
import os

WRITING = [getattr(os, k) for k in ('O_WRONLY', 'O_RDWR', 'O_CREAT') if hasattr(os, k)]
CALLS = [k for k in ('rename', 'remove', 'unlink', 'symlink', 'link', 'mkdir', 'chmod', 'ftruncate') if hasattr(os, k)]


class Crash(BaseException):
    'the process stops here'


class Disk(object):
    'with Disk(k): stops at the k-th operation (0: never); log, dead and n tell what happened'
    def __init__(self, k=0):
        self.k, self.n, self.log, self.dead, self.armed = k, 0, [], False, False

    def point(self, what):
        if self.dead:
            raise Crash()
        if self.armed:
            self.n += 1
            self.log.append(what)
            if self.n == self.k:
                self.dead = True
                raise Crash()

    def parts(self, data, put):
        third = max(1, len(data) // 3)
        for part in (data[:third], data[third:2 * third], data[2 * third:]):
            self.point('write')
            put(part)

    def __enter__(self):
        disk = self
        real = self.real = dict((k, getattr(os, k)) for k in CALLS + ['open', 'fdopen', 'write'] if hasattr(os, k))
        real_open = self.real_open = __builtin__.open

        class File(object):
            'the content reaches the disk in three parts, when the file is flushed or closed'
            def __init__(self, f):
                self.f, self.data, self.over = f, [], False
            def __getattr__(self, k):
                return getattr(self.f, k)
            def write(self, s):
                self.data.append(s)
            def writelines(self, lines):
                self.data.extend(lines)
            def __enter__(self):
                return self
            def __exit__(self, *a):
                self.close()
            def __del__(self):
                # what a process that stopped had not written is lost
                pass
            def flush(self):
                data, self.data = ''.join(self.data), []
                if data:
                    disk.parts(data, self.f.write)
                self.f.flush()
            def close(self):
                if self.over:
                    return
                self.over = True
                try:
                    self.flush()
                finally:
                    self.f.close()
                disk.point('close')

        def opened(path, mode='r', *a):
            if 'w' in mode or 'a' in mode or '+' in mode:
                disk.point('open')
                return File(real_open(path, mode, *a))
            return real_open(path, mode, *a)

        def os_open(path, flags, *a):
            if [x for x in WRITING if x and flags & x]:
                disk.point('open')
            return real['open'](path, flags, *a)

        def fdopen(fd, mode='r', *a):
            f = real['fdopen'](fd, mode, *a)
            return File(f) if 'w' in mode or 'a' in mode or '+' in mode else f

        def os_write(fd, data):
            disk.parts(data, lambda part: real['write'](fd, part))
            return len(data)

        def hooked(k):
            def call(*a):
                disk.point(k)
                return real[k](*a)
            return call
        __builtin__.open = opened
        for k in real:
            setattr(os, k, {'open': os_open, 'fdopen': fdopen, 'write': os_write}.get(k) or hooked(k))
        self.armed = True
        return self

    def __exit__(self, *a):
        self.armed = False
        __builtin__.open = self.real_open
        for k in self.real:
            setattr(os, k, self.real[k])
        return False
