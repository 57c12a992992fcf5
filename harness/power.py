"""What the disk may hold after a loss of power: works on the log that the shim writes."""
import os
import struct

SECTOR = 512


def read_log(path):
    """-> [[code, path, offset, data], ...]"""
    with open(path, 'rb') as f:
        raw = f.read()
    ops, i = [], 0
    while i + 32 <= len(raw):
        code, off, np, nd = struct.unpack_from('<4q', raw, i)
        i += 32
        name = raw[i:i + np].decode('utf-8', 'surrogateescape')
        i += np
        ops.append([code, name, off, raw[i:i + nd]])
        i += nd
    return ops


WRITE, TRUNCATE, UNLINK, SYNC, CREATE, RENAME = 2, 3, 4, 5, 6, 8


def put(content, op):
    code, _, off, data = op
    if code == TRUNCATE:
        return content[:off] + b'\0' * (off - len(content))
    if len(content) < off:
        content += b'\0' * (off - len(content))
    return content[:off] + data + content[off + len(data):]


class File:
    def __init__(self, content):
        self.synced, self.pending, self.seen = content, [], content


class Disk:
    """Files of one directory: what the program sees, and what is certain to be on the disk."""

    def __init__(self, root):
        self.root = os.path.realpath(root)
        self.seen, self.synced, self.pending = {}, {}, []       # name -> File; directory operations not synced
        for d, _, files in os.walk(self.root):
            for n in files:
                p = os.path.join(d, n)
                with open(p, 'rb') as f:
                    self.seen[os.path.relpath(p, self.root)] = File(f.read())
        self.synced = dict(self.seen)

    def name(self, path):
        path = path[:-len(' (deleted)')] if path.endswith(' (deleted)') else path
        path = os.path.join(os.path.realpath(os.path.dirname(path)), os.path.basename(path))
        return os.path.relpath(path, self.root) if path == self.root or path.startswith(self.root + os.sep) else None

    def change(self, op):
        self.pending.append(op)
        self.entry(self.seen, op)

    @staticmethod
    def entry(names, op):
        if op[0] == 'set':
            names[op[1]] = op[2]
        else:
            names.pop(op[1], None)

    def do(self, op):
        code, path = op[:2]
        n = self.name(path)
        if n is None:
            return
        if code == CREATE:
            if n not in self.seen:
                self.change(('set', n, File(b'')))
        elif code == UNLINK:
            self.change(('del', n))
        elif code == RENAME:
            to = self.name(op[3].decode('utf-8', 'surrogateescape'))
            if to is not None and n in self.seen:
                f = self.seen[n]
                self.pending.append(('del', n))
                self.change(('set', to, f))
                self.seen.pop(n, None)
        elif code == SYNC:
            if n in self.seen:
                f = self.seen[n]
                f.synced, f.pending = f.seen, []
            else:                               # a directory: all of its entries
                for o in self.pending:
                    self.entry(self.synced, o)
                self.pending = []
        elif n in self.seen:
            f = self.seen[n]
            f.seen = put(f.seen, op)
            f.pending.append(op)

    def is_what_there_is(self):
        """Does the log explain the files?"""
        have = {}
        for d, _, files in os.walk(self.root):
            for n in files:
                p = os.path.join(d, n)
                with open(p, 'rb') as f:
                    have[os.path.relpath(p, self.root)] = f.read()
        mine = {n: f.seen for n, f in self.seen.items()}
        skip = lambda m: {n: c for n, c in m.items() if not n.endswith('-shm')}     # rebuilt whenever it is needed
        return skip(have) == skip(mine)

    # -- images ----------------------------------------------------------------------------
    def image(self, entries, writes):
        """entries: how many of the unsynced directory operations are on the disk; writes(file) -> those of its unsynced
        writes that are."""
        names = dict(self.synced)
        for o in self.pending[:entries]:
            self.entry(names, o)
        out = {}
        for n, f in names.items():
            c = f.synced
            for o in writes(f):
                c = put(c, o)
            out[n] = c
        return out

    def images(self, rnd, extra):
        """Possible contents of the disk, without repetitions."""
        nothing, everything = (lambda f: []), (lambda f: f.pending)

        def some(f):
            return [o for o in f.pending if rnd.random() < .5]

        def torn(f):
            out = []
            for o in f.pending:
                if rnd.random() < .6:
                    code, n, off, data = o
                    if code == WRITE and len(data) > SECTOR and rnd.random() < .5:
                        k = SECTOR * rnd.randint(1, len(data) // SECTOR)
                        data = data[:k]
                    out.append([code, n, off, data])
            return out
        n = len(self.pending)
        todo = [(0, nothing), (n, everything), (n, nothing), (0, everything)]
        for _ in range(extra):
            todo.append((rnd.randint(0, n), rnd.choice([some, some, torn])))
        res = []
        for k, w in todo:
            im = self.image(k, w)
            if im not in res:
                res.append(im)
        return res


def lay(image, root):
    for n, c in image.items():
        p = os.path.join(root, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(c)
