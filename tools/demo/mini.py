"""A small driver for demonstrations: bcalc on a pseudo terminal, with saved data in a scratch directory."""
import fcntl
import os
import pty
import re
import select
import shutil
import signal
import sqlite3
import struct
import sys
import tempfile
import termios
import time

BIN = os.path.abspath('target/debug/bcalc')


class Scratch:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='demo', dir='/tmp')

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)

    @property
    def path(self):
        return os.path.join(self.dir, 'bcalc', 'saved_data.sqlite')

    def sql(self, text, args=()):
        c = sqlite3.connect(self.path, timeout=10)
        try:
            rows = c.execute(text, args).fetchall()
            c.commit()
            return rows
        finally:
            c.close()

    def history(self):
        return [r[0] for r in self.sql('select input from input_history order by id')]

    def variables(self):
        return {r[0]: r[1] + '/' + r[2] for r in self.sql('select name, numer, denom from variable_history')}

    def chain(self):
        """The lines as the links give them, newest first."""
        rows = {r[0]: r[1:] for r in self.sql('select id, input, next, prev from input_history')}
        tags = dict(self.sql('select key, value from input_history_tags'))
        out, at, newer = [], tags[1], None
        while at is not None and len(out) <= len(rows):
            inp, nxt, prv = rows[at]
            assert nxt == newer, 'broken chain'
            out.append(inp)
            newer, at = at, prv
        assert tags[2] == newer and len(out) == len(rows), 'broken chain'
        return out


class Session:
    def __init__(self, scratch=None, args=(), cols=200, rows=50, env=None):
        e = {k: v for k, v in os.environ.items() if k != '_B_UTIL_DATA_DIR'}
        if scratch is not None:
            e['_B_UTIL_DATA_DIR'] = scratch.dir
        e.update(env or {})
        self.raw = b''
        self.seen = 0
        self.status = None
        self.pid, self.fd = pty.fork()
        if self.pid == 0:
            time.sleep(0.05)
            os.execve(BIN, [BIN] + list(args), e)
        fcntl.ioctl(self.fd, termios.TIOCSWINSZ, struct.pack('HHHH', rows, cols, 0, 0))
        self.answered = 0
        self.row = 1
        self.prompt()

    def pump(self, wait):
        r, _, _ = select.select([self.fd], [], [], wait)
        if not r:
            return False
        try:
            d = os.read(self.fd, 65536)
        except OSError:
            d = b''
        if not d:
            self.ended()
            return False
        self.raw += d
        n = self.raw.count(b'\x1b[6n')
        while self.answered < n:
            self.answered += 1
            os.write(self.fd, b'\x1b[%d;1R' % self.row)
        return True

    def ended(self):
        if self.status is None:
            self.status = os.waitpid(self.pid, 0)[1]

    def settle(self, quiet=0.25, limit=20):
        """Reads until nothing has come for a while."""
        end = time.time() + limit
        while self.status is None and time.time() < end and self.pump(quiet):
            pass

    def prompt(self, limit=20):
        """Reads until the next cursor position request has been followed by a prompt."""
        end = time.time() + limit
        want = self.answered + 1
        while self.status is None and time.time() < end:
            at = [m.end() for m in re.finditer(rb'\x1b\[6n', self.raw)]
            if len(at) >= want and b'# ' in self.raw[at[want - 1]:]:
                self.settle(0.03)
                return True
            self.pump(0.5)
        return False

    def keys(self, data, quiet=0.25):
        """Types something that does not submit a line; what was printed for it."""
        n = len(self.raw)
        os.write(self.fd, data if isinstance(data, bytes) else data.encode())
        self.settle(quiet)
        return self.raw[n:].decode('utf-8', 'replace')

    def line(self, text, limit=20):
        """Submits a line; the lines of the answer."""
        self.keys(text, 0.06)
        return self.enter(limit)

    def enter(self, limit=20):
        n = len(self.raw)
        os.write(self.fd, b'\r')
        if not self.prompt(limit) and self.status is None:
            return ['(no answer)']
        text = self.raw[n:].decode('utf-8', 'replace')
        text = text.split('\x1b[6n')[0]
        # Everything up to the first newline repeats the line.
        parts = re.sub(r'\x1b\[[0-9;?]*[A-Za-z]', '', text).replace('\r', '').split('\n')
        return parts[1:-1]

    def close(self):
        if self.status is None:
            try:
                os.write(self.fd, b'\x04')
            except OSError:
                pass
            end = time.time() + 5
            while self.status is None and time.time() < end:
                self.pump(0.3)
            if self.status is None:
                self.kill()
        os.close(self.fd)
        return self.status

    def kill(self):
        if self.status is None:
            os.kill(self.pid, signal.SIGKILL)
            self.ended()


FAILED = []


def expect(what, got, want):
    if got != want:
        FAILED.append(what)
        print('%s: %r instead of %r' % (what, got, want))


def done():
    sys.exit(1 if FAILED else 0)
