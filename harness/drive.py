"""Drives the real bcalc binary on a pseudo-terminal."""
import errno
import fcntl
import mmap
import os
import pty
import select
import signal
import struct
import subprocess
import tempfile
import termios
import time

from term import Terminal

C = dict(MAGIC=0, OUT=1, WAKES=2, IDLES=3, DISKOPS=4, ARMED=5, KILLAT=6, GATE=7, AT_GATE=8,
         GRANTS=9, TXNS=10, IDLE_NOW=11, GATE2=12, BUSY=13, LASTOP=14, SLEEPS=15,
         FAILAT=16, FAILS=17, ERRNO=18, HALF=19, READS=20, FAILED=21, KINDS=22)

KEYS = {
    'enter': b'\r', 'bs': b'\x7f', 'del': b'\x1b[3~', 'up': b'\x1b[A', 'down': b'\x1b[B',
    'right': b'\x1b[C', 'left': b'\x1b[D', 'home': b'\x1b[H', 'end': b'\x1b[F',
    'c-left': b'\x1b[1;5D', 'c-right': b'\x1b[1;5C', 's-left': b'\x1b[1;2D',
    's-right': b'\x1b[1;2C', 'a-left': b'\x1b[1;3D', 'a-right': b'\x1b[1;3C',
    'cs-left': b'\x1b[1;6D', 'cs-right': b'\x1b[1;6C',
    'c-n': b'\x0e', 'c-d': b'\x04', 'c-c': b'\x03', 'c-z': b'\x1a',
    'c-a': b'\x01', 'c-e': b'\x05', 'c-k': b'\x0b', 'c-w': b'\x17', 'c-l': b'\x0c',
    'tab': b'\t', 'btab': b'\x1b[Z', 'esc': b'\x1b', 'pgup': b'\x1b[5~', 'pgdn': b'\x1b[6~',
    'ins': b'\x1b[2~', 'f1': b'\x1bOP', 'f5': b'\x1b[15~', 'a-x': b'\x1bx', 'a-1': b'\x1b1',
    'e-acute': b'\xc3\xa9', 'pi': b'\xcf\x80', 'emoji': b'\xf0\x9f\x98\x80',
    'c-home': b'\x1b[1;5H', 'c-end': b'\x1b[1;5F', 'c-up': b'\x1b[1;5A', 'c-down': b'\x1b[1;5B',
    'c-del': b'\x1b[3;5~', 'c-space': b'\x00',
}


def key_bytes(k):
    return KEYS[k] if k in KEYS else k.encode('latin-1')


class Stuck(Exception):
    """The program neither answered nor ended within the time allowed."""


class Died(Exception):
    """The program ended although it should not have."""


def die_with_parent():
    import ctypes
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)


class Clock:
    """Seconds that this process has had: a pause of the whole machine counts little."""
    def __init__(self):
        self.last, self.t = time.monotonic(), 0

    def __call__(self):
        m = time.monotonic()
        self.t += min(m - self.last, .5)
        self.last = m
        return self.t


now = Clock()


def patience(t):
    # a program that keeps failing to answer is waited for less and less
    return max(min(t, 2), t / (1 + Session.waited) ** 2)


class Session:
    def __init__(self, binary, args=(), cols=200, rows=50, data_dir=None, shim=None, env=None,
                 timeout=20.0, scratch=None, gate=0, start_row=0, wait=True, cwd=None):
        self.cols, self.rows = cols, rows
        self.timeout = timeout
        self.term = Terminal(cols, rows)
        for _ in range(start_row):
            self.term.primary.linefeed()
        self.replied = 0
        self.out_read = 0
        self.raw = bytearray()
        self.keep_raw = False
        self.code = None
        self.master, slave = pty.openpty()
        fcntl.ioctl(slave, termios.TIOCSWINSZ, struct.pack('HHHH', rows, cols, 0, 0))
        self.term_before = termios.tcgetattr(slave)
        e = {'PATH': '/usr/bin:/bin', 'HOME': '/nonexistent', 'TERM': 'xterm', 'LANG': 'C.UTF-8',
             'RUST_BACKTRACE': '0'}
        if data_dir is not None:
            e['_B_UTIL_DATA_DIR'] = data_dir
        if env:
            e.update(env)
        fd, self.ctl_path = tempfile.mkstemp(prefix='ctl', dir=scratch)
        os.ftruncate(fd, 512)
        self.ctl = mmap.mmap(fd, 512)
        os.close(fd)
        self.nr, nw = os.pipe()
        gr, self.gw = os.pipe()
        os.set_blocking(self.nr, False)
        os.set_blocking(nw, False)
        os.set_blocking(self.master, False)
        if gate:
            self.cset('GATE', gate & 1)
            self.cset('GATE2', 1 if gate & 2 else 0)
        e['LD_PRELOAD'] = shim
        e['SHIM_CTL'] = self.ctl_path
        e['SHIM_NOTIFY_FD'] = str(nw)
        e['SHIM_GRANT_FD'] = str(gr)
        self.err_r, err_w = os.pipe()
        os.set_blocking(self.err_r, False)
        self.err = b''

        def pre():
            os.setsid()
            fcntl.ioctl(0, termios.TIOCSCTTY, 0)
            die_with_parent()
        self.p = subprocess.Popen([binary, *args], stdin=slave, stdout=slave, stderr=err_w,
                                  env=e, close_fds=True, pass_fds=(nw, gr), preexec_fn=pre, cwd=cwd)
        self.slave = slave
        os.close(err_w)
        os.close(nw)
        os.close(gr)
        if wait:
            self.wait_prompt(0)

    # -- shared control block -------------------------------------------------------------
    def cget(self, name):
        return struct.unpack_from('<q', self.ctl, C[name] * 8)[0]

    def cset(self, name, v):
        struct.pack_into('<q', self.ctl, C[name] * 8, v)

    # -- plumbing ------------------------------------------------------------------------
    def pump(self, wait):
        """Move bytes between the program and the emulator; wait up to `wait` s for some."""
        r, _, _ = select.select([self.master, self.nr, self.err_r], [], [], wait)
        got = False
        if self.nr in r:
            try:
                got = bool(os.read(self.nr, 65536))
            except BlockingIOError:
                pass
        if self.err_r in r:
            try:
                d = os.read(self.err_r, 65536)
                self.err += d
                got = got or bool(d)
            except BlockingIOError:
                pass
        if self.master in r:
            try:
                d = os.read(self.master, 65536)
                if d:
                    got = True
                    self.out_read += len(d)
                    if self.keep_raw:
                        self.raw += d
                    self.term.feed(d)
            except BlockingIOError:
                pass
            except OSError as ex:
                if ex.errno != errno.EIO:
                    raise
        while self.term.replies:
            self.wake_mark = self.cget('WAKES')
            self.send(self.term.replies.pop(0))
            self.replied += 1
        return got

    def send(self, data):
        while data:
            try:
                n = os.write(self.master, data)
                data = data[n:]
            except BlockingIOError:
                self.pump(0.05)

    def exited(self):
        if self.code is None:
            self.code = self.p.poll()
        return self.code is not None

    waited = 0      # how often this process has waited in vain

    def until(self, timeout=None):
        return now() + patience(timeout or self.timeout)

    def stuck(self):
        Session.waited += 1
        return Stuck()

    def settled(self, wakes):
        return (self.cget('WAKES') > wakes and self.cget('IDLE_NOW') == 1
                and self.out_read >= self.cget('OUT') and not self.term.replies)

    def wait_idle(self, wakes, timeout=None):
        end = self.until(timeout)
        while True:
            if self.settled(wakes) and self.cget('WAKES') > getattr(self, 'wake_mark', -1):
                return True
            if self.exited():
                self.drain()
                return False
            left = end - now()
            if left <= 0:
                raise self.stuck()
            self.pump(min(left, 0.25))

    def wait_prompt(self, queries, timeout=None):
        """Wait until the program has asked for the cursor position once more and is idle."""
        end = self.until(timeout)
        while True:
            if self.term.queries > queries and self.replied == self.term.queries \
                    and self.settled(self.wake_mark):
                return True
            if self.exited():
                self.drain()
                return False
            left = end - now()
            if left <= 0:
                raise self.stuck()
            self.pump(min(left, 0.25))

    def wait_exit(self, timeout=None):
        end = self.until(timeout)
        while not self.exited():
            if now() > end:
                raise self.stuck()
            self.pump(0.02)
        self.drain()
        return self.code

    def drain(self):
        for _ in range(1000):
            if not self.pump(0):
                r, _, _ = select.select([self.master], [], [], 0)
                if not r:
                    break
                # EIO: nothing more
                break

    # -- what a user does ----------------------------------------------------------------
    def key(self, k, timeout=None):
        """One key. Returns False if the program ended."""
        w = self.cget('WAKES')
        self.wake_mark = w
        q = self.term.queries
        self.send(key_bytes(k))
        if k == 'enter' or k.endswith('-enter'):
            return self.wait_prompt(q, timeout)
        return self.wait_idle(w, timeout)

    def resize(self, cols, rows):
        w = self.cget('WAKES')
        self.wake_mark = w
        same = (cols, rows) == (self.cols, self.rows)
        self.cols, self.rows = cols, rows
        self.term.resize(cols, rows)
        fcntl.ioctl(self.master, termios.TIOCSWINSZ, struct.pack('HHHH', rows, cols, 0, 0))
        if same:        # a new size has signalled it
            os.kill(self.p.pid, signal.SIGWINCH)
        return self.wait_idle(w)

    def type(self, text):
        if text:
            w = self.cget('WAKES')
            self.wake_mark = w
            self.send(text.encode('latin-1'))

    def line(self, text, timeout=None):
        """Submit a line on an empty prompt; returns the list of answered logical lines,
        or None if the program ended."""
        q = self.term.queries
        start = self.term.query_pos[-1][0]
        data = text.encode('latin-1')
        while len(data) > 500:      # crossterm waits for more input after a full buffer
            self.wake_mark = self.cget('WAKES')
            self.send(data[:500])
            data = data[500:]
            if not self.wait_idle(self.wake_mark, timeout):
                return None
        self.send(data + b'\r')
        if not self.wait_prompt(q, timeout):
            return None
        return self.answer(start, len(text))

    def echo_rows(self, length):
        return max(1, -(-length // (self.cols - 2)))

    def answer(self, start, length):
        end = self.term.query_pos[-1][0]
        return self.term.scr.logical(start + self.echo_rows(length), end)

    def termios_restored(self):
        return termios.tcgetattr(self.slave)[:6] == self.term_before[:6] and not self.term.left

    def kill(self):
        if self.code is None:
            try:
                self.p.kill()
            except ProcessLookupError:
                pass
            self.code = self.p.wait()

    def close(self):
        self.kill()
        for fd in (self.master, self.slave, self.nr, self.gw, self.err_r):
            try:
                os.close(fd)
            except OSError:
                pass
        self.ctl.close()
        try:
            os.unlink(self.ctl_path)
        except OSError:
            pass

    # -- gating --------------------------------------------------------------------------
    def grant(self):
        os.write(self.gw, b'x')
