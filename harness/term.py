"""A small VT100/xterm screen emulator: just enough to see what a user of bcalc sees.

Rows are kept with an absolute index: the primary screen keeps unlimited scrollback, so a position
is remembered as an absolute row even after scrolling.
"""
import re

PRINT = re.compile(rb'[\x20-\x7e\x80-\xff]+')
CSI = re.compile(rb'\x1b\[([?>=]?)([0-9;]*)([\x20-\x2f]*)([\x40-\x7e])')


class Screen:
    def __init__(self, cols, rows):
        self.cols, self.rows = cols, rows
        self.lines = [bytearray(b' ' * cols) for _ in range(rows)]
        self.wrapped = [False] * rows   # row i is a soft-wrap continuation of row i-1
        self.top = 0                    # absolute index of the first visible row
        self.x = 0
        self.y = 0                      # absolute
        self.pending = False
        self.saved = (0, 0)
        self.hard = 0                   # line feeds that were asked for

    def ensure(self, y):
        while len(self.lines) <= y:
            self.lines.append(bytearray(b' ' * self.cols))
            self.wrapped.append(False)

    def linefeed(self, soft=False):
        self.hard += not soft
        if self.y == self.top + self.rows - 1:
            self.top += 1
            self.ensure(self.top + self.rows - 1)
        self.y += 1
        self.wrapped[self.y] = soft

    def put(self, data):
        i = 0
        n = len(data)
        while i < n:
            if self.pending:
                self.pending = False
                self.x = 0
                self.linefeed(True)
            room = self.cols - self.x
            part = data[i:i + room]
            row = self.lines[self.y]
            row[self.x:self.x + len(part)] = part
            self.x += len(part)
            i += len(part)
            if self.x >= self.cols:
                self.x = self.cols - 1
                self.pending = True

    def goto(self, x, y):
        self.pending = False
        self.x = min(max(x, 0), self.cols - 1)
        self.y = min(max(y, self.top), self.top + self.rows - 1)

    def erase_line(self, mode):
        row = self.lines[self.y]
        if mode == 0:
            row[self.x:] = b' ' * (self.cols - self.x)
        elif mode == 1:
            row[:self.x + 1] = b' ' * (self.x + 1)
        else:
            row[:] = b' ' * self.cols
        if mode != 0 or self.x == 0:
            self.wrapped[self.y] = False

    def erase_display(self, mode):
        last = self.top + self.rows
        if mode == 0:
            self.erase_line(0)
            rng = range(self.y + 1, last)
        elif mode == 1:
            self.erase_line(1)
            rng = range(self.top, self.y)
        else:
            rng = range(self.top, last)
        for r in rng:
            self.lines[r][:] = b' ' * self.cols
            self.wrapped[r] = False

    def resize(self, cols, rows):
        for i, row in enumerate(self.lines):
            if len(row) < cols:
                row.extend(b' ' * (cols - len(row)))
            else:
                del row[cols:]
        if rows < self.rows:
            # keep the cursor visible
            over = (self.y - self.top) - (rows - 1)
            if over > 0:
                self.top += over
        # what is below the bottom is gone
        del self.lines[self.top + rows:]
        del self.wrapped[self.top + rows:]
        self.cols, self.rows = cols, rows
        self.ensure(self.top + rows - 1)
        self.x = min(self.x, cols - 1)
        self.pending = False

    def text(self, y):
        return self.lines[y].decode('latin-1') if y < len(self.lines) else ' ' * self.cols

    def logical(self, y0, y1):
        """Rows y0..y1-1, soft-wrapped continuations joined, trailing blanks dropped."""
        out = []
        for y in range(y0, y1):
            t = self.text(y)
            if self.wrapped[y] and out and y > y0:
                out[-1] += t
            else:
                out.append(t)
        return [t.rstrip(' ') for t in out]


class Terminal:
    def __init__(self, cols, rows):
        self.primary = Screen(cols, rows)
        self.alt = None
        self.buf = b''
        self.queries = 0        # cursor position requests seen
        self.query_pos = []     # (absolute row, column) at each request
        self.query_in = []      # the screen, and the line feeds so far, at each request
        self.replies = []       # bytes to send back
        self.unknown = []
        self.mute = False       # does not say where the cursor is
        self.alt_entered = 0
        self.alt_left = 0
        self.left = set()       # what the program has switched from where a terminal starts

    def switch(self, what, on):
        (self.left.add if on else self.left.discard)(what)

    @property
    def scr(self):
        return self.alt if self.alt is not None else self.primary

    def resize(self, cols, rows):
        self.primary.resize(cols, rows)
        if self.alt is not None:
            self.alt.resize(cols, rows)

    def feed(self, data):
        b = self.buf + data
        i, n = 0, len(b)
        while i < n:
            c = b[i]
            if 0x20 <= c < 0x7f or c >= 0x80:
                m = PRINT.match(b, i)
                self.scr.put(m.group())
                i = m.end()
                continue
            s = self.scr
            if c == 0x0a or c == 0x0b or c == 0x0c:
                s.linefeed()
                s.pending = False
                i += 1
            elif c == 0x0d:
                s.x = 0
                s.pending = False
                i += 1
            elif c == 0x08:
                s.pending = False
                s.x = max(0, s.x - 1)
                i += 1
            elif c == 0x09:
                s.x = min(s.cols - 1, (s.x // 8 + 1) * 8)
                i += 1
            elif c == 0x07:
                i += 1
            elif c == 0x1b:
                m = CSI.match(b, i)
                if m:
                    self.csi(m.group(1), m.group(2), m.group(4))
                    i = m.end()
                    continue
                rest = b[i:]
                if len(rest) == 1 or (rest[1:2] == b'[' and
                                      re.fullmatch(rb'\x1b\[[?>=]?[0-9;]*[\x20-\x2f]*', rest)):
                    break   # incomplete
                d = rest[1:2]
                if d == b'7':
                    s.saved = (s.x, s.y)
                elif d == b'8':
                    s.x, s.y = s.saved
                elif d == b'D':
                    s.linefeed()
                elif d == b'E':
                    s.linefeed()
                    s.x = 0
                elif d in (b'=', b'>'):
                    self.switch('keypad', d == b'=')
                else:
                    self.unknown.append(rest[:2])
                i += 2
            else:
                self.unknown.append(bytes([c]))
                i += 1
        self.buf = b[i:]

    def csi(self, priv, params, fin):
        s = self.scr
        ps = [int(p) if p else 0 for p in params.split(b';')] if params else []
        def p(k, d):
            return ps[k] if k < len(ps) and ps[k] else d
        f = fin.decode()
        if priv == b'?':
            if f in 'hl':
                for v in ps:
                    if v in (1049, 47, 1047):
                        if f == 'h':
                            self.alt_entered += 1
                            if self.alt is None:
                                y = self.primary.y - self.primary.top
                                self.alt = Screen(self.primary.cols, self.primary.rows)
                                self.alt.x, self.alt.y = self.primary.x, y
                        else:
                            self.alt_left += 1
                            self.alt = None
                    else:       # the cursor is shown, and lines wrap, to begin with
                        self.switch('?%d' % v, (f == 'h') != (v in (7, 25)))
            return
        if priv:
            return
        if f == 'A':
            s.goto(s.x, s.y - p(0, 1))
        elif f in 'Be':
            s.goto(s.x, s.y + p(0, 1))
        elif f in 'Ca':
            s.goto(s.x + p(0, 1), s.y)
        elif f == 'D':
            s.goto(s.x - p(0, 1), s.y)
        elif f == 'E':
            s.goto(0, s.y + p(0, 1))
        elif f == 'F':
            s.goto(0, s.y - p(0, 1))
        elif f in 'G`':
            s.goto(p(0, 1) - 1, s.y)
        elif f in 'Hf':
            s.goto(p(1, 1) - 1, s.top + p(0, 1) - 1)
        elif f == 'd':
            s.goto(s.x, s.top + p(0, 1) - 1)
        elif f == 'J':
            s.erase_display(ps[0] if ps else 0)
        elif f == 'K':
            s.erase_line(ps[0] if ps else 0)
        elif f == 'X':
            k = min(p(0, 1), s.cols - s.x)
            s.lines[s.y][s.x:s.x + k] = b' ' * k
        elif f == 'P':
            k = min(p(0, 1), s.cols - s.x)
            row = s.lines[s.y]
            del row[s.x:s.x + k]
            row.extend(b' ' * k)
        elif f == '@':
            k = min(p(0, 1), s.cols - s.x)
            row = s.lines[s.y]
            row[s.x:s.x] = b' ' * k
            del row[s.cols:]
        elif f == 's':
            s.saved = (s.x, s.y)
        elif f == 'u':
            s.x, s.y = s.saved
        elif f == 'n':
            if p(0, 0) == 6:
                self.queries += 1
                self.query_pos.append((s.y, s.x))
                self.query_in.append((s, s.hard))
                if not self.mute:
                    self.replies.append(b'\x1b[%d;%dR' % (s.y - s.top + 1, s.x + 1))
        elif f == 'm':
            for v in ps or [0]:
                if v == 0:
                    self.left.discard('style')
                elif v not in (22, 23, 24, 25, 27, 28, 29, 39, 49, 59):
                    self.left.add('style')
        elif f in 'hl':
            for v in ps:
                self.switch('%d' % v, f == 'h')
        elif f == 'r':
            self.switch('region', bool(ps) and not (p(0, 1) == 1 and p(1, s.rows) == s.rows))
        elif f == 'q':
            self.switch('cursor', p(0, 0) > 1)
        elif f == 't':
            pass
        else:
            self.unknown.append(b'CSI ' + params + fin)
