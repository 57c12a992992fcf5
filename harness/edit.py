"""Scenarios of editing keys on the real program, with what the screen shows after them, judged by TraceEditor."""
import fcntl
import os
import select
import sqlite3
import struct
import termios
import time

import drive
import lib
import store
from calc import cfg_args, tail
from drive import KEYS, Session, Stuck, key_bytes

QUIT = ('c-d', 'c-c', 'c-z', 'u-c-d', 'u-c-c', 'u-c-z')
FAILURES = ('file for directory', 'directory for file', 'garbage', 'newer', 'no tables', 'wrong tables')
LATER = ('drop lines', 'drop variables', 'garbage', 'no chain')


def break_data(data_dir, how):
    d, f = os.path.join(data_dir, 'bcalc'), store.db_path(data_dir)
    if how == 'file for directory':
        open(d, 'w').close()
        return
    if how == 'newer':
        return store.build_db(data_dir, {'hist': [[1, '1']], 'version': 9, 'minimum': 9})
    os.makedirs(d, exist_ok=True)
    if how == 'directory for file':
        os.mkdir(f)
    elif how == 'garbage':
        with open(f, 'r+b' if os.path.exists(f) else 'wb') as o:
            o.write(b'no saved data ' * 2000)
    else:
        con = sqlite3.connect(f)
        con.executescript({'no tables': 'CREATE TABLE meta_int(x);', 'wrong tables': 'CREATE TABLE meta_int(key, value); INSERT INTO meta_int VALUES (1, \'x\');',
                           'drop lines': 'DROP TABLE input_history;', 'drop variables': 'DROP TABLE variable_history;',
                           'no chain': 'DROP TABLE input_history_tags;'}[how])
        con.commit()
        con.close()


def screen(s):
    scr = s.term.scr
    rows = [scr.text(y).rstrip(' ') for y in range(scr.top, scr.top + scr.rows)]
    while rows and rows[-1] == '':
        rows.pop()
    return {'screen': rows, 'cur': [scr.y - scr.top, scr.x]}


def unread(s):
    select.select([s.slave], [], [], 0)         # makes what has been written to the other side arrive
    return struct.unpack('i', fcntl.ioctl(s.slave, termios.FIONREAD, b'\0' * 4))[0]


class Editing(store.Runner):
    """One session 'e' that is edited in, and others on the same saved data."""

    def __init__(self, binary, scratch, unit):
        super().__init__(binary, scratch)
        self.u = unit
        self.db = unit.get('db', False)
        if unit.get('broken'):
            break_data(self.dir, unit['broken'])
            unit = self.u = dict(unit, nosnap=True)
        if unit.get('given'):
            store.build_db(self.dir, unit['given'])
            self.events.append({'e': 'given', 'db': self.snap()})

    def snap_into(self, ev):
        if self.db and not self.u.get('nosnap'):
            ev['db'] = self.snap()
        return ev

    def exit(self, why, **kw):
        s = self.ses.pop('e')
        try:
            s.wait_exit(10)
            code = s.code
        except Stuck:
            code = -99
        ev = {'e': 'exit', 's': 'e', 'why': why, 'code': code, 'err': '\n'.join(tail(s)), 'modes': s.termios_restored(),
              'inalt': s.term.alt is not None, 'alt': self.u.get('alt', False), 'cols': s.cols, **kw}
        s.close()
        self.events.append(self.snap_into(ev))
        self.dead = True

    def begin(self):
        u = self.u
        for q in u.get('others', []):
            self.open(q, {})
        if self.dead:
            return
        args = [*(['-a'] if u.get('alt') else []), *([] if self.db else ['--no-db']), *cfg_args(u.get('cfg', {}))]
        s = Session(self.binary, args, cols=u.get('cols', 80), rows=u.get('rows', 24), shim=lib.SHIM, data_dir=self.dir if self.db else None,
                    scratch=self.scratch, timeout=20.0, wait=False, start_row=u.get('start_row', 0))
        s.term.mute = u.get('mute', False)
        self.ses['e'] = s
        try:
            up = s.wait_prompt(0)
        except Stuck:
            up = False
        if not up:
            return self.exit('fail' if u.get('broken') or u.get('mute') else 'size')
        if u.get('broken'):
            self.dead = True
            return
        if self.db:
            self.events.append(self.snap_into({'e': 'open', 's': 'e', 'cfg': u.get('cfg', {})}))
        self.events.append({'e': 'show', 's': 'e', 'alt': u.get('alt', False), 'cols': s.cols, 'rows': s.rows, 'cfg': u.get('cfg', {}),
                            **(screen(s) if u.get('see', True) else {})})

    def keys(self, ks, see=True):
        s = self.ses['e']
        while len(ks) > 200 and not self.dead:      # crossterm waits for more input after a full buffer
            self.keys(ks[:200], see)
            ks = ks[200:]
        if self.dead or not ks:
            return
        w = s.cget('WAKES')
        s.wake_mark = w
        s.send(b''.join(key_bytes(k) for k in ks))
        ev = {'e': 'keys', 's': 'e', 'keys': list(ks)}
        try:
            ok = s.wait_idle(w)
            while ok and unread(s):
                w = s.wake_mark = s.cget('WAKES')
                ok = s.wait_idle(w)
        except Stuck:
            ok = True
            self.events.append(dict(ev, keys=['!no answer to'] + ev['keys']))
            self.dead = True
            return
        if not ok:
            return self.exit(([k for k in ks if k in QUIT] + ['key'])[0])
        if see and self.u.get('see', True):
            ev.update(screen(s))
        self.events.append(ev)

    def enter(self, key='enter'):
        s = self.ses['e']
        q, lf = s.term.queries, s.term.scr.hard
        try:
            ok = s.key(key)
        except Stuck:
            self.events.append({'e': 'enter', 's': 'e', 'out': ['!no answer']})
            self.dead = True
            return
        if not ok:
            self.events.append({'e': 'enter', 's': 'e', 'out': ['!ended', *tail(s)]})
            self.dead = True
            return
        ev = {'e': 'enter', 's': 'e'}
        if self.u.get('see', True):
            ev.update(screen(s))
        self.events.append(self.snap_into(ev))
        ev['rows'] = self.written(s, lf)

    def written(self, s, lf):
        # what was written before the last prompt and after the first lf ends of line, as one row for each; the echo of a
        # line takes as many as the specification knows
        scr, n = s.term.query_in[-1]
        rows, y, n = [], s.term.query_pos[-1][0] - 1, n - lf
        while n > 0 and y >= 0:
            t = scr.text(y)
            while scr.wrapped[y] and y > 0:
                y -= 1
                t = scr.text(y) + t
            rows.insert(0, t.rstrip(' '))
            y -= 1
            n -= 1
        return rows

    def ahead(self, ks, cuts, pause):
        """Writes the keys in a few pieces (cut behind the keys numbered in cuts), not waiting for prompts."""
        s = self.ses['e']
        lf = s.term.scr.hard
        n = sum(k == 'enter' for k in ks)
        q = s.term.queries
        quits = ks[-1] in QUIT
        piece = b''
        for i, k in enumerate(ks):
            piece += key_bytes(k)
            if i in cuts or i == len(ks) - 1:
                s.send(piece)
                piece = b''
                if pause:
                    s.pump(pause)
        ev = {'e': 'ahead', 's': 'e', 'keys': list(ks[:-1] if quits else ks)}
        try:
            if quits:
                s.wait_exit(20)
            else:
                end = s.until()
                # everything has been read, after that the program waits for more, and all it wrote has been seen
                while not s.exited() and (unread(s) or s.cget('IDLE_NOW') != 1 or s.out_read < s.cget('OUT') or s.term.replies
                                          or s.term.queries < q + n):
                    if drive.now() > end:
                        raise s.stuck()
                    s.pump(.02)
                if s.exited():
                    s.drain()
                    return self.exit('key')
        except Stuck:
            ev['rows'] = ['!no answer']
            self.events.append(ev)
            self.dead = True
            return
        if not quits and self.u.get('see', True):
            ev.update(screen(s))
        ev['rows'] = self.written(s, lf)
        if not quits:
            self.snap_into(ev)
        self.events.append(ev)
        if quits:
            self.exit(ks[-1])

    def size(self, cols, rows):
        s = self.ses['e']
        try:
            ok = s.resize(cols, rows)
        except Stuck:
            self.events.append({'e': 'keys', 's': 'e', 'keys': ['!no answer to the new size']})
            self.dead = True
            return
        if not ok:
            return self.exit('size')
        self.events.append({'e': 'size', 's': 'e', 'cols': cols, 'rows': rows, **(screen(s) if self.u.get('see', True) else {})})

    def may(self, ks):
        """Keys where the program may go on or end with an error."""
        s = self.ses['e']
        try:
            if not s.key(ks[0]) or not all(s.key(k) for k in ks[1:]):
                self.exit('fail')
        except Stuck:
            self.events.append({'e': 'keys', 's': 'e', 'keys': ['!no answer']})
            self.dead = True

    def quit(self, k):
        s = self.ses['e']
        s.send(key_bytes(k))
        self.exit(k)


def run(binary, unit, scratch):
    r = Editing(binary, scratch, unit)
    try:
        r.begin()
        for op in unit['ops']:
            if r.dead:
                break
            if op[0] == 'keys':
                r.keys(op[1])
            elif op[0] == 'each':
                for k in op[1]:
                    if not r.dead:
                        r.keys([k])
            elif op[0] == 'enter':
                r.enter(*op[1:])
            elif op[0] == 'ahead':
                r.ahead(op[1], op[2], op[3])
            elif op[0] == 'size':
                r.size(op[1], op[2])
            elif op[0] == 'other':
                r.line(op[1], op[2])
            elif op[0] == 'may':
                r.may(op[1])
            elif op[0] == 'break':
                break_data(r.dir, op[1])
            elif op[0] == 'mute':
                r.ses['e'].term.mute = True
            elif op[0] == 'quit':
                r.quit(op[1])
        return r.events
    finally:
        r.close()
