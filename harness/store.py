"""Scenarios of sessions on one saved data file, with a snapshot of the tables after every event,
judged by TraceSession."""
import os
import re
import shutil
import sqlite3
import tempfile
import urllib.parse

import drive
import lib
from calc import cfg_args, tail
from drive import Session, Stuck

INT = re.compile(r'^-?(0|[1-9][0-9]*)$')
TABLES = {'meta_int', 'input_history', 'input_history_tags', 'variable_history'}


def db_path(data_dir):
    return os.path.join(data_dir, 'bcalc', 'saved_data.sqlite')


def snapshot(path):
    """What the tables hold. `bad` lists what is not even well typed."""
    bad, rows, vs, rest = [], [], [], []
    front = back = 0
    cap, versions = '0', [0, 0]

    def number(x, what, null=False):
        if x is None and null:
            return 0
        if isinstance(x, int) and not isinstance(x, bool) and 0 < x < 2 ** 31:
            return x
        bad.append('%s is %r' % (what, x))
        return 0
    if not os.path.exists(path):
        return {'rows': [], 'front': 0, 'back': 0, 'cap': '0', 'vars': [], 'meta': [0, 0], 'rest': [], 'bad': ['no file']}
    con = sqlite3.connect('file:%s?mode=ro' % urllib.parse.quote(path), uri=True, timeout=10)
    try:
        con.execute('BEGIN')
        ok = con.execute('PRAGMA integrity_check').fetchall()
        if ok != [('ok',)]:
            bad.append('integrity: %r' % ok)
        tables = {r[0] for r in con.execute("SELECT name FROM sqlite_master WHERE type='table'")}
        if not TABLES <= tables:
            bad.append('tables: %r' % sorted(tables))
        else:
            fk = con.execute('PRAGMA foreign_key_check').fetchall()
            if fk:
                bad.append('foreign keys: %r' % fk)
            meta = dict(con.execute('SELECT key, value FROM meta_int'))
            if not {1, 2, 3} <= set(meta) or not all(isinstance(x, int) for x in meta.values()):
                bad.append('meta data: %r' % meta)
            else:
                versions = [meta[1], meta[2]]
            cap = meta.get(3)
            if not isinstance(cap, int):
                bad.append('capacity %r' % cap)
            cap = str(cap)
            tags = dict(con.execute('SELECT key, value FROM input_history_tags'))
            if not {1, 2} <= set(tags):
                bad.append('tags: %r' % tags)
            front, back = number(tags.get(1), 'front', True), number(tags.get(2), 'back', True)
            for i, text, nxt, prev in con.execute('SELECT id, input, next, prev FROM input_history'):
                if not isinstance(text, str):
                    bad.append('input %r' % (text,))
                rows.append([number(i, 'id'), str(text), number(nxt, 'next', True), number(prev, 'prev', True)])
            for n, p, q, by in con.execute('SELECT name, numer, denom, last_used_by FROM variable_history'):
                if not (isinstance(n, str) and isinstance(p, str) and isinstance(q, str)
                        and INT.match(p) and INT.match(q)) or q == '0':
                    bad.append('variable %r %r %r' % (n, p, q))
                    p, q = '0', '1'
                vs.append([n, p, q, number(by, 'last_used_by')])
            if len({v[0] for v in vs}) != len(vs):
                bad.append('a variable is there twice')
            rest = others(con, meta, tags)
    except sqlite3.Error as ex:
        bad.append('sqlite: %r' % ex)
    finally:
        con.close()
    return {'rows': rows, 'front': front, 'back': back, 'cap': cap, 'vars': vs, 'meta': versions, 'rest': rest, 'bad': bad}


def others(con, meta, tags):
    """What the file holds that is not this version's: a newer one may have left it."""
    rest = ['meta %d is %r' % x for x in meta.items() if x[0] not in (1, 2, 3)] + ['tag %r is %r' % x for x in tags.items() if x[0] not in (1, 2)]
    for kind, name, sql in con.execute("SELECT type, name, sql FROM sqlite_master WHERE name NOT LIKE 'sqlite_%'"):
        if name not in TABLES:
            rest.append('%s %s: %s' % (kind, name, sql))
            if kind == 'table':
                rest += ['%s: %r' % (name, r) for r in con.execute('SELECT * FROM "%s"' % name)]
    for table, known in (('input_history', 4), ('variable_history', 4), ('meta_int', 2), ('input_history_tags', 2)):
        cols = [r[1] for r in con.execute('PRAGMA table_info(%s)' % table)]
        if len(cols) > known:
            rest += ['%s %s' % (table, ' '.join(cols))] + ['%s %r %r' % (table, r[0], r[known:]) for r in con.execute('SELECT * FROM %s' % table)]
    for what in ('user_version', 'application_id'):
        n = con.execute('PRAGMA ' + what).fetchone()[0]
        if n:
            rest.append('%s is %d' % (what, n))
    return rest


class Runner:
    """Runs a scenario; collects the events."""

    def __init__(self, binary, scratch, alt=False):
        self.binary, self.alt = binary, alt
        self.dir = tempfile.mkdtemp(prefix='data', dir=scratch)
        self.scratch = scratch
        self.ses = {}
        self.events = [{'e': 'new'}]
        self.dead = False
        self.env = None
        self.cwd = self.as_given = None     # how the sessions are told where the saved data are

    def close(self):
        for s in self.ses.values():
            s.close()
        self.ses = {}
        shutil.rmtree(self.dir, ignore_errors=True)

    def snap(self):
        return snapshot(db_path(self.dir))

    def start(self, name, cfg, gate=0, **kw):
        s = Session(self.binary, [*(['-a'] if self.alt else []), *cfg_args(cfg)], cols=200, rows=50,
                    shim=lib.SHIM, data_dir=self.dir if self.as_given is None else self.as_given, scratch=self.scratch, timeout=30.0, wait=False, gate=gate, env=self.env,
                    cwd=self.cwd, **kw)
        self.ses[name] = s
        return s

    def fail(self, name, text, what):
        self.events.append({'e': 'line', 's': name, 'text': text, 'out': what})
        self.dead = True

    def open(self, name, cfg):
        s = self.start(name, cfg)
        try:
            up = s.wait_prompt(0)
        except Stuck:
            up = False
        ev = {'e': 'open', 's': name, 'cfg': cfg, 'db': self.snap()}
        if not up:
            ev['db']['bad'].append('the session did not start: %s' % tail(s))
            self.dead = True
        self.events.append(ev)

    def line(self, name, text, snap=True):
        s = self.ses[name]
        try:
            out = s.line(text)
        except Stuck:
            return self.fail(name, text, ['!no answer'])
        if out is None:
            return self.fail(name, text, ['!ended', *tail(s)])
        ev = {'e': 'line', 's': name, 'text': text, 'out': out}
        if snap:
            ev['db'] = self.snap()
        self.events.append(ev)

    def end(self, name):
        s = self.ses.pop(name)
        try:
            s.send(b'\x04')
            code = s.wait_exit()
        except Stuck:
            code = -1
        s.close()
        ev = {'e': 'end', 's': name, 'db': self.snap()}
        if code != 0:
            ev['db']['bad'].append('exit status %r' % code)
        self.events.append(ev)


def run(binary, scenario, scratch):
    """scenario: {'ops': [...], 'alt'?}; -> events"""
    r = Runner(binary, scratch, scenario.get('alt', False))
    try:
        if scenario.get('given'):
            build_db(r.dir, scenario['given'])
            r.events.append({'e': 'given', 'db': r.snap()})
        for op in scenario['ops']:
            if r.dead:
                break
            if op[0] == 'open':
                r.open(op[1], op[2])
            elif op[0] == 'line':
                r.line(op[1], op[2], not scenario.get('blind') or len(op) > 3)
            elif op[0] == 'end':
                r.end(op[1])
        return r.events
    finally:
        r.close()


SCHEMA = '''
CREATE TABLE meta_int(key INTEGER PRIMARY KEY ASC, value INTEGER NOT NULL);
CREATE TABLE input_history(id INTEGER PRIMARY KEY ASC, input TEXT NOT NULL,
  next REFERENCES input_history(id), prev REFERENCES input_history(id));
CREATE TABLE input_history_tags(key INTEGER PRIMARY KEY ASC, value REFERENCES input_history(id));
CREATE TABLE variable_history(name TEXT PRIMARY KEY ON CONFLICT REPLACE, numer TEXT NOT NULL, denom TEXT NOT NULL,
  last_used_by NOT NULL REFERENCES input_history(id) ON DELETE CASCADE);
'''


def build_db(data_dir, given):
    """Tables as an earlier session could have left them: {'hist': [[id, text]], 'cap', 'vars': [[name, n, d, id]],
    'version'?, 'minimum'?}"""
    os.makedirs(os.path.join(data_dir, 'bcalc'), exist_ok=True)
    con = sqlite3.connect(db_path(data_dir))
    con.executescript(SCHEMA)
    con.execute('INSERT INTO meta_int VALUES (1, ?), (2, ?), (3, ?)',
                (given.get('version', 1), given.get('minimum', 1), given.get('cap', 100)))
    h = given['hist']
    for k, (i, text) in enumerate(h):
        con.execute('INSERT INTO input_history VALUES (?, ?, ?, ?)',
                    (i, text, h[k + 1][0] if k + 1 < len(h) else None, h[k - 1][0] if k else None))
    con.execute('INSERT INTO input_history_tags VALUES (1, ?), (2, ?)',
                (h[-1][0] if h else None, h[0][0] if h else None))
    con.executemany('INSERT INTO variable_history VALUES (?, ?, ?, ?)', given.get('vars', []))
    for sql in given.get('sql', []):
        con.execute(sql)
    con.commit()
    con.close()


def shard(binary, scenarios, focus, scratch):
    events, owner = [], []
    drive.Session.waited = 0
    for k, sc in enumerate(scenarios):
        if drive.Session.waited > 8:       # no more needs to be seen
            break
        ev = run(binary, sc, scratch)
        owner += [k] * len(ev)
        events += ev
    states, bad, unconfirmed = lib.judge(events, owner, lambda k: run(binary, scenarios[k], scratch), 'TraceSession', focus)
    res = {'n': len(scenarios), 'events': len(events), 'states': states, 'bad': None, 'unconfirmed': unconfirmed,
           'sample': [strip(e) for e in events if e['e'] == 'line'][-1:]}
    if bad:
        res['bad'] = {'scenario': scenarios[bad['k']], 'steps': [strip(e) for e in bad['before']], 'event': bad['event'],
                      'specification': bad['specification']}
    return res


def strip(e):
    return {k: v for k, v in e.items() if k != 'db'}


def run_check(check, binary, scenarios, focus):
    k = min(len(scenarios), lib.WORKERS * max(1, len(scenarios) // 400))
    shards = [scenarios[i::k] for i in range(k)]
    res = lib.pool_map(shard, [(binary, s, focus, check.scratch) for s in shards])
    for r in res:
        check.events += r['events']
        check.traces += r['n']
        check.states += r['states']
        check.transitions += max(0, r['states'] - 1)
        for s in r['sample']:
            check.sample(s)
        if r['unconfirmed']:
            check.notes.setdefault('unconfirmed', []).extend(r['unconfirmed'])
    for r in res:
        if r['bad'] is not None:
            rep = r['bad']
            check.violation('%s\n  specification: %s' % (str(rep['event'])[:600], str(rep['specification'])[:900]), rep)
            return False
    return True
