#!/usr/bin/env python3
"""mutate.py OUT SEED COUNT [FILE...]: mechanical mutants of the code outside its tests. Those that compile and pass the
tests are given to the checks of the file's properties, one after the other, until one reports a violation.
Writes one JSON line per mutant to OUT (outside /verif)."""
import json
import os
import random
import re
import subprocess
import sys
import time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant

ORDER = {
    'main.rs': 'C14 C12 C13 C21 C25 C22 C17 C20 C05 C09 C27',
    'input_history.rs': 'C13 C15 C12 C20 C27',
    'saved_data.rs': 'C15 C16 C17 C23 C27 C26 C18 C19 C13 C09 C21',
    'variable.rs': 'C08 C16 C17 C09 C20 C27 C19',
    'commands.rs': 'C10 C11 C24 C09 C16 C17 C15 C20',
    'token.rs': 'C04 C03 C24 C11 C10 C02 C09 C16 C07',
    'syntax_tree.rs': 'C02 C03 C24 C01 C06 C08 C22 C07',
    'operations.rs': 'C05 C06 C01 C07',
    'error.rs': 'C24 C11 C03 C22 C21',
    'position.rs': 'C24 C03 C11 C22',
}


def mutants(path, text):
    """(offset, length, replacement) of every place that can be changed."""
    end = text.find('#[cfg(test)]')
    code = text if end < 0 else text[:end]
    out = []

    def add(m, new, g=0):
        out.append((m.start(g), m.end(g) - m.start(g), new))
    skip = [(m.start(), m.end()) for m in re.finditer(r'//[^\n]*', code)]
    for pat, news in [(r' < ', [' <= ', ' > ']), (r' <= ', [' < ']), (r' > ', [' >= ', ' < ']), (r' >= ', [' > ']),
                      (r' == ', [' != ']), (r' != ', [' == ']), (r' && ', [' || ']), (r' \|\| ', [' && ']),
                      (r' \+ ', [' - ']), (r' - ', [' + ']), (r' / ', [' * ']), (r' \* ', [' / ']), (r' % ', [' / ']),
                      (r' \+= ', [' -= ']), (r' -= ', [' += ']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
                      (r'\bmin\(', ['max(']), (r'\bmax\(', ['min(']), (r'\bpop_front\b', ['pop_back']),
                      (r'\bpush_front\b', ['push_back']), (r'\bpush_back\b', ['push_front']),
                      (r'if !', ['if ']), (r'if (?!let|!)([a-z_.]+\()', None), (r'\brchunks\b', ['chunks']),
                      (r'\btrim_start\b', ['trim_end']), (r'\btrim\(\)', ['trim_start()', 'trim_end()']),
                      (r'\bas_deref_mut\(\)', []), (r'\.is_none\(\)', ['.is_some()']), (r'\.is_some\(\)', ['.is_none()']),
                      (r'INSERT OR IGNORE', ['INSERT OR REPLACE', 'INSERT']), (r'INSERT OR REPLACE', ['INSERT OR IGNORE']),
                      (r' ON DELETE CASCADE', ['']), (r' PRIMARY KEY ON CONFLICT REPLACE', [' PRIMARY KEY']),
                      (r'foreign_keys = ON', ['foreign_keys = OFF']), (r'InputHistoryTag::Front', ['InputHistoryTag::Back']),
                      (r'InputHistoryTag::Back', ['InputHistoryTag::Front']), (r' WHERE (id|key|name)=:\w+', ['']),
                      (r'TransactionBehavior::Immediate', ['TransactionBehavior::Deferred']),
                      (r'KeyModifiers::CONTROL', ['KeyModifiers::ALT']), (r'KeyModifiers::SHIFT', ['KeyModifiers::CONTROL']),
                      (r'KeyCode::Home', ['KeyCode::PageUp']), (r"continue 'get_event", ["break 'get_event"]),
                      (r"break 'get_event", ["continue 'get_event"]), (r'MaxHistorySize as', ['Version as']),
                      (r'\babs\(\)', ['clone()']), (r'\.is_zero\(\)', ['.is_one()']), (r'\bround\(\)', ['floor()', 'ceil()'])]:
        for m in re.finditer(pat, code):
            if news is None:
                out.append((m.start() + 3, 0, '!'))
                continue
            for n in news:
                add(m, n)
    for m in re.finditer(r'(?<![\w.\'"])(\d+)(?![\w."])', code):
        add(m, str(int(m.group(1)) + 1))
        if int(m.group(1)) > 0:
            add(m, str(int(m.group(1)) - 1))
    # A statement that goes away.
    for m in re.finditer(r'\n( +)((?!let |return |use |pub |fn |break|continue|const |//|//!|\}|panic|assert)[^\n;{}]*(?:\([^;{}]*\))?[^\n;{}]*;)(?=\n)', code):
        add(m, '', 2)
    for m in re.finditer(r'\n( +)((?:transaction|self\.connection)\.execute\(\n(?:[^;]|;",)*?\)\?;)(?=\n)', code):
        add(m, '', 2)
    # A match guard or an arm's condition that goes away.
    return [o for o in out if not any(a <= o[0] < b for a, b in skip)]


def main():
    dest, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    files = sys.argv[4:] or list(ORDER)
    plant.fresh()
    sites = []
    for f in files:
        text = open(os.path.join(plant.COPY, 'src', f)).read()
        sites += [(f,) + m for m in mutants(f, text)]
    random.Random(seed).shuffle(sites)
    done = set()
    if os.path.exists(dest):
        done = {tuple(json.loads(l)['site']) for l in open(dest)}
    for f, at, length, new in sites[:count]:
        if (f, at, length, new) in done:
            continue
        plant.fresh()
        p = os.path.join(plant.COPY, 'src', f)
        text = open(p).read()
        line = text.count('\n', 0, at) + 1
        src = text.split('\n')[line - 1].strip()
        mutated = text[:at] + new + text[at + length:]
        open(p, 'w').write(mutated)
        now = mutated.split('\n')[line - 1].strip()
        res = {'site': [f, at, length, new], 'line': line, 'was': src, 'now': now}
        t = time.time()
        code, out = plant.sh('cargo build --offline --locked', timeout=200)
        if code:
            res['result'] = 'does not build'
        else:
            try:
                code, out = plant.sh('timeout 60 cargo test --offline --locked', timeout=200)
            except subprocess.TimeoutExpired:
                code = 1
            if code:
                res['result'] = 'killed by the tests'
            else:
                res['result'] = 'SURVIVED'
                for c in ORDER[f].split():
                    code, out = plant.sh(['python3', os.path.join(plant.VERIF, 'check.py'), c], cwd=plant.VERIF,
                                         env={'BCALC_REPO': plant.COPY, 'CARGO_TARGET_DIR': ''})
                    if code == 1 and 'VIOLATION' in out:
                        res['result'] = 'caught by ' + c
                        break
                    if code:
                        res.setdefault('odd', []).append([c, code, out[-500:]])
        res['seconds'] = round(time.time() - t)
        with open(dest, 'a') as o:
            o.write(json.dumps(res) + '\n')
        print(res['result'], f, line, '|', src, '->', now, flush=True)
    plant.fresh()


if __name__ == '__main__':
    main()
