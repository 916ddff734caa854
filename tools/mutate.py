#!/usr/bin/env python3
"""Mutation sweep: mutate.py OUT [FILE-SUBSTRING...]

Makes small textual changes to the sources of /repo, one at a time, in scratch copies under /tmp/mut, builds the harness
against each and runs every check at 1/DIV of its quick work until one reports a violation.  Changes that no check
reports are written to OUT (with the rest); they are equivalent, unobservable, or a gap to look at.
env: JOBS=2 DIV=16 SAMPLE=n SEED=1"""
import os, random, re, shutil, subprocess, sys, threading, queue
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = '/tmp/mut'
DIV = os.environ.get('DIV', '16')
JOBS = int(os.environ.get('JOBS', '2'))
ORDER = 'C03 C09 C13 C15 C21 C05 C17 C12 C26 C25 C20 C02 C10 C11 C27 C23 C28 C16 C19 C18 C04 C06 C07 C08 C14 C22 C24 C01'.split()

SWAPS = [(' == ', ' != '), (' != ', ' == '), (' < ', ' <= '), (' > ', ' >= '), (' <= ', ' < '), (' >= ', ' > '),
         (' && ', ' || '), (' || ', ' && '), (' + 1', ''), (' - 1', ''), (' + ', ' - '), (' - ', ' + '),
         ('true', 'false'), ('false', 'true'), ('is_some()', 'is_none()'), ('is_none()', 'is_some()'),
         ('is_empty()', 'is_empty() == false'), ('.rev()', ''), ('.skip(1)', ''), ('.start()', '.end()'), ('.end()', '.start()'),
         ('JUMP_IF_TRUE', 'JUMP_IF_FALSE'), ('JUMP_IF_FALSE', 'JUMP_IF_TRUE'), ('LTE;', 'LT;'), ('LT;', 'LTE;'), ('DUP 0', 'DUP 1'),
         ('DUP 1', 'DUP 0'), ('NEQ;', 'EQ;'), ('EQ;', 'NEQ;'), ('if !', 'if '), ('SWAP;', ''), ('POP;', ''), ('PUSH_UNIT;', 'PUSH_NULL;'),
         ('..=', '..'), ('0', '1'), ('1', '0'), ('1', '2'), ('break', 'continue'), ('Some(', 'None.or(Some('), ('saturating_sub', 'wrapping_add'),
         ('lhs', 'rhs'), ('rhs', 'lhs'), ('min(', 'max('), ('max(', 'min('), ('.any(', '.all('), ('.all(', '.any('),
         ('.first()', '.last()'), ('.last()', '.first()'), ('.len()', '.len() + 1'), ('u8::MAX', '127'), ('push_back', 'push_front'),
         ('Export', 'Import'), ('Local', 'Upvalue'), ('mutable', 'captured'), ('is_mutable', 'is_captured'), ('RulePrecedence::', None),
         ('span_start', 'span_end'), ('span_end', 'span_start'), ('i16', 'u16'), ('put_u8', 'put_i8'), ('SELF', 'SUPER')]

def sites(path, text):
    out = []
    lines = text.split('\n')
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith('#[cfg(test)]') and i + 1 < len(lines) and 'mod' in lines[i + 1]:
            break
        if not s or s.startswith(('//', 'use ', '#[', '///', 'pub use', 'mod ', 'pub mod')):
            continue
        seen = set()
        def add(new, why):
            if new != l and new not in seen:
                seen.add(new)
                out.append((i, new, why))
        for a, b in SWAPS:
            if b is None:
                continue
            for m in re.finditer(re.escape(a), l):
                j = m.start()
                if a in '01' and (re.match(r'[\w.]', l[j + 1:j + 2]) or re.match(r'[\w.]', l[j - 1:j]) or "'" in l):
                    continue
                if a.isalpha() and (re.match(r'\w', l[j + len(a):j + len(a) + 1]) or re.match(r'\w', l[j - 1:j])):
                    continue
                nl = l[:j] + b + l[j + len(a):]
                if b.startswith('None.or(Some('):
                    continue
                add(nl, f'{a.strip()} -> {b.strip()}')
        # a condition forced
        m = re.match(r'^(\s*(?:\} else )?if )(?!let)(.*)( \{)$', l)
        if m:
            add(m[1] + 'true || ' + m[2] + m[3] if ' && ' not in m[2] else m[1] + 'true' + m[3], 'if true')
            add(m[1] + 'false && (' + m[2] + ')' + m[3], 'if false')
        # a statement dropped
        if s.endswith(';') and not s.startswith(('let ', 'return', 'pub ', 'const', 'type', 'static', '}', ')')):
            add(re.match(r'\s*', l)[0], 'drop statement')
        if s.endswith(';') and s.startswith('return '):
            add(re.match(r'\s*', l)[0] + 'if false { ' + s + ' }', 'drop return')
        # a match arm's guard dropped
        m = re.match(r'^(.*) if (.*) =>(.*)$', l)
        if m:
            add(f'{m[1]} =>{m[3]}', 'drop guard')
        # another error code
        m = re.search(r'Error::new\(([A-Z_]+)\)', l)
        if m:
            add(l.replace(m[1], 'INTERNAL_COMPILER_ERROR' if 'compiler' in path else 'UNEXPECTED_TOKEN'), 'other code')
        if '.with_span(' in l:
            add(re.sub(r'\.with_span\([^()]*(\([^()]*\))?[^()]*\)', '', l), 'drop span')
        if '.with_source(' in l or '.push_context(' in l or '.push_trace(' in l or '.with_tags(' in l:
            add(re.sub(r'\.(with_source|push_context|push_trace|with_tags)\((?:[^()]|\([^()]*\))*\)', '', l), 'drop call')
    return out

def prepare(slot):
    base = f'{ROOT}/{slot}'
    if os.path.exists(base):
        shutil.rmtree(base)
    os.makedirs(base + '/verif/harness')
    subprocess.run(['cp', '-a', '/repo', base + '/repo'], check=True)
    for f in ('run.sh', 'known-findings.txt', 'properties.jsonl', 'MANIFEST.json'):
        shutil.copy(f'{VERIF}/{f}', base + '/verif')
    h = base + '/verif/harness'
    subprocess.run(f'cp -a {VERIF}/harness/Cargo.* {VERIF}/harness/src {h}/', shell=True, check=True)
    c = open(h + '/Cargo.toml').read()
    c = c.replace('opt-level = 2', 'opt-level = 1').replace('debug = 1', 'debug = 0').replace('codegen-units = 16', 'codegen-units = 64')
    open(h + '/Cargo.toml', 'w').write(c)
    r = open(h + '/src/runner.rs').read()
    r = r.replace('const WORKERS: usize = 8;', f'const WORKERS: usize = {max(1, 8 // JOBS)};')
    r = r.replace('        suite.quick\n', f'        (suite.quick / {DIV}).max(20).min(suite.quick)\n')
    r = r.replace('failures.push((suite.name.to_string(), i, data, msg, text));', 'failures.push((suite.name.to_string(), i, data, msg, text)); queue.clear();')
    r = r.replace('const CASE_LIMIT_S: u64 = 300;', 'const CASE_LIMIT_S: u64 = 30;').replace('CASE_CPU_S: f64 = 50.0', 'CASE_CPU_S: f64 = 8.0').replace('PROBE_CPU_S: u64 = 40', 'PROBE_CPU_S: u64 = 6')
    open(h + '/src/runner.rs', 'w').write(r)
    return base

def sh(cmd, cwd, t):
    try:
        p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, env=dict(os.environ, VERIF_SEED='1'))
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, 'timeout'

def main():
    out = open(sys.argv[1], 'a')
    done = {l.split('\t')[1] for l in open(sys.argv[1]) if '\t' in l}
    muts = []
    files = subprocess.run(['git', 'ls-files', 'dice-core/src', 'dice-syntax/src', 'dice-compiler/src', 'dice-bytecode/src'],
                           cwd='/repo', stdout=subprocess.PIPE, text=True).stdout.split()
    for f in files:
        if not f.endswith('.rs') or (len(sys.argv) > 2 and not any(a in f for a in sys.argv[2:])):
            continue
        text = open('/repo/' + f).read()
        for i, new, why in sites(f, text):
            muts.append((f, i, new, why))
    random.Random(int(os.environ.get('SEED', '1'))).shuffle(muts)
    n = int(os.environ.get('SAMPLE', len(muts)))
    print(len(muts), 'mutants, taking', n, flush=True)
    q = queue.Queue()
    for m in muts[:n]:
        q.put(m)
    lock = threading.Lock()
    def run(slot):
        base = prepare(slot)
        while True:
            try:
                f, i, new, why = q.get_nowait()
            except queue.Empty:
                return
            key = f'{f}:{i + 1}:{why}:{new.strip()}'
            if key in done:
                continue
            p = f'{base}/repo/{f}'
            text = open('/repo/' + f).read()
            lines = text.split('\n')
            old, lines[i] = lines[i], new
            open(p, 'w').write('\n'.join(lines))
            rc, o = sh(['./run.sh', 'build'], base + '/verif', 300)
            if rc:
                res = 'nobuild'
            else:
                res = 'SURVIVES'
                for c in ORDER:
                    rc, o = sh(['./run.sh', 'check', c, 'quick'], base + '/verif', 200)
                    if rc == 1 and f'VIOLATION property={c}' in o:
                        res = c
                        break
                    if rc:
                        res = f'{c}-trouble{rc}'
                        if rc != 1:
                            break
            with lock:
                out.write(f'{res}\t{key}\t{old.strip()}\n')
                out.flush()
            open(p, 'w').write(text)
    ts = [threading.Thread(target=run, args=(str(k),)) for k in range(JOBS)]
    [t.start() for t in ts]
    [t.join() for t in ts]
main()
