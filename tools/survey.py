#!/usr/bin/env python3
"""Mutation survey: survey.py CHECKS FILE FROM TO [--jobs N] [--tests]
Applies small textual mutations to lines FROM..TO of FILE (one at a time, in scratch copies of /repo), runs the
checks on each mutant that compiles, and lists the mutants no check reports. Development tool, not a check."""
import os, re, sys, shutil, subprocess, tempfile, threading, queue
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, '..', 'rules'))
import facts

BIN = [(' + ', ' - '), (' - ', ' + '), ('+', '-'), ('-', '+'), (' * ', ' + '), ('*', '+'), ('/', '*'), ('%', '/'), ('<=', '<'), ('>=', '>'), (' < ', ' <= '), (' > ', ' >= '), ('<', '<='), ('>', '>='),
       ('==', '!='), ('!=', '=='), ('&&', '||'), ('||', '&&'), ('+=', '-='), ('-=', '+='), ('|=', '&='), ('&=', '|='), ('true', 'false'), ('false', 'true'),
       ('.0', '.1'), ('.1', '.0'), ('..=', '..'), ('..', '..='), ('min', 'max'), ('max', 'min'), ('Some(', 'None.or('), ('all(', 'any('), ('any(', 'all('), ('continue', 'break'), ('break', 'continue'),
       ('row', 'col'), ('col', 'row'), ('if !', 'if '), ('if ', 'if !'), ('skip(1)', 'skip(0)'), ('self', 'rhs'), ('rhs', 'self'), ('start', 'end'), ('end', 'start'), ('is_ok', 'is_err'), ('is_empty', 'is_empty() && false || !self.is_empty')]


def mutants(line):
    out = []
    code = line.split('//')[0]
    if not code.strip():
        return out
    for a, b in BIN:
        i = -1
        while True:
            i = code.find(a, i + 1)
            if i < 0: break
            if a in ('+', '-', '<', '>', '*', '/', '%', '..') and (code[i:i + 2] in ('->', '=>', '+=', '-=', '<=', '>=', '*=', '/=', '//', '..=') or code[i - 1:i + 1] in ('->', '=>', '::<', '<<', '>>') or code[i:i + 3] == '..='):
                continue
            if a == '.0' and not code[i + 2:i + 3].isdigit() is False: pass
            out.append(line[:i] + b + line[i + len(a):])
    for m in re.finditer(r'(?<![\w.])\d+(?![\w.])', code):
        v = int(m.group())
        out.append(line[:m.start()] + str(v + 1) + line[m.end():])
        if v > 0: out.append(line[:m.start()] + str(v - 1) + line[m.end():])
    # swapped arguments
    for m in re.finditer(r'\(([^(),]+),\s*([^(),]+)\)', code):
        out.append(line[:m.start()] + '(' + m.group(2).strip() + ', ' + m.group(1).strip() + ')' + line[m.end():])
    for m in re.finditer(r'\[([^\[\],]+),\s*([^\[\],]+)\]', code):
        out.append(line[:m.start()] + '[' + m.group(2).strip() + ', ' + m.group(1).strip() + ']' + line[m.end():])
    # swapped indices i<->j, r<->c
    for a, b in (('i', 'j'), ('j', 'i'), ('r', 'c'), ('c', 'r'), ('k', 'i'), ('x', 'y'), ('y', 'x'), ('m', 'n'), ('n', 'm'), ('a', 'b'), ('b', 'a')):
        for m in re.finditer(r'(?<![\w])%s(?![\w])' % a, code):
            out.append(line[:m.start()] + b + line[m.end():])
    st = code.rstrip()
    if st.endswith(';') and not st.strip().startswith(('let', 'use', 'fn', 'pub', 'type', 'return')):
        out.append(line[:len(line) - len(line.lstrip())] + '{}\n')
    # dropped adaptors
    for m in re.finditer(r'\.(abs|rev|clone|transpose|skip|take|filter|take_while|skip_while)\((?:[^()]|\([^()]*\))*\)', code):
        out.append(line[:m.start()] + line[m.end():])
    seen, res = set(), []
    for o in out:
        if o != line and o not in seen:
            seen.add(o)
            res.append(o)
    return res


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    checks, f, lo, hi = args[0].split(','), args[1], int(args[2]), int(args[3])
    jobs = 8
    for a in sys.argv:
        if a.startswith('--jobs='): jobs = int(a[7:])
    src = open(os.path.join('/repo', f)).read().splitlines(True)
    q = queue.Queue()
    todo = []
    for ln in range(lo, hi + 1):
        for m in mutants(src[ln - 1]):
            todo.append((ln, m))
    step = max(1, len(todo) // 1500)
    for t in todo[::step]:
        q.put(t)
    drv = facts.build_driver()
    res = []
    lock = threading.Lock()
    stat = dict(total=0, uncompiled=0, caught=0, missed=0, error=0)

    def worker(k):
        d = tempfile.mkdtemp(prefix='survey', dir='/tmp')
        try:
            tree, out = d + '/tree', d + '/out'
            facts.scratch_tree(tree)
            os.makedirs(out)
            os.makedirs(d + '/ev')
            env = dict(os.environ, LD_LIBRARY_PATH=facts.sysroot_lib(), FACTS_OUT=out, RUSTC_WORKSPACE_WRAPPER=drv, CARGO_TARGET_DIR=d + '/tgt', CARGO_BUILD_JOBS='2')
            cmd = ['cargo', '+nightly', 'check', '--workspace', '--lib', '--offline', '--release']
            subprocess.run(cmd, cwd=tree, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            while True:
                try:
                    ln, m = q.get_nowait()
                except queue.Empty:
                    return
                p = os.path.join(tree, f)
                new = src[:ln - 1] + [m] + src[ln:]
                open(p, 'w').write(''.join(new))
                r = subprocess.run(cmd, cwd=tree, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode != 0:
                    with lock: stat['total'] += 1; stat['uncompiled'] += 1
                    continue
                caught, err, und = [], [], ''
                for c in checks:
                    e2 = dict(os.environ, TOPPO_FACTS=out, TOPPO_EVIDENCE=d + '/ev')
                    try:
                        r = subprocess.run(['python3', os.path.join(HERE, '..', 'rules', 'run.py'), c, 'quick'], env=e2, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
                    except subprocess.TimeoutExpired:
                        err.append(c + ' timeout'); continue
                    if r.returncode == 1: caught.append(c)
                    elif r.returncode != 0: err.append(c)
                    else:
                        k = re.search(r'(\d+)/(\d+) obligations.* (\d+) undecided', r.stdout)
                        und += ' %s:%s,u%s' % (c, k.group(1), k.group(3)) if k else ' ?'
                with lock:
                    stat['total'] += 1
                    if caught: stat['caught'] += 1
                    else:
                        stat['missed'] += 1
                        res.append((ln, src[ln - 1].strip(), m.strip(), und, err))
                    if err: stat['error'] += 1
        finally:
            shutil.rmtree(d, ignore_errors=True)
    ts = [threading.Thread(target=worker, args=(k,)) for k in range(jobs)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    for ln, a, b, und, err in sorted(res):
        print('%4d MISSED %s\n       %s   [%s] %s' % (ln, a, b, und.strip(), err or ''))
    print(stat)


main()
