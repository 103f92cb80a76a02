#!/usr/bin/env python3
"""Mutation campaign over /repo's library code (development aid, not a check).

mutate.py list SEED N             choose N mutants, stratified over the files, as JSON lines
mutate.py run FILE.jsonl OUT      for each mutant: apply, build the harness, run the properties of
                                  the file at VH_SCALE until one reports a violation, undo

Run it where /repo and /verif are private copies (it edits /repo's working tree).
"""
import json, os, random, re, subprocess, sys
R, V = '/repo', '/verif'
PROPS = [
    ('measures-core/src/core/density.rs', 'C01 C10'),
    ('measures-core/src/core/log_density_decomposition.rs', 'C09'),
    ('measures-core/src/core/utils.rs', 'C25 C02'),
    ('measures-core/src/core/', 'C01 C04'),
    ('measures-core/src/traits', 'C25 C06'),
    ('measures-core/src/primitive', 'C01 C04 C12 C08'),
    ('measures-combinators/src/measures/primitive', 'C01 C04 C12 C15 C16'),
    ('measures-combinators/src/measures/combinators/product', 'C12 C04'),
    ('measures-combinators/src/measures/combinators/pushforward', 'C14 C04'),
    ('measures-combinators/src/measures/combinators/superposition', 'C13 C05 C04'),
    ('measures-combinators/src/measures/derived/weighted', 'C15 C04'),
    ('measures-combinators/src/measures/derived/integral', 'C15 C04'),
    ('measures-combinators/src/measures/derived/dirac', 'C04 C01'),
    ('measures-combinators/src/measures/derived', 'C16 C02'),
    ('measures-distributions/src/distributions/final_tagless', 'C11'),
    ('measures-distributions/src/distributions/', 'C02 C06 C07 C05 C04 C03 C09 C08'),
    ('measures-exponential-family/src/exponential_family/traits', 'C06 C08 C04'),
    ('measures-exponential-family/src/exponential_family/implementations', 'C06 C08'),
    ('measures-exponential-family/src/exponential_family/iid', 'C08 C04 C06'),
    ('measures-exponential-family/src/exponential_family/jit', 'C11'),
    ('measures-exponential-family/src/exponential_family/auto_jit', 'C11 C20'),
    ('measures-exponential-family/src/exponential_family/final_tagless', 'C11 C22'),
    ('measures-exponential-family/src/exponential_family/array_utils', 'C25'),
    ('measures-bayesian/', 'C23'),
    ('symbolic-math/src/expr.rs', 'C17 C18 C21 C24 C26 C23'),
    ('symbolic-math/src/jit.rs', 'C20 C24'),
    ('symbolic-math/src/optimization.rs', 'C19'),
    ('symbolic-math/src/final_tagless.rs', 'C22'),
    ('symbolic-math/src/lib.rs', 'C23 C17 C21 C24'),
    ('mathjit/src/final_tagless.rs', 'C22'),
]
SKIP = re.compile(r'transform\.rs|autodiff|multivariate|restriction|/mod\.rs|mathjit/src/lib\.rs|error\.rs')
OPS = [
    (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' / '), (r' / ', ' * '),
    (r' < ', ' <= '), (r' > ', ' >= '), (r' <= ', ' < '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '),
    (r' && ', ' || '), (r' \|\| ', ' && '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
    (r'T::one\(\)', 'T::zero()'), (r'T::zero\(\)', 'T::one()'), (r'F::one\(\)', 'F::zero()'), (r'F::zero\(\)', 'F::one()'),
    (r'neg_infinity\(\)', 'infinity()'), (r'NEG_INFINITY', 'INFINITY'), (r'\.all\(', '.any('), (r'\.any\(', '.all('),
    (r'\.ln\(\)', '.ln_1p()'), (r'\.exp\(\)', '.exp_m1()'), (r'\.abs\(\)', ''), (r'\[0\]', '[1]'), (r'\[1\]', '[0]'),
    (r'\bleft\b', 'right'), (r'\bright\b', 'left'), (r'self\.0\b', 'self.1'), (r'\.max\(', '.min('), (r'\.min\(', '.max('),
    (r'(?<![\w.])(\d+\.\d+)(?![\w.])', 'SCALE'), (r'-(?=[a-z(])', ''), (r'!(?=[a-z(])(?<![a-z]!)', ''),
    (r'\b(\d+)\b(?![\w.])', 'PLUS1'), (r'^\s+[^/\s].*;\s*$', 'DELETE'), (r'if (?!let)(.*) \{$', 'IFTRUE'), (r'if (?!let)(.*) \{$', 'IFFALSE'),
]
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def props(f):
    for p, ids in PROPS:
        if f.startswith(p): return ids.split()
    return None
def sites():
    for f in sh(f'git -C {R} ls-files "*/src/*.rs"').stdout.split():
        if SKIP.search(f) or props(f) is None: continue
        out, skip = [], False
        for n, line in enumerate(open(f'{R}/{f}').read().split('\n')):
            s = line.strip()
            if s.startswith('#[cfg(test)]'): break
            if s.startswith(('//', '#', 'use ', 'pub use', 'pub mod', 'mod ', 'type ', 'impl', 'where', 'pub struct', 'pub trait', 'fn ', 'pub fn', 'assert')) or '->' in s or 'profiling' in s or re.match(r'[A-Z][\w:<>]*: ', s): continue
            code = re.sub(r'\s*//.*', lambda m: ' ' * 0, line) if '"' not in line else line
            for op, rep in OPS:
                for m in re.finditer(op, code):
                    if '"' in code and op not in (r'(?<![\w.])(\d+\.\d+)(?![\w.])',): 
                        # inside a string literal: only the rule text of the optimiser is code
                        if code[:m.start()].count('"') % 2 and 'optimization' not in f: continue
                    if rep == 'SCALE':
                        v = float(m.group(1)); new = repr(v * 1.000001) if v else '0.000001'
                        new = code[:m.start()] + new + code[m.end():]
                    elif rep == 'PLUS1': new = code[:m.start()] + str(int(m.group(1)) + 1) + code[m.end():]
                    elif rep == 'DELETE':
                        if not re.match(r'[a-z]', s) or s.startswith(('let ', 'return', 'type', 'const')) or s.count('(') != s.count(')'): continue
                        new = ''
                    elif rep == 'IFTRUE': new = code[:m.start()] + 'if true {'
                    elif rep == 'IFFALSE': new = code[:m.start()] + 'if false {'
                    else: new = code[:m.start()] + rep + code[m.end():]
                    if new != line: out.append((n, line, new))
        yield f, out
def main():
    if sys.argv[1] == 'list':
        rng = random.Random(int(sys.argv[2])); want = int(sys.argv[3])
        all_ = {f: o for f, o in sites() if o}
        total = sum(len(o) for o in all_.values())
        print(total, {f: len(o) for f, o in all_.items()}, file=sys.stderr)
        chosen = []
        for f, o in all_.items():
            k = max(2, round(want * (len(o) ** 0.7) / sum(len(x) ** 0.7 for x in all_.values())))
            chosen += [(f, *x) for x in rng.sample(o, min(k, len(o)))]
        rng.shuffle(chosen)
        for f, n, a, b in chosen: print(json.dumps({'f': f, 'n': n, 'a': a, 'b': b}))
        return
    done = set()
    if os.path.exists(sys.argv[3]): done = {json.dumps([m['f'], m['n'], m['b']]) for m in map(json.loads, open(sys.argv[3]))}
    out = open(sys.argv[3], 'a')
    for l in open(sys.argv[2]):
        m = json.loads(l)
        if json.dumps([m['f'], m['n'], m['b']]) in done: continue
        p = f"{R}/{m['f']}"; src = open(p).read(); lines = src.split('\n')
        if m['n'] >= len(lines) or lines[m['n']] != m['a']: continue
        lines[m['n']] = m['b']; open(p, 'w').write('\n'.join(lines))
        res = 'survived'
        try:
            b = sh(f'bash {V}/check.sh --build', timeout=600)
            if b.returncode: res = 'does not build'
            else:
                for c in props(m['f']):
                    env = dict(os.environ, VH_VERIF=V, VERIF_SEED='7')
                    env.setdefault('VH_SCALE', '0.3')
                    try: r = sh(f'timeout 300 {V}/harness/target/debug/vharness run {c} quick', env=env, timeout=320)
                    except subprocess.TimeoutExpired: res = f'timeout {c}'; break
                    if r.returncode: res = f'killed {c} rc={r.returncode}'; break
        except subprocess.TimeoutExpired: res = 'build timeout'
        finally: open(p, 'w').write(src)
        m['res'] = res; out.write(json.dumps(m) + '\n'); out.flush()
main()
