"""Literals mentioned by the sources: they steer the concrete generators towards the constants the code
itself uses, and towards constants that were not in the tree the checks were written for."""
import os, re, json, hashlib, ast
from rustlex import tokenize


def strip_tests(text):
    i = text.find('#[cfg(test)]\nmod ')
    return text if i < 0 else text[:i]


def of(text):
    ints, strs = set(), set()
    try:
        toks = tokenize(strip_tests(text))
    except Exception:
        return ints, strs
    for t in toks:
        if t.k == 'num' or (t.s and t.s[0].isdigit()):
            m = re.match(r'(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)([iu](8|16|32|64|128|size))?$', t.s)
            if m:
                v = int(m.group(1).replace('_', ''), 0) if not re.match(r'0\d', m.group(1)) else int(m.group(1).replace('_', ''))
                if v < 2 ** 64:
                    ints.add(v)
        elif t.s and t.s[0] == '"' and len(t.s) < 200:
            try:
                strs.add(ast.literal_eval(t.s))
            except Exception:
                pass
        elif t.s and t.s[0] == "'" and len(t.s) == 3:
            strs.add(t.s[1])
        elif t.s.startswith("b'") and len(t.s) == 4:
            strs.add(t.s[2])
    return ints, strs


def sources(repo):
    for base in ('src',):
        for d, _, fs in os.walk(os.path.join(repo, base)):
            for f in fs:
                if f.endswith('.rs'):
                    p = os.path.join(d, f)
                    yield os.path.relpath(p, repo), p


def baseline(repo):
    out = {}
    for rel, p in sorted(sources(repo)):
        t = open(p, encoding='utf-8', errors='replace').read()
        i, s = of(t)
        out[rel] = {'sha': hashlib.sha256(t.encode()).hexdigest(), 'ints': sorted(i), 'strs': sorted(s)}
    return out


def dictionary(repo, base, files):
    ints, strs, ni, ns, changed = set(), set(), set(), set(), []
    for rel, p in sources(repo):
        t = open(p, encoding='utf-8', errors='replace').read()
        b = base.get(rel)
        new = b is None or b['sha'] != hashlib.sha256(t.encode()).hexdigest()
        if not new and rel not in files:
            continue
        i, s = of(t)
        if rel in files:
            ints |= i; strs |= s
        if new:
            changed.append(rel)
            ni |= i - set(b['ints'] if b else ())
            ns |= s - set(b['strs'] if b else ())
    return {'ints': sorted(ints), 'strs': sorted(strs), 'novel_ints': sorted(ni), 'novel_strs': sorted(ns), 'changed': sorted(changed)}


if __name__ == '__main__':
    import sys
    json.dump(baseline(sys.argv[1]), open(sys.argv[2], 'w'), indent=0, sort_keys=True)
