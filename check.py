#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decides one property on /repo's current working tree.
See DESIGN.md for what is decided how."""
import sys, os, json, glob, re, shutil, tempfile, threading, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.dont_write_bytecode = True
import literals, verusrun, vx
from rustlex import Lost
from slice import Slice, BuildError

REPO = os.environ.get('VERIF_REPO', '/repo')


def prop_record(pid):
    for l in open(os.path.join(HERE, 'properties.jsonl')):
        d = json.loads(l)
        if d['id'] == pid:
            return d
    raise SystemExit(f'no property {pid}')


def known(pid):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) obligation=(\S+) input~`(.*?)` (.*)$', l.strip())
            if m and m.group(1) == pid:
                out.append(m.groups())
    return out


class Proof:
    """The deductive part: contracts on the functions cut from /repo, discharged by Verus."""

    def __init__(self, tpl, work, tier):
        self.tpl, self.work, self.tier = tpl, work, tier
        self.failed, self.undecided, self.notes = [], [], []
        self.res = self.out = self.vac = None
        self.vacuous = []

    def expand(self, proto_rs, disabled, vacuity=False):
        return vx.Expander(REPO, os.path.join(HERE, 'specs'), proto_rs, disabled, vacuity).expand(f'{self.tpl}.vrs')

    def write(self, res, name):
        p = os.path.join(self.work, name)
        open(p, 'w').write('\n'.join(res.lines))
        return p

    def go(self, proto_rs):
        disabled = set()
        rl = 30 if self.tier == 'quick' else 120
        vth = None
        for attempt in range(8):
            try:
                res = self.expand(proto_rs, disabled)
            except Lost as e:
                self.undecided.append(f'whole template: {e}')
                return
            path = self.write(res, f'{self.tpl}.rs')
            if vth is None:
                def vac():
                    try:
                        r = self.expand(proto_rs, (), True)
                        self.vac = (r, verusrun.run(self.write(r, f'{self.tpl}_vac.rs'), rl))
                    except Exception as e:
                        self.notes.append(f'vacuity run failed: {e}')
                vth = threading.Thread(target=vac)
                vth.start()
            out = verusrun.run(path, rl)
            self.res, self.out = res, out
            if not out['vir']:
                break
            # the verifier does not accept the text: leave out the functions it complains about
            hit = set()
            for e in out['errors']:
                for line, prim, _, _ in e['spans']:
                    f = verusrun.locate(res, line)
                    if f and not f.external:
                        hit.add((f.file, f.name))
                        self.notes.append(f'{f.name}: outside the verifier\'s language now: {e["msg"][:300]}')
            if not hit:
                msgs = '; '.join(e['msg'][:200] for e in out['errors'][:4]) or out['raw'][-600:]
                self.undecided.append(f'whole template: the verifier rejects the expansion: {msgs}')
                self.out = None
                break
            disabled |= hit
        vth.join()
        for l in self.res.lost:
            self.undecided.append(f'lost anchor: {l}')
        for f in self.res.fns:
            if f.disabled:
                self.undecided.append(f'{f.name}: not accepted by the verifier in its current form')
        if self.out:
            self.judge(rl, path)
        if self.vac:
            self.vacuity()

    def judge(self, rl, path):
        fails = self.collect(self.out, self.res)
        if fails:
            # once more with other solver settings before anything is reported
            again = verusrun.run(path, rl * 4, ['--smt-option', 'smt.random_seed=7'])
            f2 = self.collect(again, self.res) if not again['vir'] else fails
            keep = {k for k in f2}
            fails = {k: v for k, v in fails.items() if k in keep}
            if not again['vir'] and not fails and again['ok']:
                self.out = again
        for (name, msg), info in fails.items():
            f = info['fn']
            if f is not None and (f.structural or info['rlimit']):
                self.undecided.append(f'{name}: {msg} ({"; ".join(f.structural) or "solver resource limit"})')
            elif f is None and (info['rlimit'] or self.res.lost or any(x.structural or x.disabled for x in self.res.fns)):
                self.undecided.append(f'{name}: {msg} (solver limit or lost anchors)')
            else:
                self.failed.append((name, msg, info))

    def collect(self, out, res):
        fails = {}
        for e in out['errors']:
            spans = sorted(e['spans'], key=lambda s: not s[1])
            if not spans:
                continue
            fn = next((verusrun.locate(res, s[0]) for s in spans if verusrun.locate(res, s[0])), None)
            # prefer the function in which the failing exit or call lies
            for s in e['spans']:
                g = verusrun.locate(res, s[0])
                if g and ('at this exit' in s[2] or 'at the end' in s[2] or 'at this call' in s[2]):
                    fn = g
            clause = next((s[3] for s in spans if 'failed' in s[2]), spans[0][3])
            name = f'{fn.file}::{fn.name}' if fn else f'lemma {verusrun.lemma_at(res.lines, spans[0][0])}'
            fails.setdefault((name, f'{e["msg"]}: {clause}'), {'fn': fn, 'rlimit': 'rlimit' in e['msg'].lower() or 'resource limit' in e['msg'].lower(), 'text': e['rendered']})
        return fails

    def vacuity(self):
        r, out = self.vac
        bad = set()
        if out['vir']:
            return
        for e in out['errors']:
            for s in e['spans']:
                f = verusrun.locate(r, s[0])
                if f:
                    bad.add(f.name)
        self.vacuous = [f.name for f in r.fns if not f.external and f.name not in bad]
        for v in self.vacuous:
            self.undecided.append(f'{v}: its precondition is unsatisfiable (an assertion of false verifies)')


def trusted_scan(lines):
    out = []
    for i, l in enumerate(lines):
        m = re.search(r'assume_specification[^\[]*\[\s*(.*?)\s*\]\s*\(', l)
        if m:
            out.append(f'assumed specification of {m.group(1)}')
        if 'external_body' in l:
            k = next((x for x in lines[i:i + 8] if re.search(r'\bfn \w+', x)), '')
            n = re.search(r'\bfn (\w+)', k)
            out.append(f'external body of {n.group(1) if n else "?"}')
        if re.search(r'\b(assume|admit)\s*\(', l):
            out.append(f'assumption: {l.strip()}')
        if 'external_type_specification' in l:
            out.append(f'external type: {lines[i + 1].strip()[:80]}')
    return sorted(set(out))


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    rec = prop_record(pid)
    work = tempfile.mkdtemp(prefix=f'verif-{pid}-')
    code = 1
    try:
        code = check(pid, tier, seed, rec, work, t0)
    finally:
        if os.environ.get('VERIF_KEEP'):
            print('kept', work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def check(pid, tier, seed, rec, work, t0):
    names = sorted(os.path.basename(p)[:-3] for p in glob.glob(f'{HERE}/harness/{pid.lower()}*.rs'))
    proofs = [Proof(t, work, tier) for t in sorted(os.path.basename(p)[:-4] for p in glob.glob(f'{HERE}/specs/{pid}*.vrs')) if t == pid or t.startswith(pid + '_')]
    has_proof = bool(proofs)
    sl = Slice(REPO, work)
    state = {}

    def prove():
        def one(q):
            try:
                q.go(sl.proto_rs())
            except Exception:
                q.undecided.append('prover driver failed: ' + traceback.format_exc()[-1500:])
        ths = [threading.Thread(target=one, args=(q,)) for q in proofs]
        for t in ths:
            t.start()
        for t in ths:
            t.join()

    def build_and_run():
        try:
            if not names:
                return
            if sl.build(f'{HERE}/harness', names):
                base = json.load(open(f'{HERE}/lib/baseline_literals.json'))
                d = literals.dictionary(REPO, base, set(rec['anchors']['files']))
                state['changed'] = d['changed']
                state['run'] = sl.run(seed, 1 if tier == 'quick' else 25, d, 300 if tier == 'quick' else 3000, tier)
        except BuildError as e:
            state['build_error'] = str(e)
        except Exception:
            state['build_error'] = traceback.format_exc()[-1500:]
    try:
        sl.cut()
    except BuildError as e:
        state['build_error'] = str(e)
    th = None
    if 'build_error' not in state:
        th = threading.Thread(target=build_and_run)
        th.start()
        if has_proof:
            if not sl.proto_same:
                th.join()
            prove()
        th.join()
    elif has_proof:
        prove()

    failed = [x for q in proofs for x in q.failed]
    undecided = [x for q in proofs for x in q.undecided]
    run = state.get('run') or {'cases': {}, 'fails': []}
    viol, kn = [], []
    ks = known(pid)
    os.makedirs(f'{HERE}/evidence', exist_ok=True)
    for old in glob.glob(f'{HERE}/evidence/replay-{pid}-*'):
        os.remove(old)
    for ob, inp, detail in run['fails']:
        k = next((x for x in ks if x[1] == ob and x[2] in inp), None)
        if k:
            kn.append(k)
        else:
            viol.append(('input', ob, inp, detail))
    if not viol:
        for name, msg, info in failed:
            viol.append(('proof', name, msg, info['text']))

    for k in dict.fromkeys(kn):
        print(f'KNOWN-FINDING: property={pid} {k[3]}')
    seen = set()
    for n, (kind, ob, inp, detail) in enumerate(viol):
        if ob in seen:
            continue
        seen.add(ob)
        rp = f'{HERE}/evidence/replay-{pid}-{len(seen)}.txt'
        with open(rp, 'w') as f:
            if kind == 'input':
                f.write(f'property {pid}: {rec["title"]}\nobligation: {ob}\nfailing input: {inp}\nwhat the real code does: {detail}\n'
                        f'seed {seed}, tier {tier}; replay: VERIF_SEED={seed} python3 {HERE}/check.py {pid} --tier {tier}\n')
                for name, msg, info in failed:
                    f.write(f'\nfailed proof obligation: {name}: {msg}\n{info["text"]}\n')
            else:
                f.write(f'property {pid}: {rec["title"]}\nfailed obligation: {ob}: {inp}\n(the verifier gives no input; the concrete oracle found none in '
                        f'{sum(run["cases"].values())} cases)\n\n{detail}\n')
        print(f'{ob}: {inp[:300]} -> {detail[:300] if kind == "input" else ""}')
        print(f'VIOLATION property={pid} replay={rp}' + ('' if kind == 'input' else ' no-failing-input-found'))

    # ---- evidence ------------------------------------------------------------------------------
    fns = []
    for q in proofs:
        und = ' '.join(q.undecided)
        bad = {n for n, _, _ in q.failed}
        for f in q.res.fns if q.res else ():
            st = 'trusted' if f.external and not f.disabled else 'undecided (bounded stand-in)' if f.disabled or f'{f.name}: ' in und \
                else 'failed' if f'{f.file}::{f.name}' in bad else 'discharged' if q.out else 'undecided (bounded stand-in)'
            fns.append({'function': f'{f.file}::{f.name}', 'line': f.line, 'status': st, 'structural': f.structural})
    done = {f['function'] for f in fns if f['status'] != 'trusted'}
    # taken as given in one template, decided in another
    fns = [f for f in fns if f['status'] != 'trusted' or f['function'] not in done]
    outs = [q.out for q in proofs if q.out]
    ress = [q.res for q in proofs if q.res]
    vacs = [q.vac for q in proofs if q.vac]
    verified = sum(o['verified'] for o in outs)
    failedn = sum(o['failed'] for o in outs)
    cov = {
        'obligations': verified + failedn,
        'discharged': verified,
        'checker_cmd': '; '.join(' '.join(o['cmd']) for o in outs) or 'verus (not reached)',
        'trusted_base': sorted({x for r in ress for x in trusted_scan(r.lines) + r.trusted}) +
                        ['Verus 0.2026.09.13 with its Z3 and vstd', 'the mechanical extraction lib/vx.py (rules listed under extraction_rules)'],
        'functions_under_contract': fns,
        'functions_discharged': sum(f['status'] == 'discharged' for f in fns),
        'undecided': undecided,
        'notes': [x for q in proofs for x in q.notes][:20],
        'back_end': 'z3 (via Verus)',
        'solver_ms': sum(o['smt_ms'] for o in outs),
        'solver_ms_by_function': {k: round(v['us'] / 1000, 1) for o in outs for k, v in o['smt'].items() if k.startswith(pid)},
        'extraction_rules': {k: sum(r.rules.get(k, 0) for r in ress) for r in ress for k in r.rules},
        'types_extracted': sorted({str(x) for r in ress for x in r.types}),
        'vacuity': {'functions_checked': sum(not f.external for v in vacs for f in v[0].fns), 'vacuous': [x for q in proofs for x in q.vacuous]},
        'evaluations': sum(run['cases'].values()),
        'concrete_cases': run['cases'],
        'concrete_rule': 'real compiled code against an independent reference implementation on generated inputs (boundary-biased, constants of the current source mixed in); bounded, finds inputs for failed obligations and stands in where a function is undecided',
        'concrete_wall_s': round(run.get('wall', 0), 2),
        'harness_dropped': sl.dropped,
        'changed_files': state.get('changed', []),
        'known_findings_seen': [k[3] for k in dict.fromkeys(kn)],
    }
    if state.get('build_error'):
        cov['build_error'] = state['build_error'][-3000:]
    if run.get('timeout'):
        cov['concrete_timeout'] = True
    m = manifest_entry(pid)
    level = m['level'] if m else ('proof' if has_proof else 'exploration')
    if level == 'proof' and cov['obligations'] == 0:
        level = 'other'
        cov['explanation'] = 'no obligation could be generated from the current tree; only the bounded concrete check ran'
    cov.setdefault('explanation', rec['title'])
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': (m or {}).get('assumptions', []) + ['machine integers are modelled exactly (no mathematical-integer abstraction of executable arithmetic)',
                                                           'concurrency, the database and the network are outside the contracts'],
          'wall_s': round(time.time() - t0, 2), 'violations': len(seen)}
    json.dump(ev, open(f'{HERE}/evidence/{pid}.json', 'w'), indent=1)
    print(f'{pid} {tier}: obligations {verified}/{verified + failedn} discharged, {cov["functions_discharged"]} functions, '
          f'{cov["evaluations"]} concrete cases, {len(undecided)} undecided, {len(sl.dropped)} harness files dropped, {ev["wall_s"]} s')
    for u in undecided:
        print('  undecided:', u[:400])
    for u in sl.dropped:
        print('  harness dropped:', u[0], u[1][:800])
    if state.get('build_error'):
        print('  build:', state['build_error'][-1500:])
    return 1 if viol else 0


def manifest_entry(pid):
    try:
        return next((c for c in json.load(open(f'{HERE}/MANIFEST.json'))['checks'] if c['property'] == pid), None)
    except Exception:
        return None


if __name__ == '__main__':
    main()
