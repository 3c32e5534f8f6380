"""Runs Verus on an expanded template and maps its answers back to the functions of /repo."""
import json, os, re, subprocess, time

FLAGS = ['--output-json', '--time-expanded', '--error-format=json', '--triggers-mode', 'silent']


def run(path, rlimit=30, extra=(), timeout=600):
    cmd = ['verus', path, '--rlimit', str(rlimit), '--multiple-errors', '4'] + FLAGS + list(extra)
    t0 = time.time()
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=os.path.dirname(path))
    except subprocess.TimeoutExpired:
        return {'cmd': cmd, 'ok': False, 'timeout': True, 'errors': [], 'verified': 0, 'failed': 0, 'vir': True, 'wall': time.time() - t0, 'smt': {}, 'smt_ms': 0, 'raw': 'timeout'}
    errs = []
    for l in p.stderr.splitlines():
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get('level', '').startswith('error') and d.get('spans'):
            errs.append({'msg': d['message'], 'spans': [(s['line_start'], s['is_primary'], s.get('label') or '', (s['text'][0]['text'].strip() if s['text'] else ''))
                                                     for s in d['spans'] if s['file_name'].endswith(os.path.basename(path))],
                         'rendered': d.get('rendered', '')})
        elif d.get('level') == 'note' and 'rlimit' in d.get('message', '').lower():
            errs.append({'msg': d['message'], 'spans': [(s['line_start'], s['is_primary'], '', '') for s in d['spans']], 'rendered': d.get('rendered', '')})
    try:
        j = json.loads(p.stdout)
        v = j['verification-results']
    except (ValueError, KeyError):
        return {'cmd': cmd, 'ok': False, 'errors': errs, 'verified': 0, 'failed': 0, 'vir': True, 'wall': time.time() - t0,
                'smt': {}, 'smt_ms': 0, 'raw': (p.stdout + p.stderr)[-3000:]}
    smt, ms = {}, 0
    for m in j.get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []):
        ms += m.get('time', 0)
        for f in m.get('function-breakdown', []):
            smt[f['function']] = {'mode': f.get('mode:') or f.get('mode'), 'us': f['time-micros'], 'ok': f['success']}
    return {'cmd': cmd, 'ok': v['success'], 'errors': errs, 'verified': v['verified'], 'failed': v['errors'],
            'vir': bool(v.get('encountered-vir-error')) or (not v['success'] and v['errors'] == 0),
            'wall': time.time() - t0, 'smt': smt, 'smt_ms': ms, 'raw': p.stderr[-3000:] if not errs and not v['success'] else ''}


def locate(res, line):
    """Function of /repo whose expansion contains this line, or None."""
    for f in res.fns:
        if f.lo <= line <= f.hi:
            return f
    return None


def lemma_at(lines, line):
    for i in range(line - 1, -1, -1):
        m = re.search(r'\bfn (\w+)', lines[i])
        if m:
            return m.group(1)
    return f'line {line}'
