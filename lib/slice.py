"""Builds the real code in a scratch directory together with the concrete oracle harness of one property,
and runs it.  The buildable slice of /repo is cut by the sandbox's own tool (/opt/vp/subset); compiled
dependencies are linked in from /opt/vp read-only (symbolic links); /repo and /opt/vp are left alone."""
import os, re, json, glob, shutil, subprocess, resource, filecmp, time

S = '/opt/vp/subset'
ENV = dict(HOME='/root', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu',
           PATH='/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
           CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only',
           CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', RUSTFLAGS='-Awarnings', RUST_BACKTRACE='0', RUST_LOG='error')

WRAPPER = r'''#!/bin/bash
# drops incremental compilation and debug info of the crate under test and compiles it on several threads
rustc="$1"; shift
crate=; prev=; args=()
for a in "$@"; do [ "$prev" = --crate-name ] && crate="$a"; prev="$a"; args+=("$a"); done
if [ "$crate" = snapchain ] || [ "$crate" = verif ]; then
  n=(); i=0
  while [ $i -lt ${#args[@]} ]; do
    if [ "${args[$i]}" = -C ]; then case "${args[$((i+1))]}" in incremental=*|debuginfo=*) i=$((i+2)); continue;; esac; fi
    n+=("${args[$i]}"); i=$((i+1))
  done
  RUSTC_BOOTSTRAP=1 exec "$rustc" "${n[@]}" -Zthreads=8
fi
exec "$rustc" "$@"
'''


class BuildError(Exception):
    pass


def same_dir(a, b):
    c = filecmp.dircmp(a, b)

    def eq(c):
        if c.left_only or c.right_only or c.funny_files:
            return False
        _, mis, err = filecmp.cmpfiles(c.left, c.right, c.common_files, shallow=False)
        return not mis and not err and all(eq(x) for x in c.subdirs.values())
    return eq(c)


class Slice:
    def __init__(self, repo, work):
        self.repo, self.work = repo, work
        self.t = os.path.join(work, 't')
        self.proto_same = False
        self.env = dict(ENV)
        self.dropped = []
        self.log = ''

    def cut(self):
        tool = f'{S}/tool/target/release/subset'
        if not os.path.exists(tool):
            e = dict(self.env, CARGO_TARGET_DIR=f'{self.work}/tool')
            subprocess.run(['cargo', 'build', '--release', '--offline', '--quiet'], cwd=f'{S}/tool', env=e, check=True)
            tool = f'{self.work}/tool/release/subset'
        for cmd in (['python3', f'{S}/manifests.py', self.repo, self.t],
                    [tool, self.repo, self.t, f'{S}/subset.conf', f'{S}/words.txt']):
            p = subprocess.run(cmd, env=self.env, capture_output=True, text=True)
            if p.returncode:
                raise BuildError('cutting the slice failed: ' + (p.stdout + p.stderr)[-1500:])
        src = f'{S}/tree/target/debug'
        dst = f'{self.t}/target/debug'
        for d in ('deps', 'build', '.fingerprint'):
            os.makedirs(f'{dst}/{d}', exist_ok=True)
        if os.path.isdir(f'{src}/deps'):
            self.proto_same = same_dir(f'{S}/tree/proto', f'{self.t}/proto')
            # what belongs to the workspace itself is written again by cargo: left out, or copied (the proto crate)
            own = {'snapchain', 'fc', 'fc-cli', 'fc_cli'} | {os.path.basename(x)[:-3] for g in ('src/bin/*.rs', 'tests/*.rs', 'cli/src/bin/*.rs', 'cli/tests/*.rs') for x in glob.glob(f'{S}/tree/{g}')}
            for d in ('deps', 'build', '.fingerprint'):
                for f in os.listdir(f'{src}/{d}'):
                    m = re.match(r'(?:lib)?(.+)-[0-9a-f]{16}', f)
                    if m and m.group(1) in own:
                        continue
                    a, b = f'{src}/{d}/{f}', f'{dst}/{d}/{f}'
                    if 'snapchain' in f:
                        # the crate's own parts may be written again: a copy, never a link
                        if self.proto_same:
                            subprocess.run(['cp', '-a', a, b], check=True)
                    else:
                        os.symlink(a, b)
            if self.proto_same:
                for d, _, fs in os.walk(f'{self.t}/proto'):
                    for f in [d] + [os.path.join(d, x) for x in fs]:
                        os.utime(f, (1577836800, 1577836800))

    def proto_rs(self):
        base = S + '/tree' if self.proto_same else self.t
        g = glob.glob(f'{base}/target/debug/build/snapchain-proto-*/out/_.rs')
        return max(g, key=os.path.getmtime) if g else None

    def install(self, harness_dir, names, drop=()):
        vh = f'{self.t}/src/verif_h'
        if os.path.isdir(vh):
            shutil.rmtree(vh)
        os.makedirs(vh)
        shutil.copy(f'{harness_dir}/support.rs', f'{vh}/support.rs')
        mods, calls = ['pub mod support;'], []
        self.mounts = {}
        for n in names:
            if n in drop:
                continue
            txt = open(f'{harness_dir}/{n}.rs').read()
            m = re.match(r'//@same (\w+)\n(const (\w+):.*\n)', txt)
            if m:
                # another harness file with one constant of its own
                own = m.group(2)
                txt = re.sub(r'(?m)^const ' + m.group(3) + ':.*\n', lambda _: own, open(f'{harness_dir}/{m.group(1)}.rs').read(), count=1)
            m = re.match(r'//@mount (\S+)', txt)
            open(f'{vh}/{n}.rs', 'w').write(txt)
            if m:
                f = m.group(1)
                p = os.path.join(self.t, f)
                if not os.path.exists(p):
                    self.dropped.append((n, f'{f} does not exist'))
                    continue
                if p not in self.orig:
                    self.orig[p] = open(p).read()
                self.mounts.setdefault(p, []).append(n)
                mod = f[len('src/'):-3].split('/')
                if mod[-1] == 'mod':
                    mod = mod[:-1]
                self.open_modules(mod)
                calls.append(f'crate::{"::".join(mod)}::verif_{n}::run(&mut c);')
            else:
                mods.append(f'pub mod {n};')
                calls.append(f'{n}::run(&mut c);')
        open(f'{vh}/mod.rs', 'w').write('\n'.join(mods) + '\npub fn main() { let mut c = support::Ctx::new();\n' + '\n'.join(calls) + '\nc.finish(); }\n')
        for p, txt in self.orig.items():
            extra = ''.join(f'\n#[path = "{vh}/{n}.rs"]\npub mod verif_{n};\n' for n in self.mounts.get(p, []))
            if p.endswith('src/lib.rs'):
                extra += '\npub mod verif_h;\n'
            open(p, 'w').write(txt + extra)
        os.makedirs(f'{self.t}/src/bin', exist_ok=True)
        open(f'{self.t}/src/bin/verif.rs', 'w').write('fn main() { snapchain::verif_h::main() }\n')

    def open_modules(self, mod):
        """Makes the modules on the path visible from the harness (scratch copy only)."""
        for i in range(len(mod)):
            parent = mod[:i]
            for c in ([f'{self.t}/src/lib.rs'] if not parent else [f'{self.t}/src/{"/".join(parent)}.rs', f'{self.t}/src/{"/".join(parent)}/mod.rs']):
                if os.path.exists(c):
                    if c not in self.orig:
                        self.orig[c] = open(c).read()
                    self.orig[c] = re.sub(r'^(\s*)(pub\([^)]*\)\s+)?mod ' + mod[i] + r';', r'\1pub mod ' + mod[i] + ';', self.orig[c], flags=re.M)

    def cargo(self, wrapper):
        e = dict(self.env)
        if wrapper:
            e['RUSTC_WRAPPER'] = wrapper
        p = subprocess.run(['cargo', 'build', '--workspace', '--bin', 'verif', '--offline', '--message-format=json'],
                           cwd=self.t, env=e, capture_output=True, text=True)
        bad, texts = {}, []
        for l in p.stdout.splitlines():
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get('reason') != 'compiler-message' or d['message']['level'] != 'error':
                continue
            texts.append(d['message'].get('rendered') or d['message']['message'])
            for s in d['message']['spans']:
                m = re.search(r'verif_h/(\w+)\.rs$', s['file_name'])
                if m:
                    bad.setdefault(m.group(1), []).append(texts[-1])
        return p.returncode, bad, '\n'.join(texts)[-6000:] or p.stderr[-3000:]

    def build(self, harness_dir, names):
        self.orig = {f'{self.t}/src/lib.rs': open(f'{self.t}/src/lib.rs').read()}
        w = f'{self.work}/rustc-wrapper.sh'
        open(w, 'w').write(WRAPPER)
        os.chmod(w, 0o755)
        drop = set()
        for _ in range(len(names) + 2):
            if drop >= set(names):
                return False
            self.install(harness_dir, names, drop)
            rc, bad, log = self.cargo(w)
            if rc == 0:
                return True
            self.log = log
            bad = {k: v for k, v in bad.items() if k in names}
            if not bad:
                if w:
                    w = None
                    continue
                raise BuildError(log)
            for b in sorted(bad):
                self.dropped.append((b, 'no longer compiles against the current tree:\n' + '\n'.join(bad[b])[:1500]))
            drop |= set(bad)
        return False

    def run(self, seed, mult, dictionary, timeout, tier):
        df = f'{self.work}/dict.json'
        json.dump(dictionary, open(df, 'w'))
        cur = f'{self.work}/cur'
        scratch = f'{self.work}/run'
        os.makedirs(scratch, exist_ok=True)
        env = dict(self.env, VERIF_SEED=str(seed), VERIF_MULT=str(mult), VERIF_DICT=df, VERIF_CUR=cur, TMPDIR=scratch, VERIF_TIER=tier)

        def lim():
            resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        t0 = time.time()
        try:
            p = subprocess.run([f'{self.t}/target/debug/verif'], cwd=scratch, env=env, capture_output=True, text=True,
                               errors='replace', timeout=timeout, preexec_fn=lim)
        except subprocess.TimeoutExpired:
            return {'cases': {}, 'fails': [], 'timeout': True, 'wall': time.time() - t0}
        for l in p.stdout.splitlines():
            if l.startswith('VERIF-RESULT '):
                r = json.loads(l[13:])
                r['wall'] = time.time() - t0
                return r
        ob, inp = 'harness', '?'
        if os.path.exists(cur):
            x = open(cur, errors='replace').read().rstrip().split('\n', 1)
            ob, inp = x[0], x[1] if len(x) > 1 else ''
        return {'cases': {ob: 1}, 'fails': [[ob, inp, f'the process died (status {p.returncode}): {p.stderr[-400:]}']], 'wall': time.time() - t0}
