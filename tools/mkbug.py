import os,sys,json,subprocess,shutil,textwrap
V='/verif/seeded'
DEMO='''#!/bin/bash
# Compiles demo.rs against the library just built from /repo and runs it: exit 0 when the property holds.
d=$(cd "$(dirname "$0")" && pwd)
T=${SNAP_TREE:-/opt/vp/subset/tree}
D=$T/target/debug/deps
export HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
newest() { ls -t "$D"/lib$1-*.rlib | head -1; }
rustc --edition 2021 -Awarnings -C debuginfo=0 -L dependency="$D" EXTERNS --extern snapchain="$(newest snapchain)" -o "$w/demo" "$d/demo.rs" || exit 2
cd "$w" && timeout 200 ./demo
'''
DEMO2=r'''#!/bin/bash
# Compiles demo.rs as a module inside a scratch copy of the tree just built from /repo (the function under
# test is private) and runs it: exit 0 when the property holds.
d=$(cd "$(dirname "$0")" && pwd)
T=${SNAP_TREE:-/opt/vp/subset/tree}
export HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=line-tables-only
export CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS=-Awarnings RUST_BACKTRACE=0 RUST_LOG=error
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/t/target/debug"
(cd "$T" && tar cf - --exclude=./target .) | tar xf - -C "$w/t" || exit 2
for x in deps build .fingerprint; do
  mkdir "$w/t/target/debug/$x"
  for f in "$T/target/debug/$x"/*; do
    case "${f##*/}" in
      snapchain-[0-9a-f][0-9a-f][0-9a-f][0-9a-f]*|libsnapchain-[0-9a-f][0-9a-f][0-9a-f]*|fc-*) ;;
      *snapchain*) cp -a "$f" "$w/t/target/debug/$x/" ;;
      *) ln -s "$f" "$w/t/target/debug/$x/" ;;
    esac
  done
done
sed 's/^#\[test\]$//; s/^pub fn main/#[no_mangle] pub fn planted_demo_main/' "$d/demo.rs" > "$w/demo.rs"
printf '\n#[path = "%s/demo.rs"]\nmod planted_demo;\n' "$w" >> "$w/t/@MOUNT@"
mkdir -p "$w/t/src/bin"
printf 'use snapchain as _;\nextern "Rust" { fn planted_demo_main(); }\nfn main() { unsafe { planted_demo_main() } }\n' > "$w/t/src/bin/planted.rs"
cd "$w/t" && timeout 250 cargo build --offline --workspace --bin planted > "$w/log" 2>&1 || { tail -30 "$w/log"; exit 2; }
cd "$w" && timeout 40 t/target/debug/planted
'''
def bug(id,prop,edits,needs,breaks,body,ext='',mount=None):
    d=f'{V}/{id}'; os.makedirs(d,exist_ok=True)
    R='/tmp/plant/mk'
    subprocess.run(['rsync','-a','--delete','--exclude','target','/repo/',R+'/'],check=True)
    for f,o,n,*k in edits:
        p=f'{R}/{f}'; s=open(p).read()
        assert s.count(o),(id,f,"absent",o)
        assert k or s.count(o)==1,(id,f,s.count(o),o)
        parts=s.split(o); k=k[0] if k else 1
        open(p,'w').write(o.join(parts[:k])+n+o.join(parts[k:]))
    df=subprocess.check_output(['git','-C',R,'diff'],text=True)
    open(f'{d}/patch.diff','w').write(df)
    x=''.join(f'--extern {e}="$(newest {e})" ' for e in ext.split())
    open(f'{d}/demo.sh','w').write(DEMO2.replace('@MOUNT@',mount) if mount else DEMO.replace('EXTERNS ',x)); os.chmod(f'{d}/demo.sh',0o755)
    open(f'{d}/demo.rs','w').write(textwrap.dedent(body).lstrip())
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(f'{d}/meta.json','w'),indent=1)
    print('made',id)
