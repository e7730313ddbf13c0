#!/usr/bin/env python3
"""mkseed.py SPEC.py ... : create /verif/seeded/<id>/ from specs (dict SEEDS in the file).
Each: id, property, edits [(file, old, new)], deps [crate dirs], main (rust code), needs, breaks"""
import sys,os,json,subprocess,runpy
REPO=os.environ.get('SEED_REPO','/repo'); OUT=os.environ.get('SEED_OUT','/verif/seeded')
SH='''#!/bin/bash
# exit 0: behaviour intact; nonzero: broken
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXXXX)
trap 'rm -rf -- "$T"' EXIT
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS=
export CARGO_TARGET_DIR="$T/target"
mkdir -p "$T/src"; cp "$D/demo.rs" "$T/src/main.rs"; cp /repo/Cargo.lock "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<'TOML'
%s
TOML
cd "$T" && cargo build -q --offline 2>build.log || { cat build.log; exit 3; }
timeout 200 "$T/target/debug/demo"
'''
def toml(deps):
    s='[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\n'
    for d in deps: s+=d+"\n"
    return s
for spec in sys.argv[1:]:
    for x in runpy.run_path(spec)['SEEDS']:
        d=f"{OUT}/{x['id']}"; os.makedirs(d,exist_ok=True)
        subprocess.check_call(['git','-C',REPO,'diff','--quiet'])
        try:
            for f,o,n in x['edits']:
                p=REPO+'/'+f; s=open(p).read()
                assert s.count(o)==1,(x['id'],f,s.count(o),o)
                open(p,'w').write(s.replace(o,n))
            open(d+'/patch.diff','w').write(subprocess.check_output(['git','-C',REPO,'diff'],text=True))
        finally:
            subprocess.check_call(['git','-C',REPO,'checkout','-q','--','.'])
        open(d+'/demo.rs','w').write(x['main'])
        open(d+'/demo.sh','w').write(SH%toml(x['deps'])); os.chmod(d+'/demo.sh',0o755)
        json.dump(dict(property=x['property'],needs=x['needs'],what_it_breaks=x['breaks']),open(d+'/meta.json','w'),indent=1)
        print('made',x['id'])
