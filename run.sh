#!/bin/bash
# developer helper: run.sh c01 [entry-regex] [extra engine args]   (builds, runs, summarises)
set -e
export RUSTUP_TOOLCHAIN=1.88.0-x86_64-unknown-linux-gnu RUSTFLAGS=-Ctarget-cpu=x86-64-v3 CARGO_NET_OFFLINE=true
F=$1; RE=${2:-.}; shift; shift || true
cd /verif/engine && cargo build --release --offline --target-dir /verif/build/engine 2>&1 | grep -E "^error" -A6 || true
cd /verif/harness && rm -rf /verif/build/harness/debug/deps/rsh.ll /verif/build/harness/debug/.fingerprint/rsh-* && cargo rustc --offline --features $F --target-dir /verif/build/harness -- --emit=llvm-ir -Csave-temps 2>&1 | grep -E "^error" -A12 | head -60 || true
rm -f /verif/build/harness/debug/deps/*.rcgu.*; [ -e /verif/build/harness/debug/deps/rsh.ll ] || exit 1
cd /verif
E=$(grep -oE "^ +h_[a-z0-9_]+ =>" harness/src/$F.rs | sed 's/ =>//;s/ //g' | grep -E "$RE" | sed 's/^/--entry /;s/$/:8/' | tr '\n' ' ')
./build/engine/release/redsym --ll build/harness/debug/deps/rsh.ll $E --jobs 8 --timeout ${TO:-120} --qtimeout ${QT:-4000} --out /tmp/o.json "$@" 2>/dev/null >/dev/null
python3 - <<'P'
import json,collections
d=json.load(open('/tmp/o.json'))
A=collections.OrderedDict()
for r in d['reports']:
    a=A.setdefault(r['entry'],collections.Counter())
    for k in r:
        if isinstance(r[k],(int,float)) and not isinstance(r[k],bool) and k not in('shard','nshards','max_steps_path'): a[k]+=r[k]
    a['viol']+=len(r['violations']); a['unsup']+=len(r['unsupported']); a['incomplete']+= (not r['complete'])
    a['maxwall']=max(a['maxwall'],r['wall'])
T=collections.Counter()
for e,a in sorted(A.items()):
    T.update(a)
    if a["wall"]>2 or a["viol"] or a["unsup"] or a["incomplete"] or a["unknown"]: print(f"{e:24} done={a['paths_done']} pan={a['paths_panic']} drop={a['paths_dropped']} steps={a['steps']/1e6:.0f}M asserts={a['asserts']} slv={a['asserts_solver']} nrm={a['decided_by_normalisation']} q={a['queries']} unk={a['unknown']} slv_s={a['solver_s']:.1f} wall={a['wall']:.1f}/{a['maxwall']:.1f} V={a['viol']} U={a['unsup']} I={a['incomplete']}")
print("TOTAL wall",d['wall'],"cpu",round(T['wall'],1),"paths",T['paths_done'],"steps %.0fM"%(T['steps']/1e6))
n=0
for r in d['reports']:
    for v in r['violations'][:1]:
        n+=1
        if n<=4: print('VIOL',r['entry'],v['kind'],v['msg'][:300],v['inputs'][:40],v['trace'][:8])
    for u in r['unsupported'][:1]:
        n+=1
        if n<=8: print('UNSUP',r['entry'],u[:400])
P
