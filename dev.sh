#!/bin/bash
# dev helper: dev.sh build | prep roots | run root time
export RUSTUP_TOOLCHAIN=stable
cd /verif/harness
case $1 in
build) CARGO_TARGET_DIR=/verif/.target/harness cargo rustc --release --offline ${FEAT:+--features $FEAT} --lib --crate-type staticlib -- --emit=llvm-bc 2>&1 | grep -E "^(error|warning: unused)|-->|Finished|^  " | tail -40;;
native) CARGO_TARGET_DIR=/verif/.target/harness cargo build --release --offline --features replay${FEAT:+,$FEAT} --bin replay 2>&1 | tail -20;;
prep) BC=$(ls -t /verif/.target/harness/release/deps/harness*.bc | head -1); /verif/.target/engine/release/symex prep --in $BC --out /verif/.target/$2.bc --roots $2;;
run) /verif/.target/engine/release/symex run --bc /verif/.target/$2.bc --root $2 --time ${3:-30} --threads 8 --out /verif/.target/$2.json ${@:4}; python3 - /verif/.target/$2.json <<'P'
import json,sys
r=json.load(open(sys.argv[1]))
print({k:r[k] for k in r if k not in('functions','samples','violations','errors','covers','asserts')})
print('covers',r['covers'],'asserts',r['asserts']); print('errors',r['errors'])
seen={}
for v in r['violations']: seen.setdefault((v['kind'],v['label']),[]).append(v['bytes'])
for k,v in seen.items(): print(k,len(v),v[:12])
P
;;
rep) /verif/.target/harness/release/replay $2 $3;;
esac
