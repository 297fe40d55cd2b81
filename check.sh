#!/bin/bash
# check.sh ID [quick|thorough]: builds the harness against /repo's working tree and
# decides one property. Exit 0: held; 1: VIOLATION; 2: no answer.
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD
id=$1
export VERIF_TIER=${2:-${VERIF_TIER:-quick}}
export VERIF_SEED=${VERIF_SEED:-1}
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR
ulimit -c 0
mkdir -p evidence replays harness/target
# These compile generated programs instead.
case $id in
C17 | C20 | C21 | C26)
    log=harness/target/build-$id.log
    out=prog/target/release
    mkdir -p $out
    if ! (cd prog && cargo build --release --offline -j 8 --message-format=json-render-diagnostics) >$out/artifacts.new 2>"$log"; then
        tail -30 "$log"
        echo "ERROR property=$id the harness does not build"
        exit 2
    fi
    mv $out/artifacts.new $out/artifacts.json
    rm -rf "$VERIF_DIR/prog/target/release/work"
    exec $out/vp check "$id"
    ;;
esac
# Parts of the harness this property needs.
case $id in
C03 | C04 | C05 | C06 | C13) features= ;;
C01 | C25) features=de,toml ;;
C09) features=multi ;;
C18) features=race ;;
C19) features=forms ;;
C23) features=oneway ;;
C24) features=hand ;;
*) features=de ;;
esac
build="cargo build --release --offline -j 8 --no-default-features"
log=harness/target/build-$id.log
if ! (cd harness && $build --features "$features") >"$log" 2>&1; then
    # The harness is made of documented uses of the macros. When it stops compiling
    # while typetag itself still compiles, those uses are broken.
    if (cd harness && cargo build --release --offline -j 8 -p typetag) >/dev/null 2>&1 &&
        grep -q '^error: could not compile `vh`' "$log"; then
        cp "$log" "replays/$id-build.log"
        grep -A12 '^error' "$log" | head -40
        cat >"evidence/$id.json" <<J
{"property": "$id", "tier": "$VERIF_TIER", "seed": $VERIF_SEED, "level": "exploration",
 "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "documented uses of the macros compile", "samples": ["cargo build of the harness"]},
 "assumptions": [], "wall_s": 0, "violations": 1}
J
        echo "documented uses of the macros no longer compile"
        echo "VIOLATION property=$id replay=$VERIF_DIR/replays/$id-build.log"
        exit 1
    fi
    tail -30 "$log"
    echo "ERROR property=$id the harness does not build"
    exit 2
fi
# Runaway allocation ends as an abort, not by the machine running out.
ulimit -v 20000000
exec harness/target/release/vh check "$id"
