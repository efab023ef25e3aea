#!/bin/bash
# run.sh <property>   builds what the check needs from /repo's working tree and runs it
# run.sh --build      builds everything
# VERIF_TIER (quick|thorough) and VERIF_SEED are taken from the environment.
cd "$(dirname "$0")" || exit 2
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET RUSTC_WRAPPER
export CARGO_NET_OFFLINE=true
mkdir -p target replays evidence
root=$PWD

# Cargo goes by modification times, which a copied or reverted tree can carry over from another
# state: when the contents differ from those last built, what was built from /repo goes.
sources() {
    { find /repo/rust-src /repo/native /repo/test_utils /repo/Cargo.toml /repo/Cargo.lock -type f -print0 | sort -z | xargs -0 sha256sum
      find pbt shims $1 -type f -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum
    } 2>/dev/null | sha256sum | cut -d' ' -f1
}

build() { # crate
    local crate=$1 log="target/$1.log" dir=$1 own=$1 now
    # the bindings are checked over the same generated stores as the engine
    [ "$crate" = bindings ] && dir=bindings/check own="bindings harness/src"
    [ "$crate" = toolcheck ] && own="toolcheck harness/src"
    now=$(sources "$own")
    (
        flock 9
        if [ "$(cat "target/$crate.hash" 2>/dev/null)" != "$now" ]; then
            rm -f "target/$crate.hash"
            for p in release checked; do
                rm -rf target/"$crate"/$p/.fingerprint/{carmen-core,pbt,native,test_utils,"$crate"}-*
            done
        fi
        for p in release checked; do
            (cd "$dir" && CARGO_TARGET_DIR="$root/target/$crate" cargo build --offline --locked --profile $p) >"$log" 2>&1 || exit 1
        done
        echo "$now" >"target/$crate.hash"
    ) 9>"target/$crate.lock"
    local rc=$?
    if [ $rc -ne 0 ]; then
        tail -40 "$log"
        echo "ERROR: building $crate from /repo failed"
        return 2
    fi
}

if [ "$1" = --build ]; then
    build fmtcheck && build harness && build bindings && build toolcheck
    exit $?
fi

id=$1
case "$id" in
    C0[1-5]|C32) crate=fmtcheck ;;
    C28|C29|C30) crate=bindings ;;
    C34) crate=toolcheck ;;
    C*) crate=harness ;;
    *) echo "usage: run.sh <property>"; exit 2 ;;
esac
build $crate || exit 2
exec target/$crate/checked/$crate run "$id" --also target/$crate/release/$crate \
    --tier "${VERIF_TIER:-quick}" --seed "${VERIF_SEED:-1}" \
    --evidence "evidence/$id.json" --replays replays
