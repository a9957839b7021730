#!/bin/bash
# check.sh ID [--replay FILE]
#
# Decide one property: build the harness against /repo's working tree, then
# search. Exit 0: held on everything explored; 1: VIOLATION; 2: no answer.
set -u
VERIF=$(cd "$(dirname "$0")" && pwd) || exit 2
ID=${1:?usage: check.sh ID [--replay FILE]}
REPLAY=
if [ "${2:-}" = --replay ]; then
    REPLAY=$(realpath -- "${3:?usage: check.sh ID [--replay FILE]}") || exit 2
fi
cd "$VERIF" || exit 2
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
export CARGO_TARGET_DIR=$VERIF/target CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS
mkdir -p "$VERIF/target" "$VERIF/evidence" "$VERIF/replays"
LOG=$VERIF/target/build-$ID.log

no_answer() {
    tail -40 "$LOG" >&2
    echo "check.sh: $1 does not build" >&2
    exit 2
}
build() { # package, profile flags...
    local p=$1
    shift
    (cd "$VERIF/harness" && cargo build --offline -q -p "$p" "$@") >"$LOG" 2>&1 || no_answer "the harness"
}
externs() { # the libraries that generated code is compiled against
    VPBT_EXTERNS=$(cd "$VERIF/harness" && cargo build --offline -q -p model --message-format=json 2>"$LOG" |
        "$VERIF/target/debug/gen" externs) || no_answer "the model"
    export VPBT_EXTERNS
}

# the fast checks can afford more cases
if [ "$VERIF_TIER" = quick ]; then
    case $ID in
    C0[1-9] | C1[1234]) export VPBT_SCALE=${VPBT_SCALE:-3} ;;
    C16 | C18 | C19 | C20 | C23) export VPBT_SCALE=${VPBT_SCALE:-2} ;;
    C17 | C21) export VPBT_SCALE=${VPBT_SCALE:-1.5} ;;
    esac
fi

GEN=$VERIF/target/debug/gen
case $ID in
C0[1-9] | C1[01])
    build rt
    build rt --release
    BIN=$VERIF/target/debug/rt
    BINS=debug=$BIN,release=$VERIF/target/release/rt
    ;;
C1[2-6] | C2[456])
    build gen
    externs
    if [ "$ID" = C25 ]; then
        # the command line tool
        CARGO_TARGET_DIR=$VERIF/target/repo cargo build --offline --locked -q \
            --manifest-path /repo/Cargo.toml -p butte-build --bin butte >"$LOG" 2>&1 || no_answer "the command line tool"
        export VPBT_BUTTE=$VERIF/target/repo/debug/butte
    fi
    BIN=$GEN
    BINS=debug=$BIN
    ;;
C1[789] | C2[0123])
    build gen
    externs
    if [ -n "$REPLAY" ]; then
        # the schemas that the case was found with
        INFO=$("$GEN" replay-info "$REPLAY") || exit 2
        read -r VERIF_SEED VERIF_TIER PART <<<"$INFO"
        if [ "$PART" = compile ]; then
            exec "$GEN" replay "$REPLAY" --bins "debug=$GEN" --verif "$VERIF"
        fi
    fi
    DIR=$VERIF/target/corpus-$ID
    rm -rf "$VERIF/target/corpus-$ID"
    "$GEN" prepare "$ID" --out "$DIR" --verif "$VERIF" || exit
    BIN=$DIR/drive
    BINS=debug=$BIN
    ;;
*)
    echo "check.sh: unknown property $ID" >&2
    exit 2
    ;;
esac

if [ -n "$REPLAY" ]; then
    "$BIN" replay "$REPLAY" --bins "$BINS" --verif "$VERIF"
else
    "$BIN" drive "$ID" --bins "$BINS" --verif "$VERIF"
fi
CODE=$?
rm -rf "$VERIF/target/corpus-$ID"
exit $CODE
