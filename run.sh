#!/bin/bash
# run.sh ID quick|thorough   check one property against /repo's working tree
# run.sh replay FILE         replay one stored case
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
cd /verif || exit 2
mkdir -p /verif/.build /verif/evidence
build() { # crate dir, target dir, extra args
    local out
    out=$(cd "$1" && CARGO_TARGET_DIR="$2" cargo build --offline --release --quiet "${@:3}" 2>&1) || {
        echo "build of $1 ${*:3} failed:" >&2
        echo "$out" | grep -E '^error' -A8 | head -60 >&2
        return 2
    }
}
# the library over controlled synchronisation primitives
if [ "$1" = C16 ] || { [ "$1" = replay ] && grep -q '^kind schedule$' "$2"; }; then
    export RUSTC_WRAPPER=/verif/il/rustc.sh
    build /verif/il /verif/.build/il || exit 2
    case "$1" in
    replay) exec /verif/.build/il/release/pddl-il replay "$2" ;;
    *) exec /verif/.build/il/release/pddl-il check "${2:-quick}" ;;
    esac
fi
both=
case "$1" in
C15 | C20 | C23) both=1 ;;
esac
pid=
if [ -n "$both" ]; then
    # the configuration without interning
    build /verif/mc /verif/.build/mc-off --no-default-features --features parser &
    pid=$!
fi
BIN=/verif/.build/mc/release/pddl-mc
if [ "$1" = C21 ] || { [ "$1" = replay ] && grep -q '^kind effort$' "$2"; }; then
    # with a counter on every region of code
    export RUSTFLAGS="-C instrument-coverage --cfg effort" LLVM_PROFILE_FILE=/dev/null
    # (a target named explicitly keeps the flags away from build scripts and procedural macros)
    host=$(rustc -vV | sed -n 's/^host: //p')
    BIN=/verif/.build/mc-cov/$host/release/pddl-mc
    build /verif/mc /verif/.build/mc-cov --target "$host" || exit 2
else
    build /verif/mc /verif/.build/mc || exit 2
fi
if [ -n "$pid" ]; then
    wait "$pid" || exit 2
fi
case "$1" in
replay) exec "$BIN" replay "$2" ;;
*) exec "$BIN" check "$1" "${2:-quick}" ;;
esac
