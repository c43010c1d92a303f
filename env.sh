# Where and how the harness is built; sourced by check.sh and setup.sh.
VERIF=${here:-/verif}
. /opt/vp/env.sh || return 1
export CARGO_TARGET_DIR="$VERIF/mc/target"
export CARGO_NET_OFFLINE=true
unset CARGO_PROFILE_DEV_DEBUG CARGO_INCREMENTAL

build() {
    log=$(cargo build --offline --manifest-path "$VERIF/mc/Cargo.toml" --bin mc 2>&1) && return 0
    printf '%s\n' "$log" | tail -40 >&2
    echo "ENGINE ERROR: the harness does not build" >&2
    return 1
}

# the command line program, as it is shipped
build_cli() {
    log=$(cargo build --offline --manifest-path /repo/Cargo.toml --features docx --bin asciidocr \
        --target-dir "$CARGO_TARGET_DIR/cli" 2>&1) && return 0
    printf '%s\n' "$log" | tail -40 >&2
    echo "ENGINE ERROR: the program does not build" >&2
    return 1
}
