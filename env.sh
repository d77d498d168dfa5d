# Sourced by check.sh and setup.sh.
export HOME=${HOME:-/root}
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR=$here/harness/target
export VERIF_ROOT=$here
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER

bin_of() {
    case $1 in
    C01 | C02 | C24) echo sipp ;;
    C03 | C04) echo base ;;
    C05 | C06 | C07) echo gipa ;;
    C08 | C09) echo tipa ;;
    C10 | C11) echo ssm ;;
    C12 | C13 | C14) echo pc ;;
    C15 | C16) echo tpc ;;
    C17 | C18) echo groth ;;
    C19) echo fs ;;
    C20) echo det ;;
    C21 | C23) echo ser ;;
    C22 | C27) echo setup ;;
    C25) echo size ;;
    C26) echo entropy ;;
    *) return 1 ;;
    esac
}

# cargo goes by modification times: rebuild the crates under test whenever the contents of their
# sources differ from those of the last build.
# builds both profiles; and, where the program det is wanted, its build without the parallel feature
build() {
    local stamp=$CARGO_TARGET_DIR/repo-sources.sha256 sums serial=
    mkdir -p "$CARGO_TARGET_DIR"
    case "$*" in *det | *--bins) serial=$here/harness/target-serial ;; esac
    sums=$(cd /repo && find . \( -path ./.git -o -path ./target \) -prune -o -type f \( -name '*.rs' -o -name Cargo.toml \) -print0 |
        sort -z | xargs -0 sha256sum)
    local crates="-p ark-sipp -p ark-inner-products -p ark-dh-commitments -p ark-ip-proofs -p ripp-check"
    if [ ! -f "$stamp" ] || [ "$sums" != "$(cat "$stamp")" ]; then
        for profile in release lean; do
            (cd "$here/harness" && cargo clean --offline --profile $profile $crates >/dev/null 2>&1)
        done
        rm -f "$stamp"
        mkdir -p "$CARGO_TARGET_DIR"
        printf '%s' "$sums" >"$stamp"
    fi
    if [ -n "$serial" ] && { [ ! -f "$serial/repo-sources.sha256" ] || [ "$sums" != "$(cat "$serial/repo-sources.sha256")" ]; }; then
        mkdir -p "$serial"
        (cd "$here/harness" && cargo clean --offline --target-dir "$serial" --profile lean $crates >/dev/null 2>&1)
        printf '%s' "$sums" >"$serial/repo-sources.sha256"
    fi
    local failed=0 jobs=
    for profile in lean release; do
        (cd "$here/harness" && cargo build --offline --locked --profile $profile "$@" >"$CARGO_TARGET_DIR/build.$profile.log" 2>&1) &
        jobs="$jobs $!"
    done
    if [ -n "$serial" ]; then
        (cd "$here/harness" && cargo build --offline --locked --no-default-features --target-dir "$serial" --profile lean --bin det \
            >"$CARGO_TARGET_DIR/build.serial.log" 2>&1) &
        jobs="$jobs $!"
    fi
    for job in $jobs; do wait $job || failed=1; done
    [ $failed = 0 ] || { tail -n 40 "$CARGO_TARGET_DIR"/build.*.log >&2; return 1; }
}
