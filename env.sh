# Sourced by setup and by the checks: one build configuration for IR and for the native replay binary.
export VERIF_ROOT="${VERIF_ROOT:-$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)}"
export RUSTUP_TOOLCHAIN=1.76.0
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$VERIF_ROOT/target/rs"
export RUSTFLAGS="-C no-vectorize-loops -C no-vectorize-slp --emit=llvm-bc"
export IRDIR="$CARGO_TARGET_DIR/x86_64-unknown-linux-gnu/ir"
