# Build environment of the harness crates: offline, guarded hooks on, output outside /repo.
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/.build/target RUSTFLAGS="--cfg dd_sim" CARGO_TERM_COLOR=never
