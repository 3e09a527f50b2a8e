# sourced: environment for building the harness against /repo's working tree
export HOME=/root LANG=C.UTF-8 LC_ALL=C.UTF-8
export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export HODU_DISABLE_NATIVE=1 OPENBLAS_NUM_THREADS=1
export CC=/verif/bin/hvcc CCACHE_DIR=/verif/.build/ccache CCACHE_COMPILERCHECK=content
export CARGO_TARGET_DIR=/verif/.build/target
