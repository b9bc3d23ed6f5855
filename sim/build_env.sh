# sourced by check.sh: how the simulator is built
export CARGO_NET_OFFLINE=true RUSTC_BOOTSTRAP=1
export CARGO_TARGET_DIR="${SIM_TARGET:-/verif/sim/target}"
export RUSTFLAGS="-Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer -Clink-arg=-ldl"
SIM_TRIPLE=x86_64-unknown-linux-gnu
