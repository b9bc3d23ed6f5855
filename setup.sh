#!/bin/bash
# builds the simulator's dependencies once (every check builds what it needs anyway)
cd "$(dirname "$0")/sim" && . ./build_env.sh && cargo build --offline --target $SIM_TRIPLE
