#!/bin/bash
# Run with cwd /repo after the build. Exit 0: the property holds on this scenario.
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); K=$R/knp; T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
I=""
for d in core-library/include core-library/impl neuron-traits-library/include synapse-traits-library/include meta-library/include \
    backends/cpu/cpu-devices/include backends/cpu/cpu-library/include backends/cpu/cpu-library/impl backends/cpu/cpu-single-threaded-backend/include \
    backends/cpu/cpu-multi-threaded-backend/include backends/cpu/thread_pool/include base-framework/include base-framework/impl; do I="$I -I$K/$d"; done
L=$R/_build/lib
g++ -std=c++17 -O1 -w -pthread -DFMT_SHARED -DKNP_LIBRARY_NAME_PREFIX=lib -DSPDLOG_FMT_EXTERNAL -D_KNP_INTERNAL -DNDEBUG $I "$D/demo.cpp" -o "$T/demo" \
  -Wl,--start-group $L/libknp-base-framework-core.a $L/libknp-cpu-single-threaded-backend.a $L/libknp-cpu-multi-threaded-backend.a \
  $L/libknp-cpu-devices.a $L/libknp-thread-pool-library.a $L/libknp-core.a -Wl,--end-group \
  -lfmt -lzmq -lflatbuffers -lboost_filesystem -ldl -lpthread || exit 3
cd "$T" && timeout 120 ./demo
