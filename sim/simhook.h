#pragma once
// Included into the tested code ahead of everything else: the sizes of the batches are
// chosen by the simulator for each run.
#include <cstdint>
namespace sim { uint32_t ioBatch(int kind); }
#define MG_IOCORE_EPOLL_BATCH (sim::ioBatch(0))
#define MG_IOCORE_IOURING_BATCH (sim::ioBatch(1))
#define MG_IOCORE_READY_BATCH (sim::ioBatch(2))
