#ifndef VERIF_SIM_INTERNAL_HPP
#define VERIF_SIM_INTERNAL_HPP
#include "sim.hpp"
namespace sim::internal {
extern bool g_run_active;      // a simulated run is in progress
extern u64 g_blocks;           // basic blocks executed in this run
extern u64 g_block_event;      // next block count at which something happens
extern u64 g_block_limit;
extern u64 g_preempt_at;
void block_event();
void sched_block_event();
void reset_sched();
void reset_clock();
void reset_alloc();
void log_leaks(bool begin);
void add_simulated(i64 ns);
void append_line(const char* s);
}
#endif
