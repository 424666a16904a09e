// prop, scenario, args, preemption bound (-1: all interleavings), spurious wake-ups, tier (0 both, 1 thorough, 2 quick)
// modes: 0 ok, 1 failing, 2 cancel, 3 empty
static const mc_plan plans[] = {
	// ---- S01 comp: threads, blocks, wait_ready, kinds, trailing bytes
	{"S01", "comp", {1, 2, 0, 1, 5}, -1, 0, 0},
	{"S01", "comp", {1, 0, 0, 0, 65536}, -1, 0, 0},
	{"S01", "comp", {2, 1, 0, 2, 1}, 4, 0, 0},
	{"S01", "comp", {2, 1, 0, 2, 1}, -1, 0, 1},
	{"S01", "comp", {2, 2, 0, 1}, 1, 0, 0},
	{"S01", "comp", {2, 3, 1, 2}, 3, 0, 2},
	{"S01", "comp", {3, 2, 0, 0}, 2, 0, 2},
	{"S01", "comp", {3, 4, 0, 2}, 1, 0, 0},
	{"S01", "comp", {4, 3, 0, 0}, 0, 0, 0},
	{"S01", "comp", {4, 3, 0, 0}, 1, 0, 1},
	{"S01", "comp", {2, 2, 0, 0}, 2, 1, 0},
	{"S01", "comp", {3, 1, 0, 0}, 2, 0, 0},
	{"S01", "comp", {2, 2, 0, 0, 0, 1}, 2, 0, 0},
	{"S01", "comp", {3, 3, 1, 0, 0, 1}, 1, 0, 0},
	{"S01", "comp", {2, 2, 0, 2}, -1, 0, 1},
	{"S01", "comp", {3, 3, 0, 2}, 2, 0, 1},
	{"S01", "comp", {2, 4, 0, 2}, 4, 0, 1},
	{"S01", "align", {2, 0, 65536, 0}, -1, 0, 0},
	{"S01", "align", {2, 0, 131072, 1}, -1, 0, 0},
	{"S01", "align", {2, 0, 24, 1}, -1, 0, 0},
	// ---- S02 epoch: threads, blocks, epoch, mode, fail mask, cancel after, destroy, trailing
	{"S02", "epoch", {2, 3, 1}, 3, 0, 0},
	{"S02", "epoch", {2, 4, 2}, 3, 0, 0},
	{"S02", "epoch", {3, 3, 1}, 1, 0, 0},
	{"S02", "epoch", {3, 5, 2, 0, 0, 0, 0, 100}, 1, 0, 0},
	{"S02", "epoch", {1, 3, 1}, -1, 0, 0},
	{"S02", "epoch", {2, 3, 1, 2, 0, -1}, 3, 0, 0},
	{"S02", "epoch", {2, 3, 1, 2, 0, 0}, 3, 0, 0},
	{"S02", "epoch", {2, 3, 1, 1, 1}, 3, 0, 0},
	{"S02", "epoch", {2, 4, 2, 1, 2}, 3, 0, 0},
	{"S02", "epoch", {2, 3, 1, 0, 0, -1, 1}, 3, 0, 0},
	{"S02", "epoch", {2, 3, 1, 0, 0, 0, 1}, 3, 0, 0},
	{"S02", "epoch", {3, 3, 1, 0, 0, 0, 1}, 1, 0, 0},
	{"S02", "epoch", {2, 3, 1}, 2, 1, 0},
	{"S02", "epoch", {2, 3, 1, 0, 0, 0, 2}, 3, 0, 0},
	{"S02", "epoch", {3, 4, 2, 0, 0, 0, 2}, 1, 0, 0},
	{"S02", "epoch", {2, 2, 1}, -1, 0, 1},
	{"S02", "epoch", {3, 4, 2}, 2, 0, 1},
	{"S02", "epoch_set", {2, 2, 2, 1, -2}, 2, 0, 0},
	{"S02", "epoch_set", {2, 3, 1, 2, -2}, 1, 0, 0},
	{"S02", "epoch_set", {2, 3, 1, 0, -2}, 1, 0, 0},
	{"S02", "epoch_set", {2, 2, -1, 1, 0}, 1, 0, 0},
	{"S02", "epoch_set", {2, 2, -1, 0, 1}, 1, 0, 0},
	{"S02", "epoch_set", {2, 2, 2, 2, 1}, 1, 0, 0},
	{"S02", "epoch_set", {2, 2, -1, 1, -1}, 1, 0, 0},
	// ---- S03 fail: threads, blocks, fail mask, next blocks, next mask
	{"S03", "fail", {1, 2, 1, 2}, -1, 0, 0},
	{"S03", "fail", {2, 2, 1, 2}, 3, 0, 0},
	{"S03", "fail", {2, 2, 2, 2}, 3, 0, 0},
	{"S03", "fail", {2, 2, 3, 1}, 3, 0, 0},
	{"S03", "fail", {2, 3, 7, 1, 1}, 3, 0, 0},
	{"S03", "fail", {2, 3, 5, 0}, 3, 0, 0},
	{"S03", "fail", {3, 3, 2, 1}, 1, 0, 0},
	{"S03", "fail", {3, 3, 7, 1}, 1, 0, 0},
	{"S03", "fail", {2, 1, 1, 1}, 2, 1, 0},
	{"S03", "fail", {2, 2, 2, 0}, -1, 0, 1},
	{"S03", "fail", {3, 3, 6, 1}, 2, 0, 1},
	{"S03", "fail", {1, 5, 2, 1}, -1, 0, 0},
	{"S03", "fail", {2, 5, 1, 1}, 1, 0, 0},
	{"S03", "fail", {1, 3, 2, 1, 0, 11}, -1, 0, 0},
	{"S03", "fail", {2, 3, 2, 1, 0, 12}, 2, 0, 0},
	{"S03", "huge", {31, 1}, -1, 0, 0},
	{"S03", "huge", {40, 1}, -1, 0, 0},
	{"S03", "huge", {62, 1}, -1, 0, 0},
	// ---- S04 cancel: threads, blocks, cancel after, next blocks, epoch
	{"S04", "cancel", {1, 2, -1, 1}, -1, 0, 0},
	{"S04", "cancel", {2, 2, -1, 2}, 2, 0, 0},
	{"S04", "cancel", {2, 3, 0, 1}, 2, 0, 0},
	{"S04", "cancel", {2, 3, 1, 1}, 2, 0, 0},
	{"S04", "cancel", {2, 3, 0, 2, 1}, 2, 0, 0},
	{"S04", "cancel", {3, 3, -1, 1}, 1, 0, 0},
	{"S04", "cancel", {3, 4, 1, 0, 2}, 1, 0, 0},
	{"S04", "cancel", {3, 4, 1, 1, 2}, 1, 0, 1},
	{"S04", "cancel", {2, 2, -1, 1}, 2, 1, 0},
	{"S04", "cancel", {2, 1, -1, 0}, -1, 0, 1},
	{"S04", "cancel", {3, 3, 0, 2}, 2, 0, 1},
	{"S04", "cancel", {1, 5, -1, 1}, 2, 0, 0},
	{"S04", "cancel", {2, 6, 0, 0}, 1, 0, 0},
	{"S04", "huge", {31, 0}, -1, 0, 0},
	{"S04", "huge", {32, 0}, -1, 0, 0},
	{"S04", "huge", {47, 0}, -1, 0, 0},
	{"S04", "huge", {62, 0}, -1, 0, 0},
	// ---- S05 comp_seq/dec_seq: threads, blocks, ops, modes (base 4), from callback
	{"S05", "comp_seq", {2, 2, 2, 0 + 4 * 0, 0}, 2, 0, 0},
	{"S05", "comp_seq", {2, 2, 2, 1 + 4 * 0, 1}, 2, 0, 0},
	{"S05", "comp_seq", {2, 2, 2, 2 + 4 * 0, 1}, 2, 0, 0},
	{"S05", "comp_seq", {2, 1, 2, 3 + 4 * 0, 1}, 2, 0, 0},
	{"S05", "comp_seq", {2, 1, 3, 1 + 4 * 2 + 16 * 0, 0}, 2, 0, 0},
	{"S05", "comp_seq", {2, 1, 3, 2 + 4 * 1 + 16 * 0, 1}, 2, 0, 0},
	{"S05", "comp_seq", {2, 1, 3, 0 + 4 * 3 + 16 * 1, 1}, 2, 0, 0},
	{"S05", "dec_seq", {2, 2, 2, 0 + 4 * 0, 0}, 2, 0, 0},
	{"S05", "dec_seq", {2, 2, 2, 1 + 4 * 0, 1}, 2, 0, 0},
	{"S05", "dec_seq", {2, 2, 2, 2 + 4 * 0, 1}, 2, 0, 0},
	{"S05", "dec_seq", {2, 1, 2, 3 + 4 * 0, 1}, 2, 0, 0},
	{"S05", "dec_seq", {2, 1, 3, 1 + 4 * 2 + 16 * 0, 0}, 2, 0, 0},
	{"S05", "dec_seq", {2, 1, 3, 2 + 4 * 1 + 16 * 0, 1}, 2, 0, 0},
	{"S05", "comp_seq", {3, 2, 2, 0, 1}, 1, 0, 0},
	{"S05", "dec_seq", {3, 2, 2, 0, 1}, 1, 0, 0},
	// ---- S06 comp_destroy: threads, blocks, point, wait for block, wait_ready, previous, epoch; dec_destroy: threads, blocks, point, wait_ready, previous
	{"S06", "comp_destroy", {2, 1, 0, -1}, -1, 0, 0},
	{"S06", "comp_destroy", {2, 2, 1, -1}, 3, 0, 0},
	{"S06", "comp_destroy", {2, 2, 1, 0}, 3, 0, 0},
	{"S06", "comp_destroy", {2, 2, 2, -1, 1}, 3, 0, 0},
	{"S06", "comp_destroy", {2, 2, 3, -1}, 3, 0, 0},
	{"S06", "comp_destroy", {2, 1, 4, -1}, 3, 0, 0},
	{"S06", "comp_destroy", {2, 2, 5, -1}, 3, 0, 0},
	{"S06", "comp_destroy", {2, 1, 2, -1, 0, 1}, 3, 0, 0},
	{"S06", "comp_destroy", {2, 3, 1, -1, 0, 0, 1}, 3, 0, 0},
	{"S06", "comp_destroy", {3, 2, 2, -1}, 2, 0, 0},
	{"S06", "comp_destroy", {2, 1, 1, -1}, 3, 1, 0},
	{"S06", "dec_destroy", {2, 1, 0}, -1, 0, 0},
	{"S06", "dec_destroy", {2, 2, 1}, 3, 0, 0},
	{"S06", "dec_destroy", {2, 2, 2}, 3, 0, 0},
	{"S06", "dec_destroy", {2, 2, 3, 1}, 3, 0, 0},
	{"S06", "dec_destroy", {2, 2, 4}, 3, 0, 0},
	{"S06", "dec_destroy", {2, 2, 5}, 3, 0, 0},
	{"S06", "dec_destroy", {2, 1, 2, 0, 1}, 3, 0, 0},
	{"S06", "dec_destroy", {3, 2, 2}, 2, 0, 0},
	{"S06", "dec_destroy", {2, 1, 1}, 3, 1, 0},
	// ---- S07 dec: threads, blocks, pattern, order, wait_ready, padding
	{"S07", "dec", {1, 2, 9, 0}, -1, 0, 0},
	{"S07", "dec", {2, 2, 0, 0}, 3, 0, 0},
	{"S07", "dec", {2, 2, 2, 1}, 3, 0, 0},
	{"S07", "dec", {2, 3, 3, 0, 1}, 3, 0, 0},
	{"S07", "dec", {2, 2, 1, 0, 0, 4096}, 1, 0, 0},
	{"S07", "dec", {3, 3, 0, 1}, 1, 0, 0},
	{"S07", "dec", {2, 1, 4, 0}, 3, 0, 0},
	{"S07", "dec", {2, 0, 0, 0}, 3, 0, 0},
	{"S07", "dec", {1, 2, 9, 0, 0, 65512}, -1, 0, 0},
	{"S07", "dec", {2, 2, 2, 0, 0, 65512}, 1, 0, 0},
	{"S07", "dec", {2, 3, 3, 1, 0, 4096}, 1, 0, 0},
	{"S07", "dec", {2, 2, 0, 0}, 2, 1, 0},
	{"S07", "dec", {1, 2, 0, 0, 0, 0, 1}, -1, 0, 0},
	{"S07", "dec", {2, 2, 0, 0, 0, 0, 1}, 2, 0, 0},
	{"S07", "dec", {3, 3, 0, 1, 1, 0, 1}, 0, 0, 2},
	{"S07", "dec", {3, 3, 0, 1, 1, 0, 1}, 1, 0, 1},
	{"S07", "align", {2, 1, 65536, 0}, -1, 0, 0},
	{"S07", "align", {2, 1, 131072, 1}, -1, 0, 0},
	{"S07", "align", {2, 1, 24, 1}, -1, 0, 0},
	// ---- S08 dec_fail: threads, blocks, failing block, kind (8 whole call, 9 chunk result, 10 size), chunk, wait, next, second failing block + 1
	{"S08", "dec_fail", {1, 2, 0, 8, 0, 0, 1}, -1, 0, 0},
	{"S08", "dec_fail", {1, 2, 0, 9, 1, 1, 1}, -1, 0, 0},
	{"S08", "dec_fail", {1, 2, 1, 10, 1, 0, 1}, -1, 0, 0},
	{"S08", "dec_fail", {2, 2, 0, 8, 0, 1, 1}, 2, 0, 0},
	{"S08", "dec_fail", {2, 2, 0, 9, 1, 0, 1}, 2, 0, 0},
	{"S08", "dec_fail", {2, 2, 1, 10, 0, 0, 1}, 2, 0, 0},
	{"S08", "dec_fail", {2, 3, 1, 8, 0, 0, 1}, 2, 0, 0},
	{"S08", "dec_fail", {2, 3, 0, 8, 0, 0, 1, 2}, 2, 0, 0},
	{"S08", "dec_fail", {3, 3, 0, 8, 0, 0, 0}, 1, 0, 0},
	{"S08", "dec_fail", {3, 3, 0, 8, 0, 0, 1}, 1, 0, 1},
	{"S08", "dec_fail", {2, 2, 0, 8, 0, 0, 0}, 2, 1, 0},
	{"S08", "dec_fail", {1, 5, 0, 8, 0, 0, 1}, 2, 0, 0},
	{"S08", "dec_fail", {2, 6, 0, 8, 0, 0, 0}, 1, 0, 0},
	{"S08", "dec_fail", {1, 2, 0, 13, 1, 0, 1}, -1, 0, 0},
	{"S08", "dec_fail", {1, 2, 1, 14, 0, 0, 1}, -1, 0, 0},
	{"S08", "dec_fail", {2, 2, 0, 15, 1, 0, 1}, 2, 0, 0},
	{"S08", "dec_fail", {2, 2, 1, 14, 1, 1, 1}, 2, 0, 0},
	// ---- S09 dec_cancel: threads, blocks, next blocks
	{"S09", "dec_cancel", {1, 2, 2}, -1, 0, 0},
	{"S09", "dec_cancel", {2, 2, 2}, 2, 0, 0},
	{"S09", "dec_cancel", {2, 3, 0}, 2, 0, 0},
	{"S09", "dec_cancel", {3, 3, 0}, 1, 0, 0},
	{"S09", "dec_cancel", {3, 3, 1}, 1, 0, 1},
	{"S09", "dec_cancel", {2, 1, 1}, 2, 1, 0},
	{"S09", "dec_cancel", {1, 4, 2}, 2, 0, 0},
	{"S09", "dec_cancel", {2, 5, 0}, 1, 0, 0},
	// ---- S10 latch: count, counting threads, waiting threads; barrier: threads, rounds, interrupt
	{"S10", "latch", {1, 1, 1}, -1, 2, 0},
	{"S10", "latch", {2, 2, 1}, -1, 2, 0},
	{"S10", "latch", {2, 1, 2}, -1, 1, 0},
	{"S10", "latch", {3, 3, 1}, -1, 0, 0},
	{"S10", "latch", {2, 2, 2}, -1, 0, 0},
	{"S10", "barrier", {1, 3, 0}, -1, 1, 0},
	{"S10", "barrier", {2, 2, 0}, -1, 2, 0},
	{"S10", "barrier", {3, 2, 0}, -1, 1, 0},
	{"S10", "barrier", {4, 2, 0}, -1, 0, 0},
	{"S10", "barrier", {2, 2, 1}, -1, 1, 0},
	{"S10", "barrier", {3, 2, 2}, -1, 1, 0},
	{"S10", "barrier", {2, 1, 2}, -1, 1, 0},
	{"S10", "barrier", {3, 1, 2}, -1, 1, 0},
	{"S10", "barrier", {4, 1, 2}, -1, 0, 0},
	{"S10", "barrier", {4, 2, 2}, -1, 0, 0},
	// ---- S11 race detection on the scenarios of the other properties
	{"S11", "comp", {2, 2, 1, 0}, 3, 0, 0},
	{"S11", "comp", {3, 2, 0, 0}, 1, 0, 0},
	{"S11", "epoch", {2, 2, 1}, 3, 0, 0},
	{"S11", "fail", {2, 2, 3, 1}, 3, 0, 0},
	{"S11", "cancel", {2, 2, -1, 1}, 3, 0, 0},
	{"S11", "comp_seq", {2, 1, 2, 0, 1}, 3, 0, 0},
	{"S11", "comp_destroy", {2, 2, 1, -1}, 3, 0, 0},
	{"S11", "comp_destroy", {2, 2, 3, -1}, 3, 0, 0},
	{"S11", "comp_destroy", {2, 1, 0, -1}, -1, 0, 0},
	{"S11", "dec", {2, 2, 0, 0}, 3, 0, 0},
	{"S11", "dec", {3, 2, 3, 0}, 1, 0, 0},
	{"S11", "dec_fail", {2, 3, 0, 8, 0, 0, 1, 2}, 3, 0, 0},
	{"S11", "dec_cancel", {2, 2, 1}, 3, 0, 0},
	{"S11", "dec_seq", {2, 1, 2, 0, 1}, 3, 0, 0},
	{"S11", "dec_destroy", {2, 2, 1}, 3, 0, 0},
	{"S11", "dec_destroy", {2, 2, 2}, 3, 0, 0},
	{"S11", "latch", {2, 2, 2}, 3, 0, 0},
	{"S11", "barrier", {3, 2, 1}, 2, 0, 0},
	// ---- S12 ready: threads, stream, calls, operation
	{"S12", "ready", {1, 0, 2, 0}, -1, 0, 0},
	{"S12", "ready", {2, 0, 1, 0}, -1, 0, 0},
	{"S12", "ready", {2, 1, 1, 0}, -1, 0, 0},
	{"S12", "ready", {2, 0, 2, 2}, 3, 0, 0},
	{"S12", "ready", {2, 1, 2, 2}, 3, 0, 0},
	{"S12", "ready", {2, 0, 1, 1}, 3, 0, 0},
	{"S12", "ready", {2, 1, 1, 1}, 3, 0, 0},
	{"S12", "ready", {2, 0, 0, 3}, 3, 0, 0},
	{"S12", "ready", {2, 1, 0, 3}, 3, 0, 0},
	{"S12", "ready", {3, 0, 1, 0}, 2, 0, 0},
	{"S12", "ready", {3, 1, 1, 0}, 2, 0, 0},
	{"S12", "ready", {4, 0, 1, 0}, 1, 0, 0},
	{"S12", "ready", {4, 1, 1, 0}, 1, 0, 0},
	{"S12", "ready", {2, 0, 1, 0}, 3, 1, 0},
	// ---- S13 pipe: compression threads, implementation (0 sw, 1 optsw), blocks, decompression threads, kinds, direct, other implementation
	{"S13", "pipe", {1, 1, 1, 1, 0}, -2, 0, 0},
	{"S13", "pipe", {1, 0, 1, 1, 0}, -2, 0, 0},
	{"S13", "pipe", {1, 1, 1, 1, 0, 0, 1}, -2, 0, 0},
	{"S13", "pipe", {1, 0, 1, 1, 0, 1, 1}, -2, 0, 0},
	{"S13", "pipe", {1, 1, 2, 1, 0}, -2, 0, 0},
	{"S13", "pipe", {1, 1, 3, 1, 1}, -2, 0, 0},
	{"S13", "pipe", {1, 0, 3, 1, 3}, -2, 0, 0},
	{"S13", "pipe", {1, 1, 2, 1, 2}, -2, 0, 0},
	{"S13", "pipe", {1, 1, 2, 2, 3, 1}, 0, 0, 0},
	{"S13", "pipe", {2, 1, 2, 1, 3, 0}, 0, 0, 0},
	{"S13", "pipe", {2, 1, 3, 2, 1, 1}, 0, 0, 1},
	// ---- S14 numa: workers, stream (0 compression), spread, processors, nodes, available, second stream
	{"S14", "numa", {3, 0, 1, 4, 3, 1, 0}, -2, 0, 0},
	{"S14", "numa", {3, 1, 1, 4, 3, 1, 0}, -2, 0, 0},
	{"S14", "numa", {2, 0, 1, 3, 2, 1, 1}, -2, 0, 0},
	{"S14", "numa", {2, 1, 1, 3, 2, 1, 1}, -2, 0, 0},
	{"S14", "numa", {4, 0, 1, 4, 4, 1, 0}, -2, 0, 0},
	{"S14", "numa", {2, 0, 1, 2, 2, 0, 0}, -2, 0, 0},
	{"S14", "numa", {2, 1, 1, 2, 2, 0, 0}, -2, 0, 0},
	{"S14", "numa", {2, 0, 0, 2, 2, 1, 0}, -2, 0, 0},
	{"S14", "numa", {2, 1, 0, 2, 2, 1, 0}, -2, 0, 0},
	{"S14", "numa", {1, 0, 1, 6, 2, 1, 0}, -2, 0, 1},
	// ---- S15 running out of threads and memory
	{"S15", "oom_ctor", {3, 0, 0, 0}, 1, 0, 0},
	{"S15", "oom_ctor", {2, 0, 0, 0}, 2, 0, 1},
	{"S15", "oom_ctor", {2, 0, 0, 1}, 1, 0, 0},
	{"S15", "oom_ctor", {2, 0, 0, 1}, 2, 0, 1},
	{"S15", "oom_ctor", {3, 0, 1, 0}, 1, 0, 0},
	{"S15", "oom_ctor", {2, 0, 1, 0}, 2, 0, 1},
	{"S15", "oom_ctor", {2, 0, 1, 1}, 1, 0, 0},
	{"S15", "oom_ctor", {2, 0, 1, 1}, 2, 0, 1},
	{"S15", "oom_ctor", {3, 0, 2, 0}, 1, 0, 0},
	{"S15", "oom_ctor", {2, 0, 2, 0}, 2, 0, 1},
	{"S15", "oom_ctor", {2, 0, 2, 1}, 1, 0, 0},
	{"S15", "oom_ctor", {2, 0, 2, 1}, 2, 0, 1},
	{"S15", "oom_ctor", {3, 1, 0, 0}, 1, 0, 0},
	{"S15", "oom_ctor", {2, 1, 0, 0}, 2, 0, 1},
	{"S15", "oom_ctor", {2, 1, 0, 1}, 1, 0, 0},
	{"S15", "oom_ctor", {2, 1, 0, 1}, 2, 0, 1},
	{"S15", "oom_ctor", {3, 1, 1, 0}, 1, 0, 0},
	{"S15", "oom_ctor", {2, 1, 1, 0}, 2, 0, 1},
	{"S15", "oom_ctor", {2, 1, 1, 1}, 1, 0, 0},
	{"S15", "oom_ctor", {2, 1, 1, 1}, 2, 0, 1},
	{"S15", "oom_ctor", {3, 1, 2, 0}, 1, 0, 0},
	{"S15", "oom_ctor", {2, 1, 2, 0}, 2, 0, 1},
	{"S15", "oom_ctor", {2, 1, 2, 1}, 1, 0, 0},
	{"S15", "oom_ctor", {2, 1, 2, 1}, 2, 0, 1},
	{"S15", "oom_comp", {1, 2, 0, 1}, -1, 0, 0},
	{"S15", "oom_comp", {2, 2, 0, 2}, 2, 0, 0},
	{"S15", "oom_comp", {2, 3, 1, 1}, 1, 0, 0},
	{"S15", "oom_comp", {2, 3, 0, 2, 1}, 1, 0, 0},
	{"S15", "oom_comp", {3, 3, 1, 1}, 0, 0, 0}, {"S15", "oom_comp", {3, 3, 1, 1}, 1, 0, 1},
	{"S15", "oom_comp", {2, 3, 0, 2}, 3, 0, 1},
	{"S15", "oom_dec", {1, 5, 0, 0, 0, 0, -1}, 3, 0, 0},
	{"S15", "oom_dec", {2, 5, 0, 0, 0, 0, 0}, 1, 0, 0},
	{"S15", "oom_dec", {2, 3, 0, 1, BADRET, 0, -1}, 1, 0, 0},
	{"S15", "oom_dec", {1, 4, 1, 2, BADSIZE, 0, -1}, 2, 0, 0},
	{"S15", "oom_dec", {2, 3, 1, 0, 0, 1, -1}, 1, 0, 0},
	{"S15", "oom_dec", {2, 7, 1, 0, 0, 0, 0}, 1, 0, 0},
	{"S15", "oom_dec", {3, 2, 1, 1, BADCHUNK, 0, -1}, 0, 0, 0}, {"S15", "oom_dec", {3, 2, 1, 1, BADCHUNK, 0, -1}, 1, 0, 1},
	{"S15", "oom_dec", {2, 4, 0, 2, BADRET, 0, -1}, 2, 0, 1},
	{nullptr, nullptr, {}, 0, 0, 0}};
