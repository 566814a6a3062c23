from . import P
D = "high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/"
SEQ = [D + "multi_producer_sequencer.h", D + "single_producer_sequencer.h"]
WAIT = [D + x for x in ("blocking_wait_strategy.h", "busy_spin_wait_strategy.h", "lite_blocking_wait_strategy.h", "phased_backoff_wait_strategy.h",
                        "sleeping_wait_strategy.h", "timeout_blocking_wait_strategy.h", "yielding_wait_strategy.h")]

P("C01", "Producers never overwrite events a registered consumer has not passed",
  """A sequence number is handed to a producer only if every registered consumer has already passed the event that previously
  occupied the same ring slot. With no consumer registered the producers themselves never run more than one buffer ahead of
  what they started from without consulting the registered set.""",
  "schedules inputs histories configurations",
  "every interleaving of producers and consumers, every batch size, every ring size and wait strategy",
  "The sequencer tests claim a handful of slots on one thread; a wrong bound shows only when several producers race a slow consumer near a wrap, or after 2^31 events.",
  SEQ, [("claim against the minimum of the gating sequences", D + "multi_producer_sequencer.h next_/try_next_/has_available_capacity"),
        ("cached minimum refreshed before reuse", D + "single_producer_sequencer.h next_/try_next_"),
        ("minimum over gating sequences", D + "util.h / sequencers get_minimum_sequence")],
  [("gating sequences", "positions of the registered consumers", D + "sequencers"), ("gating cache", "a lower bound of all consumers", D + "sequencers")],
  ["ring_buffer::next/try_next"])
P("C02", "Claims are unique, contiguous and complete",
  """Every sequence number is handed out exactly once: concurrent claims never overlap, leave no gap, and a claim of n returns the
  last number of a fresh block of exactly n. A claim that fails or throws consumes nothing, and non-positive requests are rejected.""",
  "schedules inputs histories", "every interleaving of claiming threads and every requested batch size",
  "Tests claim sequentially; overlap or loss needs two producers inside the claim at once, or a refused claim followed by a successful one.",
  SEQ, [("compare-and-set of the claim position", D + "multi_producer_sequencer.h next_/try_next_"), ("private next value", D + "single_producer_sequencer.h next_/try_next_")])
P("C03", "An event is visible exactly when it has been published",
  """Publishing makes every sequence of the published range visible, after the producer's writes to the slots, and waiting consumers are then
  signalled. The search for the highest published sequence stops before the first sequence not yet published and never passes the upper end it was given, so a consumer
  cannot read a claimed but unpublished event.""",
  "schedules inputs histories", "every order in which concurrent producers finish, every published range",
  "Tests publish in order on one thread; out-of-order publication by several producers and weak memory ordering cannot be sampled there.",
  SEQ, [("per slot availability flag / cursor store", D + "sequencers publish, is_available, get_highest_published_sequence"), ("signal after the store", D + "sequencers publish")])
P("C04", "Published marks identify the lap, not just the slot",
  """Whether a sequence is reported as published depends on that sequence alone: a mark left by an earlier lap of the ring, or the initial
  state, never counts for a later one, writer and reader always agree on slot and mark, and the marked slot lies inside the mark table.""",
  "inputs histories configurations", "every sequence number (below 2^31 laps) and ring size",
  "The stale mark matters only after the ring wraps with producers out of order; tests wrap at most once with one size.",
  [SEQ[0]], [("slot index and lap number from the sequence", D + "multi_producer_sequencer.h calculate_index/calculate_availability_flag"),
             ("initial fill", D + "multi_producer_sequencer.h initialise_available_buffer")])
P("C05", "Claims are refused only when they do not fit, and capacity is exact",
  """A non-blocking claim is refused only when the requested block does not fit in front of the slowest registered consumer at the moment of the
  check. The reported remaining capacity and has-capacity answer equal buffer size minus what is outstanding, for any sequence value including those beyond 32 bits.
  A claim that waits is never kept waiting by a remembered consumer position that is ahead of the cursor.""",
  "inputs histories configurations", "every cursor position, consumer position and requested size",
  "Tests start at sequence zero; truncation, stale caches and off-by-one show only far into a stream or at the exact boundary.",
  SEQ, [("capacity check", D + "sequencers has_available_capacity, remaining_capacity, try_next")])
P("C06", "A consumer that waits gets a sequence it may read",
  """Waiting for a sequence returns either a value below it for the caller to retry, or an upper end that all of the waiter's dependencies (upstream consumers, or the
  producers when there are none) have reached. A raised alert or an expired timeout is reported as such and as nothing else.""",
  "schedules configurations histories", "all wait strategies, dependency sets and interleavings",
  "Barrier tests cover a few strategies with pre-advanced sequences; a strategy that looks at the cursor instead of its dependencies passes them.",
  WAIT + [D + "sequence_barrier.h"], [("wait_for of each strategy", D + "*_wait_strategy.h"), ("sequence barrier", D + "sequence_barrier.h")])
P("C07", "A waiting consumer is always woken by progress or by an alert",
  """Once the awaited sequence is published and signalled, or an alert is raised, a consumer in any wait strategy stops waiting: no signal falls between its last look and its sleep,
  and every spinning loop keeps looking at the alert.""",
  "schedules configurations", "all interleavings of waiters, publishers and alerting threads, all wait strategies",
  "A lost wake-up needs the publisher to run in a window of a few instructions; tests use sleeps that avoid it.",
  WAIT + [D + "sequence_barrier.h"], [("signal_all_when_blocking", D + "*_wait_strategy.h"), ("alert + signal", D + "sequence_barrier.h alert")])
P("C08", "Event processors start once, stop when halted and can run again",
  """At most one thread runs a processor at a time; a halt issued at any moment after the run began makes it stop, waiting or not.
  Start and shutdown notifications come in pairs, a failing handler never leaves the processor marked as running, and a stopped processor can be run again.""",
  "schedules fault_sequences histories", "every interleaving of run and halt, and every pattern of exceptions thrown by the handler",
  "Tests halt a processor that already runs and handlers that do not throw; the windows around start-up and failure are not reached.",
  [D + "batch_event_processor.h", D + "no_op_event_processor.h"], [("running flag, alert, notifications", D + "batch_event_processor.h run/halt"), ("no-op processor", D + "no_op_event_processor.h")])
P("C09", "Each consumer sees every event once, in order, and reports progress after",
  """A processor passes each sequence to its handler exactly once and in increasing order without gaps, never beyond what is available, and marks the last one of a batch.
  Its own progress is published only behind delivered events, also when the handler or the waiting throws.""",
  "schedules fault_sequences histories", "every batch split, every exception pattern of the handler",
  "Tests deliver a few events in one batch; skipping or repeating shows when batches are cut at particular points or a handler throws mid-batch.",
  [D + "batch_event_processor.h", D + "no_op_event_processor.h"], [("batch loop", D + "batch_event_processor.h run")])
P("C10", "Ring slots are addressed by sequence modulo size inside the buffer",
  """Any two sequences less than one ring size apart live in different slots, a sequence always maps to the same in-bounds slot whoever asks, and every slot is initialised when the ring is built.
  Rings whose size is not a positive power of two, and copies of rings, sequences or barriers, do not compile.""",
  "inputs configurations programs", "every sequence number, every size, every program that instantiates the ring",
  "Tests touch few slots of one size and cannot test that something fails to compile.",
  [D + "ring_buffer.h", D + "sequence.h", D + "sequence_barrier.h", D + "cache_line_storage.h"], [("masking", D + "ring_buffer.h operator[]"), ("static assertions, deleted copies", D + "ring_buffer.h, sequencers")])
P("C11", "A sequence group reports the minimum of its members",
  """The value of a group of sequences is the smallest value among all its members (the largest possible value when there are none), over exactly the members given at construction.
  A group cannot be moved by hand: write operations on it are refused.""",
  "inputs configurations schedules", "every member count and value",
  "One test checks a two-member group; dropping the last member or stopping early is invisible with two.",
  [D + "fixed_sequence_group.h", D + "util.h"], [("minimum", D + "fixed_sequence_group.h get")])
P("C12", "Sequence counters are atomic and ordered",
  """Reading a counter observes everything written before the store that produced the value; writes, compare-and-set and additions are single indivisible operations that return exactly what
  they document.""",
  "schedules inputs", "every interleaving of readers and writers of one counter",
  "A weaker ordering or a split read-modify-write behaves identically on one thread and almost always on x86.",
  [D + "sequence.h"], [("atomic accesses", D + "sequence.h")])
P("C13", "Registering and removing consumers takes effect completely",
  """Every consumer registered is from then on part of what gates the producers, starting at the current position, and stays so until removed; removing one removes exactly it and reports whether it was there.""",
  "histories configurations", "every list of consumers, registered and removed in any order",
  "Tests register one or two consumers; losing the third, or initialising it at the wrong position, goes unnoticed.",
  SEQ + [D + "ring_buffer.h"], [("add_gating_sequences / remove_gating_sequence", D + "sequencers"), ("delegation", D + "ring_buffer.h")])
