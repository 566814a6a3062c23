from . import P
D = "high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/"


P("X01", "The lock-free stack is linearizable under every interleaving",
  """Every history of concurrent push and pop operations of the lock-free stack is equivalent to a sequential history of a stack: no node is lost, doubled or handed to two threads, however long a thread is held up between reading the head and exchanging it.""",
  "schedules histories", "every interleaving of any number of threads, including one held up while others do 65536 operations",
  "A lost node needs a thread held up at one instruction while the tag of the head wraps.",
  ["core/modules/core/include/klepsydra/core/lock_free_stack.h"], [("LockFreeStack::_push/_pop", "core/modules/core/include/klepsydra/core/lock_free_stack.h")], [], ["nodes taken and given back"],
  na="The equivalence of whole concurrent histories has to be explored or proved over interleavings, and the 16-bit tag of the head can wrap while a thread is held up, so the property holds only up to a bound on that delay, which no source analysis can establish. P01 and P02 decide the parts that are in reach: ownership of each node along every path, the exchange of head and tag together, initial linking.")
P("X02", "Publishing without waiting finishes in a bounded number of steps",
  """A try-claim, a publication that discards when full, an emission and a pool acquisition finish in a bounded number of own steps whatever other threads do; a claim that waits goes on as soon as there is room.""",
  "schedules", "every schedule, including unfair ones",
  "Starvation needs unfair schedules that a test machine does not produce.",
  [D + "multi_producer_sequencer.h", D + "single_producer_sequencer.h"], [("next/try_next", D + "multi_producer_sequencer.h")], [], ["steps until the call returns"],
  na="A compare-and-exchange loop is retried as often as other threads succeed; how often is a quantity of the run time schedule that the source does not bound (the multi-producer claim is lock-free, not wait-free). Freedom from *lost* wake-ups, which is decidable, is C07, Q02 and Q03.")
P("X03", "Reported and waited times are real times within a tolerance",
  """The durations that statistics report, the period of a repeated task and the timeouts of waits agree with the time that really passed, within a stated tolerance.""",
  "schedules histories", "every load of the machine and every clock adjustment",
  "Tests compare with generous margins on an idle machine.",
  ["core/modules/mem_mdlw/src/basic_scheduler.cpp"], [("ScheduledThread", "core/modules/mem_mdlw/src/basic_scheduler.cpp")], [], ["durations"],
  na="Elapsed time is a property of the machine and its load; the source only fixes which clock is read where and what is subtracted, and that part is decided by E05, H01, H02, T01. Whether the result is within a tolerance cannot be read off the source.")
P("X04", "The ring delivers one total order to all consumers under the C++ memory model",
  """For every execution that the C++ memory model allows, the events all consumers of a ring see are the published ones in one total order, each completely written.""",
  "schedules histories", "every execution of the memory model with any number of producers and consumers",
  "Weakly ordered executions do not occur on the machines the tests run on.",
  [D + "ring_buffer.h", D + "multi_producer_sequencer.h"], [("publish/get_highest_published_sequence", D + "multi_producer_sequencer.h")], [], ["events as seen by consumers"],
  na="Quantifying over all weak-memory executions of the composed system needs a memory-model checker or a proof. C01-C06, C09, C10 and C12 decide its local ingredients for every path (release after write, acquire before read, gating minimum, claim exclusivity, lap marks); the theorem that these compose is not derived mechanically.")
