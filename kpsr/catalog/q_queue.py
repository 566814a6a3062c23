from . import P
M = "core/modules/mem_mdlw/include/klepsydra/mem_core/"
SQ = [M + "safe_queue.h"]
PO = ["core/modules/mem_mdlw/src/in_memory_queue_poller.cpp", M + "in_memory_queue_poller.h"]

P("Q01", "The safe queue is only touched under its mutex, which is always released",
  """Every operation of the safe queue reads and changes the contents and the limit only while it holds the queue's own mutex, and holds no mutex any more when it is left, normally or by an exception.
  Operations on two queues (swap, assignment) take both mutexes without a fixed nesting, so two threads doing so in opposite directions cannot deadlock.""",
  "schedules fault_sequences", "every interleaving of any operations by any number of threads, including items whose copy throws",
  "A missing lock, a lock kept on an exceptional exit or a lock-order inversion is invisible to single-threaded tests and rare with a few threads.",
  SQ, [("lock scopes", SQ[0] + " every method")], [("m_queue", "items", SQ[0]), ("m_max_num_items", "limit, 0 means none", SQ[0]), ("m_mutex", "guards both", SQ[0])])
P("Q02", "The safe queue is a bounded FIFO that loses no item and no wake-up",
  """Pushing adds exactly the given item at the back, only when the limit leaves room; a blocking push waits for room, a try push fails only when the queue is full, and a forced push discards the oldest items only while it
  is full and returns how many. Popping delivers exactly the oldest item and removes it, fails (try, timed) only when the queue is empty and then changes nothing, waits for the
  given number of microseconds in the timed forms, and loses no item when the item's copy throws. Every insertion wakes a waiting consumer, every removal, raised limit or replaced contents the waiting producers.""",
  "schedules inputs histories fault_sequences", "every sequence and interleaving of operations, every limit and content, spurious wake-ups included",
  "The unit tests run short scripts; spurious wake-ups, simultaneous consumers, exceptions between reading and removing and lost notifications need specific schedules.",
  SQ, [("push family", SQ[0] + " push/move_push/try_push/force_move_push"), ("pop family", SQ[0] + " pop/try_pop/timeout_pop"), ("whole-queue operations", SQ[0] + " swap/operator=/constructors/set_max_num_items")],
  [("m_queue", "items", SQ[0]), ("m_non_empty_condition", "consumers wait here", SQ[0]), ("m_non_full_condition", "producers wait here", SQ[0])],
  ["return values", "size()/empty()/full()"])
P("Q03", "A queue poller runs one thread that always ends before its object does",
  """Starting a stopped poller starts exactly one thread and returns only once that thread was seen running (or throws); starting it again changes nothing. The thread announces itself once, polls as long as the poller is
  not stopped, and looks before every event. stop() and the destructors tell the thread to end before waiting for it, also when it has only just been created; after stop() the poller is not running and can be started again.
  The pollers of the middleware stop the thread before any of their members is destroyed.""",
  "schedules histories", "every interleaving of start, stop and destruction with the polling thread",
  "Tests start, wait and stop; a thread that raises its flag after stop() lowered it, or that polls a half-destroyed object, needs an unlucky schedule.",
  PO + [M + "safe_queue_poller.h", M + "concurrent_queue_poller.h"], [("start/stop/polling loop", PO[0]), ("derived destructors", M + "safe_queue_poller.h, concurrent_queue_poller.h")],
  [("_started", "wanted", PO[1]), ("_running", "the thread is in its loop", PO[1])], ["isRunning()"])
P("Q04", "In-memory publishers enqueue each event once and pollers emit each event once",
  """Publishing enqueues exactly one event that carries the published data and the time of publishing. Without discarding it waits for room and never removes an event; with discarding it removes queued events only when enqueuing
  failed and adds exactly the number removed to the statistics. A poller's turn takes at most one event and emits it exactly once, under the
  poller's event name, with the time and data taken from the queue; when nothing was taken nothing is emitted.""",
  "inputs histories schedules", "every outcome of the queue operations and every event",
  "These parts need the closed SDK and are not built by the available tests at all.",
  [M + "basic_publisher.h", M + "concurrent_queue_publisher.h", M + "safe_queue_poller.h", M + "concurrent_queue_poller.h"],
  [("publishing", M + "basic_publisher.h, concurrent_queue_publisher.h"), ("polling", M + "safe_queue_poller.h, concurrent_queue_poller.h")])
