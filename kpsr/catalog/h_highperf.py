from . import P
H = "high_performance/modules/high_performance/include/klepsydra/high_performance/"
ELP, ELS, ELH, ELX, EL = (H + "event_loop%s.h" % x for x in ("_publisher", "_subscriber", "_event_handler", "_function_exec_listener", ""))
DMP, DMS, DMH, DMW, DMM = (H + "data_multiplexer_%s.h" % x for x in ("publisher", "subscriber", "event_handler", "event_data", "middleware_provider"))

P("H01", "An event loop publication fills one claimed slot completely or counts the loss",
  """A publication on an event loop claims exactly one slot of the loop's ring without waiting, fills this slot and no other with the event, the name of the publisher and the time of the publication (from the clock if there is a container), and publishes it exactly once after it is complete; nothing is written to it
  afterwards and no function of a user runs in between. If the ring is full nothing is written, the publication comes back normally, and the dropped event is counted exactly once; published events are never counted as dropped. The publisher is set up with exactly its arguments.""",
  "inputs histories fault_sequences", "every event, name, pool size and state of the ring, full ones included",
  "Publishing a slot before its last field is written, or a claimed slot that is never published, shows only with a consumer at the right place or a full ring.",
  [ELP, H + "eventloop_data_type.h"], [("internalPublish", ELP), ("constructor, preparation and time functions", ELP)], [("_discardedMessages", "dropped events", ELP)], ["events delivered", "_discardedMessages"])
P("H02", "An event loop hands each event once, unchanged, to the listeners of its name",
  """The handler of an event loop emits each event of the ring exactly once, unchanged, with the time of its slot and under the name of its publisher, and empties the slot afterwards, also when a listener throws. A subscriber of that name registers exactly one listener at the loop's emitter, gives every event
  received to each of its own listeners with its type, and takes the registration back when it is destroyed. A function to be executed by the loop (runOnce and its like) is run exactly once by it. Statistics of the listener come to the container, once, if there is one.""",
  "inputs histories fault_sequences", "every event, name and listener, listeners that throw included",
  "A slot that keeps its event alive, or a listener that outlives its subscriber, is not seen by tests that look at delivered events.",
  [ELH, ELS, ELX], [("on_event", ELH), ("constructor and destructor of the subscriber", ELS), ("executor", ELX)], [], ["onEventReceived", "executed functions"])
P("H03", "Consumer threads start once, join the ring first, are halted and joined",
  """start() of an event loop starts one thread if none runs, otherwise nothing, and comes back when the consumer runs or throws after the timeout. The thread joins the ring's gating sequences before its consumer runs, so that no event unread is overwritten. stop() halts the consumer only when it has reached its loop (a halt
  is never lost), joins the thread, and leaves the loop ready for the next start; it does nothing if nothing runs. Destroying the loop, or a subscriber of a data multiplexer, halts and joins its thread before any part of it is gone, and takes its sequence out of the ring; so does a subscriber whose start times out.""",
  "schedules histories fault_sequences", "every history of start, stop and destruction, every delay of the started thread, exceptions included",
  "A halt that comes before the thread has reached its loop needs a delayed thread; a consumer that leaves the ring late blocks a publisher only when the ring is full.",
  [EL, DMS, H + "disruptor4cpp/batch_event_processor.h"], [("start/stop/~EventLoop", EL), ("constructor/stopBatchProcessor/destructor", DMS)], [("_isStarted", "the thread was started", EL), ("_batchProcessorThread", "the consumer's thread", DMS)], ["isRunning()", "isStarted()"])
P("H04", "An event loop provider keeps one publisher and subscriber per name, and its loop",
  """For each event name an event loop provider makes at most one publisher and one subscriber, with the loop's ring, emitter and name, the container and exactly the given arguments, keeps them as long as it lives, and gives out the same object for the same name ever after. There is one scheduler, whose functions are run by an executor
  that listens under the scheduler's name. start, stop and isRunning speak for the loop; destroying the provider stops the loop before any part of it is gone. The container is only changed while the loop stands still, and an existing scheduler's statistics then come to the new container.""",
  "histories inputs configurations", "every sequence of requests for any names, every container, running or not",
  "Two publishers for one name, or an executor under another name, look right in a test that asks once.",
  [H + "event_loop_middleware_provider.h"], [("getPublisher/getSubscriber/getScheduler", H + "event_loop_middleware_provider.h"), ("start/stop/isRunning/destructor/setContainer", H + "event_loop_middleware_provider.h")],
  [("_publisherMap, _subscriberMap", "objects by name", H + "event_loop_middleware_provider.h")], ["getPublisher()", "getSubscriber()", "getScheduler()"])
P("H05", "Publishing on a data multiplexer fills one claimed slot once, or counts the loss",
  """Each publication on a data multiplexer claims exactly one slot without waiting, brings the event into this slot and no other exactly once (by the user's cloner, or a copy without one; processAndPublish lets the user's function work on the slot's event), sets the time of the publication and then publishes it exactly once. If the ring is full
  nothing is written and the loss is counted exactly once; published events are not counted. When the user's function throws, the claimed slot is given back, nothing is published and the exception comes to the caller, so that no slot is ever lost.""",
  "inputs histories fault_sequences", "every event and state of the ring, cloners and functions that throw or are absent",
  "A lost slot only shows after the ring went around once; publishing too early needs a consumer at the right place.",
  [DMP, DMW], [("internalPublish/processAndPublish", DMP), ("constructor and cloners", DMP)], [("publicationStats.totalDiscardedEvents", "dropped events", DMP)], ["events delivered", "publicationStats"])
P("H06", "A multiplexer subscriber gets the last event of a batch; others count as lost",
  """A subscriber of a data multiplexer emits the last event of each batch it is handed exactly once, unchanged, with the time of its slot, under its own name and through its own emitter, and reports every earlier event of the batch exactly once as discarded. Handler and subscriber share name (multiplexer and subscriber) and emitter.""",
  "inputs histories", "every event, batch length and position",
  "Tests rarely see batches longer than one, and discarded events only in statistics.",
  [DMH, DMS], [("on_event", DMH), ("constructor", DMS)], [], ["onEventReceived", "subscription statistics"])
P("H07", "Every slot of a data multiplexer owns its event; subscribers are kept by name",
  """Every slot of a data multiplexer's ring has an event object of its own, shared with no other slot: a default one, initialised once by the user's initializer if there is one, or a copy of the model event. The provider's publisher uses the same ring, name, container and cloner. For each subscriber name there is at most one subscriber, given out ever after;
  a new container comes to the publisher and to every subscriber.""",
  "inputs histories configurations", "every initializer, cloner, model event, name and container",
  "Slots that share an object only show when a slow subscriber looks at an event while a later one is written.",
  [DMM, DMW], [("constructors", DMM), ("getSubscriber/setContainer", DMM), ("DataMultiplexerDataWrapper", DMW)], [("_subscriberMap", "subscribers by name", DMM), ("_ringBuffer", "slots", DMM)], ["getPublisher()", "getSubscriber()"])
