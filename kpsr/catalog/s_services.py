from . import P
I = "core/modules/core/include/klepsydra/core/"
CON = ["core/modules/core/src/core_container.cpp", I + "core_container.h"]
CACHE, CALLBACK, MANAGED, POOLPUB = I + "cache_listener.h", I + "callback_handler.h", I + "manage_service.h", I + "object_pool_publisher.h"

P("S01", "The container uses each of its lists under that list's mutex",
  """Every use of the lists of attached services and of service, function, publication and subscription statistics, when attaching, detaching, starting and stopping, happens while the mutex of this list is held. Locks are taken in one order,
  never twice by one thread, and given back on every way out, exceptional ones included.""",
  "schedules fault_sequences", "every interleaving of attach, detach, start and stop by any number of threads",
  "Attaching while the container starts is a race that tests with one thread cannot see.",
  CON, [("lock scopes", CON[0] + " every method")], [("_managedServices, _serviceStats, _functionStats, _publicationStats, _subscriptionStats", "attached objects", CON[1])])
P("S02", "The container keeps exactly what is attached and starts and stops all of it",
  """attach adds the given object once to the list of its kind (a service also its statistics) and starts its statistics exactly if the container is running; null is ignored. detach removes at most one entry, of this kind and with the name of the
  given object, and nothing else. start and stop set the running state and start, or stop, every attached statistics object of every kind once.""",
  "histories inputs", "every sequence of attach, detach, start and stop with any objects",
  "Detaching one of several objects of similar name, or objects attached while running, are histories tests do not contain.",
  CON, [("attach/detach/start/stop", CON[0])], [("_running", "container is started", CON[1])], ["attach", "detach", "start", "stop"])
P("S03", "A cache listener keeps a private copy of the last event and counts every event",
  """Every event received by reference is copied into a new object that replaces the kept one, every event received raw is kept itself, and each is counted once. Objects handed out earlier never change. The thread safe listener does all this under its mutex, and the counter and
  event returned as a pair belong together. The test listener sleeps only if told so and never loses the event.""",
  "schedules histories inputs", "every event, interleaving of receiving and reading, and sleeping time",
  "Overwriting an event in place is only noticed by someone who kept the earlier one; a torn pair needs a second thread.",
  [CACHE], [("onEventReceived/onEventReceivedRaw/getLastReceivedEvent/getCounterAndEvent", CACHE)], [("_lastReceivedEvent", "the last event", CACHE), ("counter", "number of events", CACHE)], ["counter", "getLastReceivedEvent()"])
P("S04", "A reply runs the callback of the one oldest request it answers, once",
  """requestAndReply records the request with its callback behind the earlier ones before publishing it, once. A reply is compared with the pending requests from the oldest on; the callback of the first it matches is called once with the reply, after the request was dropped, so that an
  answered request is never answered again; a reply that matches nothing changes nothing. The thread safe handler guards the pending requests with its mutex and neither publishes nor calls back while holding it. A handler listens to replies under its name from construction to destruction.""",
  "schedules histories inputs fault_sequences", "every sequence of requests and replies, replies during publication, callbacks that send requests or throw",
  "Tests answer one request at a time; a reply that comes during publication or a callback that requests again needs a reentrant publisher.",
  [CALLBACK], [("requestAndReply", CALLBACK), ("onReplyReceived", CALLBACK)], [("_requestCallbackVector", "pending requests with their callbacks", CALLBACK)], ["calls of the callbacks"])
P("S05", "A managed service starts and stops exactly on the system's events",
  """A managed service that is given a subscriber listens to system events under its own name; without one it listens to nothing. A start event starts this service once, a stop event stops it once, and every other event does neither.""",
  "inputs histories", "every system event, with and without a subscriber",
  "Tests send start and stop; the events in between must do nothing.",
  [MANAGED, I + "system_event.h"], [("constructor", MANAGED), ("onSystemMessageReceived", MANAGED)], [], ["startup()", "shutdown()"])
P("P04", "A published event is a complete, private object from the pool or newly made",
  """A publisher with a pool takes each event it makes from the pool, and makes a new one, counted and initialised, only when the pool is exhausted; a publisher without a pool makes a new one, counted, for each event. The event goes once through the user's cloner (or is a copy if there is none) and, for
  processAndPublish, is initialised once and processed once, before it is published, once. Exceptions of the user's functions come to the caller and nothing is published. The pool has the given size, initializer and finalizer and is destroyed with the publisher.""",
  "inputs fault_sequences configurations", "every pool size, initializer and cloner (or none), exhausted pools, functions that throw",
  "Exhaustion of the pool, throwing cloners and each combination of absent functions are separate ways through the creation of an event.",
  [POOLPUB, I + "smart_object_pool.h"], [("creator functions", POOLPUB + " ObjectPoolPublisher()"), ("internalPublish/processAndPublish", POOLPUB)], [("_objectPool", "available objects", POOLPUB), ("_totalEventAllocations", "number of objects made", POOLPUB)], ["published events", "publicationStats"])
