from . import P
I = "core/modules/core/include/klepsydra/core/"
SAFE, MULTI, SINGLE, SUB = I + "safe_event_emitter.h", I + "unsafe_multi_listener_event_emitter.h", I + "unsafe_single_listener_event_emitter.h", I + "event_emitter_subscriber.h"
ALL = [SAFE, MULTI, SINGLE]
STATE = [("listeners", "name -> record (Safe), name -> ids (Multi)", SAFE + ", " + MULTI), ("mutex", "guards the records of the Safe emitter", SAFE)]

P("E01", "An emitted event reaches every listener of its name once, in order",
  """Emitting an event under a name calls each listener that is registered under exactly this name once, in the order of registration, with this event and this enqueuing time, and calls no other
  listener. A name nobody listens to calls nothing. This holds for the thread safe emitter, the unsafe emitter for many listeners and the unsafe emitter for one listener, and for the wrappers through which they call.""",
  "inputs histories", "every set of listeners and names, every event",
  "Tests register one or two listeners under one name; a listener skipped or called twice depends on how many there are, on the others' names and on which are one-time listeners.",
  ALL, [("emitEvent", "all emitters"), ("runCallback", I + "safe_event_emitter.h, event_emitter_interface.h")], STATE, ["calls of the listeners"])
P("E02", "A one-time listener runs at most once, or is refused by name",
  """A one-time listener of the thread safe emitter is removed before it is called, by the very emission that calls it, so it runs once even when several threads emit at the same time or the listener emits itself; no other
  listener is removed by an emission. The unsafe emitters refuse one-time listeners with an exception and register nothing.""",
  "schedules histories", "every interleaving of emissions, and emissions made by listeners",
  "A second call needs two threads in the same window or a listener that emits the event it is called for.",
  ALL, [("emitEvent/takeListener", SAFE), ("once", "all emitters")], STATE)
P("E03", "Registering and removing listeners keeps records, ids and statistics in step",
  """Registering adds one record that holds the given name, callback and kind and returns an id no other listener has; known names of the unsafe emitters keep theirs. Removing removes exactly the listener of the id, together
  with all that belongs to it, and refuses unknown ids; removing all leaves no record. Statistics are attached to the given container when registering, detached from it when removed, never touched when they do not exist, and the
  statistics asked for are those of the listener with that id.""",
  "histories inputs", "every sequence of registrations and removals, with and without container",
  "The bookkeeping of ids, names, subscriptions and statistics can go wrong only after several registrations and removals in a certain order.",
  ALL, [("on/once/removeListener/removeAllListeners/getSubscriptionStats", "all emitters")], STATE, ["returned ids", "getSubscriptionStats()"])
P("E04", "The safe emitter uses its records under its mutex and runs callbacks without it",
  """Every use of the records of the thread safe emitter happens while its mutex is held, each method gives back what it locked on every way out, exceptional ones included, and no listener is called while the mutex is held: listeners may use
  the emitter they are called by.""",
  "schedules fault_sequences", "every interleaving of all methods, listeners that use the emitter, exceptions",
  "A race on the records or a deadlock of a listener that removes itself does not show in tests that register first and emit later.",
  [SAFE], [("lock scopes", SAFE + " every method")], STATE)
P("E05", "Listener statistics bracket the callback and count every discarded event",
  """The statistics of a listener are started before and stopped after its callback, around this one call, and the waiting time is that between the given enqueuing time and the beginning of the call, added only when such a time was given. Discarding an event adds one to the statistics of
  each listener of the name that has statistics and calls no listener.""",
  "inputs histories", "every listener, event and enqueuing time",
  "The values are times; tests cannot compare them, and the discarded events of several listeners are not looked at.",
  ALL, [("runCallback", "wrappers with statistics"), ("discardEvent", "all emitters")], [("totalDiscardedEvents", "per listener", SAFE)])
P("E07", "A subscriber passes its requests on to its emitter under its event name",
  """A subscriber registers each listener once with its emitter under its own event name, as one-time or permanent as asked, with the container it was given, and remembers the id it got under the name of the listener. Removing a listener removes exactly this id and forgets it; removing
  an unknown name removes nothing. Statistics asked for by name are those of its id, and there are none for a name that is not registered.""",
  "histories inputs", "every sequence of registrations, removals and questions",
  "A forgotten or stale id shows only when a name is used again or asked for after its removal.",
  [SUB], [("registerListener/registerListenerOnce/removeListener/getSubscriptionStats", SUB)], [("_listenerMap", "listener name -> id", SUB)])
P("E08", "A published event reaches its emitter, channel or publisher exactly once",
  """Publishing through an event emitter emits the event once, on the publisher's own emitter, under its own name and without an enqueuing time. A provider gives out a publisher and a subscriber that share one new emitter of the requested kind and one name. A forwarder publishes each message once. A channel to the
  middleware makes one message from each event with its own mapper and publishes it once; a channel from the middleware transforms each message once. No failure on the way is swallowed.""",
  "inputs configurations fault_sequences", "every event, name, kind of emitter and mapper",
  "Wrong wiring of names, emitters or mappers shows only with several providers or kinds; swallowed failures need a failing middleware.",
  [I + "event_emitter_publisher.h", I + "event_emitter_middleware_provider.h", I + "event_emitter_factory.h", I + "event_forwarder.h", I + "to_middleware_channel.h", I + "from_middleware_channel.h"],
  [("internalPublish", I + "event_emitter_publisher.h"), ("createEventEmitter", I + "event_emitter_factory.h"), ("internalPublish", I + "to_middleware_channel.h")], [], ["emitted events", "published messages"])
