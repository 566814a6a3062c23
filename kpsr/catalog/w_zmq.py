from . import P
Z = "core/modules/zmq_mdlw/include/klepsydra/zmq_core/"
TO = [Z + k + "to_zmq_channel.h" for k in ("binary_", "json_", "void_caster_")] + [Z + "to_zmq_middleware_provider.h"]

P("W01", "An event for ZMQ is one message: its topic, then exactly its bytes",
  """Publishing a payload through a ZMQ channel sends, on the socket the channel was made with, exactly one message of two frames: the whole topic of the channel, marked as having more
  to come, then the whole payload and nothing else (all characters of the text, all bytes of the vector, or what the serialiser wrote for this event - never the remainder of an earlier event in a
  pooled buffer). The provider makes one channel of the requested kind per topic and gives the same one out for every later request, keeps kinds apart, and wires it to its own container and socket,
  the topic and the requested pool size; the event is mapped into the channel's payload type. Buffers for binary payloads are made when missing and deleted with the pool.""",
  "inputs histories", "every topic, payload, pool size and sequence of requests and publications",
  "The tests of this module need a broker-like set-up and publish a few short events; stale bytes, a lost multi-part flag or a shared map need events of different sizes or several topics and kinds.",
  TO, [("frames of a message", TO[0] + " internalPublish"), ("channel per topic", TO[3] + " get*ToMiddlewareChannel"), ("binary buffers", TO[3])],
  [("_topic", "topic of the channel", TO[0]), ("_zmqPublisher", "socket of the channel", TO[0])], ["frames sent on the socket", "channel given out"])
FROM = [Z + "zmq_poller.h", Z + "from_zmq_middleware_provider.h"] + [Z + k + "zmq_poller.h" for k in ("binary_", "json_", "void_caster_")]

P("W02", "Every ZMQ message reaches the subscriber of its topic once, byte for byte",
  """A poller waits on its own socket for its own period; for every message that is there it receives exactly its two frames and calls, exactly once, the function registered for
  the topic that is the whole first frame, with exactly the bytes of the second frame; a topic without a function calls nothing. Registering, unregistering and calling exclude each other, so that no
  function is called after unregisterFromTopic returned. A channel registers a topic once, with a channel to the given publisher that lives until the poller no longer uses it; after
  unregistering the topic can be registered again. start and stop are passed on to the poller, and the provider's channels hold a poller of their kind for the given socket and period.""",
  "inputs histories schedules", "every topic, payload, readiness of the socket and order of registration and reception",
  "The tests of this module send a few short text events to one topic; frames that are mixed up, truncated payloads and subscribers that are gone while they are called need other inputs and interleavings.",
  FROM, [("receive and hand out", FROM[2] + " poll"), ("functions per topic", FROM[0] + " registerToTopic/unregisterFromTopic/executeFunction"), ("channels from ZMQ", FROM[1] + " FromZmqChannel")],
  [("_functionTopicMap", "functions per topic", FROM[0]), ("_subscriberMap", "channels per topic", FROM[1])], ["functions called per message", "publisher reached"])
P("W03", "A ZMQ poller's thread ends with stop and never outlives what it uses",
  """start makes at most one thread, marks the poller as started before the thread exists, and returns once the thread was seen running (or throws when it was not, within the time limit); starting a
  started poller changes nothing. The thread raises the running flag once and waits for messages only while the poller is started and running. stop lowers both flags, also when the thread has not
  begun yet, waits for the thread and makes the poller startable again. A poller stops before the part of it whose function the thread runs is destroyed, and a channel's poller goes before the
  topics' channels that its thread calls.""",
  "schedules histories", "every interleaving of start, stop and destruction with the polling thread",
  "A stop that meets a thread which is just starting, and a destruction that meets a message, are windows of a few instructions which a test run does not hit.",
  FROM, [("life of the thread", FROM[0] + " start/stop/pollingLoop/~ZMQPoller"), ("polling loops and destructors", FROM[2]), ("order of members", FROM[1])],
  [("_started", "poller is wanted", FROM[0]), ("_running", "thread runs", FROM[0])], ["start", "stop", "destruction"])
P("W04", "Environments that share a ZMQ topic and key take over each other's changes",
  """A ZMQ environment answers every get, set, load and update from its own configuration with the same arguments and result, one at a time. After every set and every successful load it publishes, after the
  change, one message of its topic and its key, the whole exported configuration and its own source id; nothing else publishes. Its poller receives the two frames of each message and applies the
  configuration exactly when the key is its own and the source is another one. The poller is started when the environment is complete, and is stopped, with its thread ended, before the environment
  or its configuration goes; only a configuration the environment made itself is deleted.""",
  "inputs schedules histories", "every key, value, message, readiness of the socket and interleaving of users with the poller",
  "The test of this module exchanges one property between two environments; echoes, foreign keys, lost updates and use after destruction need other histories and interleavings.",
  ["core/modules/zmq_mdlw/src/zmq_env.cpp", Z + "zmq_env.h"], [("getters and setters", "core/modules/zmq_mdlw/src/zmq_env.cpp"), ("publication and reception", "core/modules/zmq_mdlw/src/zmq_env.cpp publishConfiguration, poll")],
  [("_decorableEnv", "configuration", Z + "zmq_env.h"), ("_running", "poller's thread runs", Z + "zmq_env.h")], ["values of properties", "messages sent", "life of the thread"])
