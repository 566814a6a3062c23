from . import P
M = "core/modules/mem_mdlw/"
I = M + "include/klepsydra/mem_core/"

P("M01", "An in-memory provider joins its parts by one queue, safely to the end",
  """A basic or concurrent in-memory provider makes exactly one queue of the size asked for (and one token of it), one publisher that puts events into it and one poller that takes them out and emits them, under the provider's name, on the very emitter its subscriber listens on, which several threads may use. Container, pool size, initializer,
  cloner, discard mode and waiting period come to the parts they are for. start, stop and isRunning are those of the poller; publisher, subscriber and forwarders are the provider's own. When a provider is destroyed, running or not, the poller has ended before the queue, the token, the subscriber or the emitter go.""",
  "inputs schedules histories", "every set of arguments, and every moment of destruction",
  "Parts wired to different queues or emitters pass tests that use one of them; a queue destroyed under a running poller fails only at an unlucky moment.",
  [I + "in_memory_middleware_provider.h", I + "basic_middleware_provider.h", I + "concurrent_middleware_provider.h"], [("BasicMiddlewareProvider", I + "basic_middleware_provider.h"), ("ConcurrentMiddlewareProvider", I + "concurrent_middleware_provider.h")],
  [("_internalQueue", "events between publisher and poller", I + "basic_middleware_provider.h")], ["events received", "arguments of the parts"])
P("M02", "The environment in memory gives back what was stored last, or the default",
  """A getter of the in-memory environment finds exactly the value that the last setter of the same type stored under the same key and says so; for a key without a value it gives the default and says that there is none. Types do not mix, storing a value touches no other, looking one up changes nothing, and every use of the values is under one
  mutex that is free again afterwards, also when an exception passes.""",
  "inputs histories schedules", "every key, value, default, and order of calls from several threads",
  "Tests try a few keys of a type and one thread.",
  [M + "src/mem_env.cpp", I + "mem_env.h"], [("getProperty*/setProperty*", M + "src/mem_env.cpp")], [("*DataMap", "values by key", I + "mem_env.h")], ["value", "result"])
