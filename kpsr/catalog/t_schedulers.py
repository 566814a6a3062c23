from . import P
M = "core/modules/mem_mdlw/"
BS, BH = M + "src/basic_scheduler.cpp", M + "include/klepsydra/mem_core/basic_scheduler.h"
ES = "high_performance/modules/high_performance/src/event_loop_scheduler.cpp"

P("T01", "A scheduled task runs at its times between its start and its stop, never after",
  """A scheduled task has one thread, kept under its name, that runs exactly this task: once after its time if it is not repeated, else again and again, each time after a wait of its time less what the last run took, until it is stopped. When stopScheduledTask comes back, or the scheduler is destroyed, the thread has ended and the task
  never runs again; other tasks are not touched. Starting a task under a name in use stops the old one before the new one starts. A service is scheduled under its own name and run once per turn.""",
  "schedules histories inputs", "every name, time, repetition, task and sequence of starts and stops",
  "A task that runs after its stop needs an unlucky moment; tests cannot tell a wait that is too short from a fast machine.",
  [BS, BH], [("startScheduledTask/stopScheduledTask", BS), ("ScheduledThread::start/stop/destructor", BS), ("startScheduledService/stopScheduledService", BS)],
  [("_threadMap", "threads by name of the task", BH), ("_isRunning", "the task is to be run", BH)], ["runs of the task"])
P("T02", "The event loop's scheduler has every due task run once by the loop, nowhere else",
  """A task scheduled on an event loop is handed to a timer under its name, with its time and repetition; each time it is due, exactly this task is published exactly once on the scheduler's publisher and never run by the timer's or the caller's thread. Stopping a task or service stops the timer of exactly this one. A service is scheduled under
  its own name and run once each time.""",
  "inputs histories", "every name, time, repetition, task and service",
  "A task that runs on the timer's thread gives the same results in a test, and breaks only code that relies on one thread.",
  [ES], [("startScheduledTask/startScheduledService", ES), ("stopScheduledTask/stopScheduledService", ES)], [], ["runs of the task", "thread of the run"])
