from . import P
S = "state_machine/modules/state_machine/src/"
J = "state_machine/modules/json_conf/"
SM, LS = S + "state_machine_impl.cpp", S + "state_machine_listener.cpp"

P("F01", "A state machine that is not running keeps its state and takes no events",
  """Only start() makes the machine run, only stop() and reset() make it stop. While it is stopped, events are not queued, updates neither change the state nor call observers. start() runs the machine first and then tells every observer the
  current state once, as changed; it keeps state and queued events. reset() stops it and returns to the initial state. While running, enqueueEvent() queues exactly the given event at the end, and enqueueAndUpdate() queues it and then updates once.""",
  "histories inputs", "every sequence of start, stop, reset, enqueue and update with any events, for any machine",
  "The tests start a machine once and walk through one configuration.",
  [SM], [("running flag", SM + " _started")], [("_started", "the machine runs", "state_machine_impl.h"), ("_eventQueue", "events in the order they came", "state_machine_impl.h")])
P("F02", "An update takes events in order until the first matching transition moves it",
  """While running in a known state, update() takes the oldest event first, asks the transitions of the current state in their configured order about exactly that event, and moves to the destination of the first that accepts it.
  Events that no transition accepts are dropped, each only after every transition was asked; after the one transition of the update nothing more is taken or asked, so later events stay queued. Without a match the update ends only when no event is left.
  The state changes in no other way, and a state that is not in the table does no harm.""",
  "histories inputs", "every machine, every queue of events, every answer of the transitions",
  "Several queued events of which some match nothing, several matching transitions, transitions to the same state or to unknown ones are combinations the tests do not contain.",
  [SM], [("event loop", SM + " update")], [("_stateTable", "state by id", "state_machine_impl.h"), ("_currentStateId", "id of the current state", "state_machine_impl.h")])
P("F03", "Every observer learns the state once per update, and whether it changed",
  """Every update of a running machine in a known state calls each registered observer exactly once, after the transition if there was one, with "machine id:current state id" and true exactly when this update changed the state;
  an observer may register or remove observers while it is called. registerObserver() adds one observer at the end and keeps the others; unregisterObservers() removes all.""",
  "histories inputs", "every number of observers, every update, observers that register or unregister observers",
  "The tests use one observer that only records.",
  [SM], [("notification", SM + " updateObservers")], [("_observers", "registered observers", "state_machine_impl.h")])
P("F04", "A state machine is exactly the one its configuration describes",
  """The factory makes one state per configured state with its id and one transition per configured transition of that state, in the configured order, with its destination and event; the machine has the configured id, knows every state by its id, starts in the
  first configured state and does not run yet. A transition accepts exactly its own event. The JSON members are read into the fields of the same meaning, and the machine or listener made from a file is the one that file describes.""",
  "inputs", "every configuration: any number of states and transitions, repeated and empty ids",
  "One JSON file is tested; swapped, shared or missing parts show only with other shapes.",
  [S + "sm_factory_impl.cpp", S + "state_impl.cpp", S + "transition_impl.cpp", SM, J + "include/klepsydra/state_machine/json_to_state_machine.h", J + "src/json_config_loader.cpp", J + "src/kpsr_state_machine.cpp"],
  [("factory", S + "sm_factory_impl.cpp createStateMachine"), ("JSON mapping", "json_to_state_machine.h serialize")])
P("F05", "A state's actions run exactly when they are due",
  """For the state it is told, a listener runs each one-off action and each entry action once when the state was entered, each periodic action once on every update, and no other action. Actions get the state's name. One-off actions are unregistered before they run, so they run only once even when an action
  re-enters the state or throws; the others stay. Adding puts the action at the end of the right list under "machine:state" (the state alone without a machine id); removing unregisters periodic actions of the state, or all. Actions may add or remove actions.""",
  "histories inputs", "every set of actions, every sequence of updates, actions that change the lists, re-enter the state or throw",
  "Re-entering a state from its own action, exceptions, and changes to a list while it is walked are not tested.",
  [LS], [("actions", LS + " updateCurrentState")], [("_oneOffActions, _actions, _periodicActions", "actions by complete state name", "state_machine_listener.h")])
