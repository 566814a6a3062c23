// Uses of the state machine interfaces that the sources do not instantiate themselves.
#include <cereal/archives/json.hpp>
#include <klepsydra/state_machine/kpsr_state_machine.h>
#include <klepsydra/state_machine/json_to_state_machine.h>
void kpsr_use(cereal::JSONInputArchive &a, kpsr::fsm::ConfigStateMachine &m) { a(m); }
