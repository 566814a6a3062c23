// Uses of the event emitters, subscribers and publishers that the sources do not instantiate themselves.
#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <unordered_map>
#include <vector>
#include <klepsydra/core/event_emitter_middleware_provider.h>
#include <klepsydra/core/safe_event_emitter.h>
#include <klepsydra/core/unsafe_multi_listener_event_emitter.h>
#include <klepsydra/core/unsafe_single_listener_event_emitter.h>
namespace unit {
struct Event { int id; std::string text; };
}
using P = std::shared_ptr<const unit::Event>;
template class kpsr::SafeEventEmitter<P>;
template class kpsr::UnsafeMultiListenerEventEmitter<P>;
template class kpsr::UnsafeSingleListenerEventEmitter<P>;
template class kpsr::EventEmitterSubscriber<unit::Event>;
template class kpsr::EventEmitterPublisher<unit::Event>;
template class kpsr::EventEmitterMiddlewareProvider<unit::Event>;
