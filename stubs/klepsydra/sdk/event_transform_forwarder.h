// Declarations only: the SDK is not part of this repository.
#ifndef KPSR_EVENT_TRANSFORM_FORWARDER_H
#define KPSR_EVENT_TRANSFORM_FORWARDER_H
#include <functional>
#include <klepsydra/sdk/publisher.h>
namespace kpsr {
template<class Source, class Dest>
class EventTransformForwarder
{
public:
    EventTransformForwarder(const std::function<void(const Source &, Dest &)> &transformFunction, Publisher<Dest> *publisher);
    void onEventReceived(const Source &event);
    std::function<void(const Source &)> forwarderListenerFunction;
};
} // namespace kpsr
#endif
