// Uses of the middleware channels and the forwarder that the sources do not instantiate themselves.
#include <functional>
#include <memory>
#include <string>
#include <klepsydra/core/event_forwarder.h>
#include <klepsydra/core/from_middleware_channel.h>
#include <klepsydra/core/to_middleware_channel.h>
namespace unit {
struct Event { int id; std::string text; };
struct Message { int size; std::string bytes; };
}
namespace kpsr {
template<>
class Mapper<unit::Event, unit::Message>
{
public:
    void fromMiddleware(const unit::Message &message, unit::Event &event);
    void toMiddleware(const unit::Event &event, unit::Message &message);
};
}
template class kpsr::EventForwarder<unit::Event>;
template class kpsr::ToMiddlewareChannel<unit::Event, unit::Message>;
template class kpsr::FromMiddlewareChannel<unit::Event, unit::Message>;
