// Uses of the core services that the sources do not instantiate themselves.
#include <algorithm>
#include <atomic>
#include <chrono>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
#include <klepsydra/core/cache_listener.h>
#include <klepsydra/core/callback_handler.h>
#include <klepsydra/core/event_forwarder.h>
#include <klepsydra/core/manage_service.h>
namespace unit {
struct Event { int id; std::string text; };
struct Ask { int id; std::string text; };
struct Answer { int id; std::string text; };
}
template class kpsr::mem::CacheListener<unit::Event>;
template class kpsr::mem::MultiThreadCacheListener<unit::Event>;
template class kpsr::mem::TestCacheListener<unit::Event>;
template class kpsr::CallbackHandler<unit::Ask, unit::Answer>;
template class kpsr::MultiThreadCallbackHandler<unit::Ask, unit::Answer>;
template class kpsr::EventForwarder<unit::Event>;
namespace unit {
struct Managed : kpsr::ManagedService
{
    Managed(kpsr::Environment *e, kpsr::Subscriber<kpsr::SystemEventData> *s, std::string n)
        : kpsr::ManagedService(e, s, n) {}
    void start() override;
    void stop() override;
    void execute() override;
};
void managed(kpsr::Environment *e, kpsr::Subscriber<kpsr::SystemEventData> *s, std::string n)
{
    Managed m(e, s, n);
}
}
