// Uses of the event loop and the data multiplexer that the sources do not instantiate themselves.
#include <chrono>
#include <functional>
#include <future>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>
#include <klepsydra/high_performance/data_multiplexer_middleware_provider.h>
#include <klepsydra/high_performance/event_loop_middleware_provider.h>
namespace unit {
struct Event
{
    Event();
    Event(const Event &);
    Event &operator=(const Event &);
    ~Event();
    int id;
    std::string text;
};
}
namespace hp = kpsr::high_performance;
template class hp::EventLoop<8>;
template class hp::EventLoopPublisher<unit::Event, 8>;
template class hp::EventLoopSubscriber<unit::Event>;
template class hp::EventLoopMiddlewareProvider<8>;
template kpsr::Publisher<unit::Event> *hp::EventLoopMiddlewareProvider<8>::getPublisher<unit::Event>(
    std::string, int, std::function<void(unit::Event &)>, std::function<void(const unit::Event &, unit::Event &)>, bool);
template kpsr::Subscriber<unit::Event> *hp::EventLoopMiddlewareProvider<8>::getSubscriber<unit::Event>(
    const std::string &, kpsr::EventEmitterType);
template class hp::DataMultiplexerPublisher<unit::Event, 8>;
template class hp::DataMultiplexerEventHandler<unit::Event>;
template class hp::DataMultiplexerSubscriber<unit::Event, 8>;
template class hp::DataMultiplexerMiddlewareProvider<unit::Event, 8>;
namespace unit {
void use(std::shared_ptr<kpsr::EventEmitterInterface<hp::EventloopDataWrapper>> e, kpsr::Container *c)
{
    hp::EventLoopEventHandler h(e);
    hp::EventLoopFunctionExecutorListener l(c, e, "name");
    l.setContainer(c);
}
} // namespace unit
