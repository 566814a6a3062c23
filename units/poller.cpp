// Instantiates the in-memory pollers and publishers for analysis.
#include <sys/types.h>
#include <klepsydra/mem_core/safe_queue_poller.h>
#include <klepsydra/mem_core/concurrent_queue_poller.h>
#include <klepsydra/mem_core/basic_publisher.h>
#include <klepsydra/mem_core/concurrent_queue_publisher.h>
#include <klepsydra/mem_core/basic_middleware_provider.h>
#include <klepsydra/mem_core/concurrent_middleware_provider.h>

struct KMsg { long a; KMsg(); KMsg(const KMsg &); KMsg &operator=(const KMsg &); ~KMsg(); };
namespace kpsr {
namespace mem {
template class SafeQueuePoller<KMsg>;
template class ConcurrentQueuePoller<KMsg>;
template class BasicPublisher<KMsg>;
template class ConcurrentQueuePublisher<KMsg>;
template class InMemoryMiddlewareProvider<KMsg>;
template class BasicMiddlewareProvider<KMsg>;
template class ConcurrentMiddlewareProvider<KMsg>;
} // namespace mem
} // namespace kpsr

struct KSrc { int b; };
std::shared_ptr<kpsr::EventTransformForwarder<KSrc, KMsg>> use_forwarder(kpsr::mem::InMemoryMiddlewareProvider<KMsg> &p, const std::function<void(const KSrc &, KMsg &)> &f) { return p.getProcessForwarder<KSrc>(f); }
