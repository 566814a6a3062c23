// Instantiates the safe queue and the pollers for analysis.
#include <sys/types.h>
#include <memory>
#include <klepsydra/mem_core/safe_queue.h>
#include <klepsydra/mem_core/in_memory_queue_poller.h>

namespace kpsr {
namespace mem {
struct KItem { long a; KItem(); KItem(const KItem &); KItem &operator=(const KItem &); KItem &operator=(KItem &&); ~KItem(); };
template class SafeQueue<KItem>;
} // namespace mem
} // namespace kpsr
