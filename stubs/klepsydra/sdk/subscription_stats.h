// Declarations only: the SDK is not part of this repository.
#ifndef KPSR_SUBSCRIPTION_STATS_H
#define KPSR_SUBSCRIPTION_STATS_H
#include <klepsydra/sdk/stats_base.h>
namespace kpsr {
class SubscriptionStats : public FunctionStats
{
public:
    SubscriptionStats(const std::string &name, const std::string &listenerName, const std::string &type, bool hasContainer = false);
    unsigned long long totalEnqueuedTimeInNs;
    unsigned long long totalDiscardedEvents;
};
} // namespace kpsr
#endif
