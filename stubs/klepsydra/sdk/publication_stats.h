// Declarations only: the SDK is not part of this repository.
#ifndef KPSR_PUBLICATION_STATS_H
#define KPSR_PUBLICATION_STATS_H
#include <klepsydra/sdk/stats_base.h>
namespace kpsr {
class PublicationStats : public FunctionStats
{
public:
    PublicationStats(const std::string &name, const std::string &type, Container *container = nullptr);
    unsigned long long _totalEventAllocations;
    unsigned long long totalDiscardedEvents;
};
} // namespace kpsr
#endif
