// Declarations only: the SDK is not part of this repository.
#ifndef KPSR_SERVICE_STATS_H
#define KPSR_SERVICE_STATS_H
#include <klepsydra/sdk/stats_base.h>
namespace kpsr {
class ServiceStats : public FunctionStats
{
public:
    explicit ServiceStats(const std::string &name);
};
} // namespace kpsr
#endif
