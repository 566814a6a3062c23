// Declarations only: the SDK is not part of this repository.
#ifndef KPSR_STATS_BASE_H
#define KPSR_STATS_BASE_H
#include <atomic>
#include <string>
#include <klepsydra/sdk/time_utils.h>
namespace kpsr {
class Container;
class FunctionStats
{
public:
    explicit FunctionStats(const std::string &name);
    virtual ~FunctionStats();
    void start();
    void stop();
    void startProcessMeasure();
    void stopProcessMeasure();
    std::string name;
    unsigned long long totalProcessed;
};
} // namespace kpsr
#endif
