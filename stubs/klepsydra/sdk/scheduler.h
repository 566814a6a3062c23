// Declarations only: the SDK is not part of this repository.
#ifndef KPSR_SCHEDULER_H
#define KPSR_SCHEDULER_H
#include <functional>
#include <string>
#include <klepsydra/sdk/service.h>
namespace kpsr {
class Scheduler
{
public:
    virtual ~Scheduler();
    virtual void startScheduledTask(const std::string &name, int after, bool repeat, std::function<void()> task) = 0;
    virtual void startScheduledService(int after, bool repeat, Service *service) = 0;
    virtual void stopScheduledTask(const std::string &name) = 0;
    virtual void stopScheduledService(Service *service) = 0;
};
} // namespace kpsr
#endif
