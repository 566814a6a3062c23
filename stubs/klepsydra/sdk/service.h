// Declarations only: the SDK is not part of this repository.
#ifndef KPSR_SERVICE_H
#define KPSR_SERVICE_H
#include <string>
#include <klepsydra/sdk/container.h>
#include <klepsydra/sdk/environment.h>
#include <klepsydra/sdk/publisher.h>
#include <klepsydra/sdk/subscriber.h>
#include <klepsydra/sdk/service_stats.h>
namespace kpsr {
class Service
{
public:
    Service(Container *container, Environment *environment, const std::string &serviceName, bool isMasterService = false);
    virtual ~Service();
    void startup();
    void shutdown();
    void runOnce();
    ServiceStats serviceStats;

protected:
    virtual void start() = 0;
    virtual void stop() = 0;
    virtual void execute() = 0;
};
} // namespace kpsr
#endif
