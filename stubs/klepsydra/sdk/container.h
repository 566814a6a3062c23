// Declarations only: the SDK is not part of this repository.
#ifndef KPSR_SDK_CONTAINER_H
#define KPSR_SDK_CONTAINER_H
#include <string>
namespace kpsr {
class Service;
class FunctionStats;
class ServiceStats;
class PublicationStats;
class SubscriptionStats;
class Environment;
class Container
{
public:
    Container();
    virtual ~Container();
    virtual void start() = 0;
    virtual void stop() = 0;
    virtual void attach(Service *service) = 0;
    virtual void detach(Service *service) = 0;
    virtual void attach(FunctionStats *functionStats) = 0;
    virtual void detach(FunctionStats *functionStats) = 0;
    virtual void attach(ServiceStats *serviceStats) = 0;
    virtual void attach(PublicationStats *publicationStats) = 0;
    virtual void detach(PublicationStats *publicationStats) = 0;
    virtual void attach(SubscriptionStats *subscriptionStats) = 0;
    virtual void detach(SubscriptionStats *subscriptionStats) = 0;
    virtual std::string getName() const = 0;
    virtual Environment *getEnvironment() const = 0;
};
} // namespace kpsr
#endif
