// Declarations only: the SDK is not part of this repository.
#ifndef KPSR_SUBSCRIBER_H
#define KPSR_SUBSCRIBER_H
#include <functional>
#include <memory>
#include <string>
#include <klepsydra/sdk/container.h>
#include <klepsydra/sdk/subscription_stats.h>
namespace kpsr {
template<class T>
class Subscriber
{
public:
    Subscriber(Container *container, const std::string &name, const std::string &type);
    virtual ~Subscriber();
    virtual void registerListenerOnce(const std::function<void(const T &)> listener) = 0;
    virtual void registerListener(const std::string &name, const std::function<void(const T &)> listener) = 0;
    virtual void removeListener(const std::string &name) = 0;
    virtual std::shared_ptr<SubscriptionStats> getSubscriptionStats(const std::string &name) = 0;
    void setContainer(Container *container);
    const std::string name;

protected:
    Container *container;
};
} // namespace kpsr
#endif
