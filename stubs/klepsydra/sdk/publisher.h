// Declarations only: the SDK is not part of this repository.
#ifndef KPSR_PUBLISHER_H
#define KPSR_PUBLISHER_H
#include <functional>
#include <memory>
#include <string>
#include <klepsydra/sdk/container.h>
#include <klepsydra/sdk/publication_stats.h>
namespace kpsr {
template<class T>
class Publisher
{
public:
    Publisher(Container *container, const std::string &name, const std::string &type);
    virtual ~Publisher();
    void publish(const T &event);
    void publish(std::shared_ptr<const T> event);
    virtual void processAndPublish(std::function<void(T &)> process) = 0;
    void setContainer(Container *container);
    PublicationStats publicationStats;
    const std::string name;
    Container *_container;

protected:
    virtual void internalPublish(const T &event) = 0;
    virtual void internalPublish(std::shared_ptr<const T> event) = 0;
};
} // namespace kpsr
#endif
