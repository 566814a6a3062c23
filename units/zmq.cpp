// Uses of the ZMQ middleware that the sources do not instantiate themselves.
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
#include <spdlog/spdlog.h>
#include <klepsydra/serialization/mapper.h>
namespace unit {
struct Event { int id; std::string text; };
}
#include <klepsydra/zmq_core/from_zmq_middleware_provider.h>
#include <klepsydra/zmq_core/to_zmq_middleware_provider.h>
namespace kpsr {
template<class M>
class Mapper<unit::Event, M>
{
public:
    void fromMiddleware(const M &message, unit::Event &event);
    void toMiddleware(const unit::Event &event, M &message);
};
}
template class kpsr::zmq_mdlw::ZMQPoller< ::Base>;
template class kpsr::zmq_mdlw::ZMQPoller<std::string>;
template class kpsr::zmq_mdlw::ZMQPoller<std::vector<unsigned char>>;
template class kpsr::zmq_mdlw::FromZmqChannel< ::Base>;
template class kpsr::zmq_mdlw::FromZmqChannel<std::string>;
template class kpsr::zmq_mdlw::FromZmqChannel<std::vector<unsigned char>>;
template void kpsr::zmq_mdlw::FromZmqChannel< ::Base>::registerToTopic<unit::Event>(const std::string &, kpsr::Publisher<unit::Event> *);
template void kpsr::zmq_mdlw::FromZmqChannel<std::string>::registerToTopic<unit::Event>(const std::string &, kpsr::Publisher<unit::Event> *);
template void kpsr::zmq_mdlw::FromZmqChannel<std::vector<unsigned char>>::registerToTopic<unit::Event>(const std::string &, kpsr::Publisher<unit::Event> *);
template std::unique_ptr<kpsr::zmq_mdlw::FromZmqChannel< ::Base>> kpsr::zmq_mdlw::FromZmqMiddlewareProvider::getBinaryFromMiddlewareChannel<unit::Event>(zmq::socket_t &, long);
template std::unique_ptr<kpsr::zmq_mdlw::FromZmqChannel<std::string>> kpsr::zmq_mdlw::FromZmqMiddlewareProvider::getJsonFromMiddlewareChannel<unit::Event>(zmq::socket_t &, long);
template std::unique_ptr<kpsr::zmq_mdlw::FromZmqChannel<std::vector<unsigned char>>> kpsr::zmq_mdlw::FromZmqMiddlewareProvider::getVoidCasterFromMiddlewareChannel<unit::Event>(zmq::socket_t &, long);
template kpsr::Publisher<unit::Event> *kpsr::zmq_mdlw::ToZMQMiddlewareProvider::getBinaryToMiddlewareChannel<unit::Event>(const std::string &, int);
template kpsr::Publisher<unit::Event> *kpsr::zmq_mdlw::ToZMQMiddlewareProvider::getJsonToMiddlewareChannel<unit::Event>(const std::string &, int);
template kpsr::Publisher<unit::Event> *kpsr::zmq_mdlw::ToZMQMiddlewareProvider::getVoidCasterToMiddlewareChannel<unit::Event>(const std::string &, int);
