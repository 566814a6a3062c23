// Instantiates what is written to and read from text archives, and the plain event records.
#include <map>
#include <memory>
#include <string>
#include <sys/types.h>
#include <vector>
#include <klepsydra/core/configuration_properties.h>
#include <klepsydra/core/sensor.h>
#include <klepsydra/mem_core/basic_event_data.h>
#include <klepsydra/zmq_core/zmq_environment_data.h>

namespace unit {
struct Event { Event(); Event(const Event &); Event &operator=(const Event &); ~Event(); };
using Out = cereal::JSONOutputArchive;
using In = cereal::JSONInputArchive;
void save(Out &a, const std::map<std::string, std::string> &m) { cereal::save(a, m); }
void load(In &a, std::map<std::string, std::string> &m) { cereal::load(a, m); }
void save(Out &a, const std::map<std::string, kpsr::Property<std::string>> &m) { cereal::save(a, m); }
void load(In &a, std::map<std::string, kpsr::Property<std::string>> &m) { cereal::load(a, m); }
void pack(Out &a, kpsr::Property<std::string> &p) { p.serialize(a); }
void unpack(In &a, kpsr::Property<std::string> &p) { p.serialize(a); }
void pack(Out &a, kpsr::zmq_mdlw::ZMQEnvironmentData &p) { cereal::serialize(a, p); }
void unpack(In &a, kpsr::zmq_mdlw::ZMQEnvironmentData &p) { cereal::serialize(a, p); }
void pack(Out &a, kpsr::ConfigurationProperties<std::string> &p) { p.serialize(a); }
void pack(Out &a, kpsr::DynamicConfigurationProperties &p) { p.serialize(a); }
kpsr::Sensor *make() { return new kpsr::Sensor; }
kpsr::Sensor *make(const std::string &f, int s) { return new kpsr::Sensor(f, s); }
kpsr::Sensor *make(const std::string &f, int s, long t) { return new kpsr::Sensor(f, s, t); }
kpsr::Sensor *make(const kpsr::Sensor &o) { return new kpsr::Sensor(o); }
void assign(kpsr::Sensor &a, const kpsr::Sensor &o) { a = o; }
void clone(kpsr::Sensor &a, const kpsr::Sensor &o) { a.clone(o); }
kpsr::mem::EventData<Event> *data() { return new kpsr::mem::EventData<Event>(); }
kpsr::mem::EventData<Event> *data(const kpsr::mem::EventData<Event> &o) { return new kpsr::mem::EventData<Event>(o); }
void assign(kpsr::mem::EventData<Event> &a, const kpsr::mem::EventData<Event> &o) { a = o; }
kpsr::zmq_mdlw::ZMQEnvironmentData *env() { return new kpsr::zmq_mdlw::ZMQEnvironmentData; }
kpsr::zmq_mdlw::ZMQEnvironmentData *env(const std::string &k, const std::string &d, long s) { return new kpsr::zmq_mdlw::ZMQEnvironmentData(k, d, s); }
kpsr::zmq_mdlw::ZMQEnvironmentData *env(const kpsr::zmq_mdlw::ZMQEnvironmentData &o) { return new kpsr::zmq_mdlw::ZMQEnvironmentData(o); }
}
