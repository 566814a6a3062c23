// Instantiates the property stores; the values' own copying stays opaque.
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <klepsydra/core/configuration_properties.h>

namespace unit {
struct Value { Value(); Value(const Value &); Value &operator=(const Value &); ~Value(); };
bool dget(const kpsr::DynamicConfigurationProperties &p, const std::string &n, Value &v) { return p.getProperty(n, v); }
bool dset(kpsr::DynamicConfigurationProperties &p, const std::string &n, const Value &v) { return p.setProperty(n, v); }
bool dget(const kpsr::DynamicConfigurationProperties &p, const std::string &n, int &v) { return p.getProperty(n, v); }
bool dset(kpsr::DynamicConfigurationProperties &p, const std::string &n, const int &v) { return p.setProperty(n, v); }
void dcopy(kpsr::DynamicConfigurationProperties &p, const kpsr::DynamicConfigurationProperties &o, const std::string &n) { p.copyFrom(o, n); }
bool get(const kpsr::ConfigurationProperties<Value> &p, const std::string &n, Value &v) { return p.getProperty(n, v); }
bool set(kpsr::ConfigurationProperties<Value> &p, const std::string &n, const Value &v) { return p.setProperty(n, v); }
bool copy(kpsr::ConfigurationProperties<Value> &p, const kpsr::ConfigurationProperties<Value> &o, const std::string &n) { return p.copyFrom(o, n); }
bool get(const kpsr::ConfigurationProperties<int> &p, const std::string &n, int &v) { return p.getProperty(n, v); }
bool set(kpsr::ConfigurationProperties<int> &p, const std::string &n, const int &v) { return p.setProperty(n, v); }
std::string key(const std::string &k, const std::string &r) { return kpsr::getFullKey(k, r); }
bool same(kpsr::TypedProperty &p, const Value &v) { return p.isSameType(v); }
}
