// Instantiates the configuration file, the converter and the property stores.
#include <cstdint>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>
#include <klepsydra/core/config_file.h>

namespace unit {
struct Value { Value(); Value(const Value &); Value &operator=(const Value &); ~Value(); };
std::istream &operator>>(std::istream &, Value &);
std::ostream &operator<<(std::ostream &, const Value &);
int i(const kpsr::ConfigFile &f, const std::string &k, const int &d) { return f.getValueOfKey<int>(k, d); }
double d(const kpsr::ConfigFile &f, const std::string &k, const double &d) { return f.getValueOfKey<double>(k, d); }
bool b(const kpsr::ConfigFile &f, const std::string &k, const bool &d) { return f.getValueOfKey<bool>(k, d); }
std::string s(const kpsr::ConfigFile &f, const std::string &k, const std::string &d) { return f.getValueOfKey<std::string>(k, d); }
Value v(const kpsr::ConfigFile &f, const std::string &k, const Value &d) { return f.getValueOfKey<Value>(k, d); }
kpsr::ConfigFile *make(const std::string &n) { return new kpsr::ConfigFile(n); }
kpsr::ConfigFile *make(std::istream &n) { return new kpsr::ConfigFile(n); }
bool has(const kpsr::ConfigFile &f, const std::string &k) { return f.keyExists(k); }
}
