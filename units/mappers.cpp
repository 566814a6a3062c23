// Instantiates the mappers for event types of several shapes; the user's own copying and serialisation stay opaque.
#include <cstddef>
#include <memory>
#include <string>
#include <vector>
#if defined(BYTES)
#include <klepsydra/serialization/void_caster_mapper.h>
#elif defined(IDENTITY)
#include <klepsydra/serialization/identity_mapper.h>
#else
#include <klepsydra/serialization/binary_cereal_mapper.h>
#include <klepsydra/serialization/json_cereal_mapper.h>
#endif

namespace unit {
struct Pod { int id; float f; double d; char tail; };
struct Byte { unsigned char b; };
template<int N> struct Bytes { unsigned char b[N]; };
struct Rich {
    Rich();
    Rich(const Rich &);
    Rich &operator=(const Rich &);
    ~Rich();
    template<class Archive> void serialize(Archive &ar);
    std::string name;
    std::vector<int> values;
};
}
#if defined(BYTES)
template class kpsr::Mapper<unit::Pod, std::vector<unsigned char>>;
template class kpsr::Mapper<unit::Byte, std::vector<unsigned char>>;
template class kpsr::Mapper<double, std::vector<unsigned char>>;
template class kpsr::Mapper<unit::Bytes<2>, std::vector<unsigned char>>;
template class kpsr::Mapper<unit::Bytes<3>, std::vector<unsigned char>>;
template class kpsr::Mapper<unit::Bytes<4>, std::vector<unsigned char>>;
template class kpsr::Mapper<unit::Bytes<5>, std::vector<unsigned char>>;
template class kpsr::Mapper<unit::Bytes<6>, std::vector<unsigned char>>;
template class kpsr::Mapper<unit::Bytes<7>, std::vector<unsigned char>>;
template class kpsr::Mapper<unit::Bytes<9>, std::vector<unsigned char>>;
template class kpsr::Mapper<unit::Bytes<12>, std::vector<unsigned char>>;
template class kpsr::Mapper<unit::Bytes<15>, std::vector<unsigned char>>;
template class kpsr::Mapper<unit::Bytes<16>, std::vector<unsigned char>>;
template class kpsr::Mapper<unit::Bytes<17>, std::vector<unsigned char>>;
template class kpsr::Mapper<unit::Bytes<31>, std::vector<unsigned char>>;
template class kpsr::Mapper<unit::Bytes<32>, std::vector<unsigned char>>;
template class kpsr::Mapper<unit::Bytes<33>, std::vector<unsigned char>>;
template class kpsr::Mapper<unit::Bytes<63>, std::vector<unsigned char>>;
template class kpsr::Mapper<unit::Bytes<64>, std::vector<unsigned char>>;
template class kpsr::Mapper<unit::Bytes<65>, std::vector<unsigned char>>;
template class kpsr::Mapper<unit::Bytes<127>, std::vector<unsigned char>>;
template class kpsr::Mapper<unit::Bytes<128>, std::vector<unsigned char>>;
template class kpsr::Mapper<unit::Bytes<129>, std::vector<unsigned char>>;
template class kpsr::Mapper<unit::Bytes<255>, std::vector<unsigned char>>;
template class kpsr::Mapper<unit::Bytes<256>, std::vector<unsigned char>>;
template class kpsr::Mapper<unit::Bytes<257>, std::vector<unsigned char>>;
template class kpsr::Mapper<unit::Bytes<1000>, std::vector<unsigned char>>;
template class kpsr::Mapper<unit::Bytes<4096>, std::vector<unsigned char>>;
template class kpsr::Mapper<unit::Bytes<4097>, std::vector<unsigned char>>;
template class kpsr::Mapper<unit::Bytes<65535>, std::vector<unsigned char>>;
template class kpsr::Mapper<unit::Bytes<65536>, std::vector<unsigned char>>;
template class kpsr::Mapper<unit::Bytes<65537>, std::vector<unsigned char>>;
#elif defined(IDENTITY)
template class kpsr::Mapper<unit::Rich, unit::Rich>;
template class kpsr::Mapper<unit::Pod, unit::Pod>;
#else
template class kpsr::Mapper<unit::Rich, std::basic_streambuf<char> *>;
template class kpsr::Mapper<unit::Rich, std::string>;
#endif
