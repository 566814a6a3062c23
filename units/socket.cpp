// Instantiates the message reader of the socket middleware for analysis; the sources are appended.
#include <cerrno>
#include <klepsydra/socket_core/connect_socket.h>
#include <klepsydra/socket_core/protocol_simple.h>
#include <klepsydra/socket_core/server_socket.h>

struct KScan { void *p; bool operator()(std::size_t n); };
std::size_t kread(kpsr::socket_mdlw::DataSocket &s, char *buffer, std::size_t size, KScan f);
std::size_t kread(kpsr::socket_mdlw::DataSocket &s, char *buffer, std::size_t size, KScan f) { return s.getMessageData(buffer, size, f); }
