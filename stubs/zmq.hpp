// Declarations of the part of cppzmq 4.3 that the middleware uses: nothing is
// defined, so every operation on a socket or message stays a visible call.
#ifndef KPSR_VERIF_STUB_ZMQ_HPP
#define KPSR_VERIF_STUB_ZMQ_HPP
#include <cstddef>
#include <string>
#define ZMQ_POLLIN 1
#define ZMQ_PUB 1
#define ZMQ_SUB 2
#define ZMQ_SUBSCRIBE 6
namespace zmq {
class context_t
{
public:
    explicit context_t(int io_threads = 1);
    ~context_t();
private:
    void *ptr;
};
class const_buffer
{
public:
    const_buffer(const void *data, std::size_t size) noexcept;
    const void *data() const noexcept;
    std::size_t size() const noexcept;
private:
    const void *_data;
    std::size_t _size;
};
enum class send_flags : int { none = 0, dontwait = 1, sndmore = 2 };
enum class recv_flags : int { none = 0, dontwait = 1 };
struct send_result_t { bool has; std::size_t n; };
struct recv_result_t { bool has; std::size_t n; };
class message_t
{
public:
    message_t() noexcept;
    explicit message_t(std::size_t size);
    message_t(const void *data, std::size_t size);
    template<class ForwardIter>
    message_t(ForwardIter first, ForwardIter last);
    message_t(message_t &&rhs) noexcept;
    ~message_t() noexcept;
    void *data() noexcept;
    const void *data() const noexcept;
    std::size_t size() const noexcept;
    template<typename T>
    T *data() noexcept { return static_cast<T *>(data()); }
    std::string to_string() const;
    bool more() const noexcept;
private:
    unsigned char msg[64];
};
class socket_t
{
public:
    socket_t(context_t &context, int type);
    ~socket_t() noexcept;
    bool send(message_t &msg, int flags = 0);
    send_result_t send(message_t &msg, send_flags flags);
    send_result_t send(message_t &&msg, send_flags flags = send_flags::none);
    send_result_t send(const_buffer buf, send_flags flags = send_flags::none);
    recv_result_t recv(message_t &msg, recv_flags flags = recv_flags::none);
    operator void *() noexcept;
private:
    void *ptr;
    void *ctx;
};
struct pollitem_t
{
    void *socket;
    int fd;
    short events;
    short revents;
};
int poll(pollitem_t *items, std::size_t nitems, long timeout = -1);
} // namespace zmq
#endif
