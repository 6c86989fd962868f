// Declarations of the async_comm library that /repo uses (the library is not available offline).
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
namespace async_comm
{
class CommListener
{
 public:
    virtual void receive_callback(const uint8_t* buf, size_t len) = 0;
};
class Comm
{
 public:
    virtual ~Comm();
    bool init();
    void close();
    void send_bytes(const uint8_t* src, size_t len);
    void send_byte(uint8_t data);
    void register_receive_callback(std::function<void(const uint8_t*, size_t)> fun);
    void register_listener(CommListener& listener);
};
}  // namespace async_comm
