#pragma once
#include <csignal>
#include <unistd.h>

#include "async_comm/comm.h"
namespace async_comm
{
class Serial : public Comm
{
 public:
    Serial(std::string port, unsigned int baud_rate);
    ~Serial() override;
    bool set_baud_rate(unsigned int baud_rate);
};
}  // namespace async_comm
