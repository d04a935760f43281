#pragma once
#include "seasocks/Logger.h"
namespace seasocks
{
class PrintfLogger : public Logger
{
public:
  explicit PrintfLogger(Level = Level::Debug)
  {
  }
  void log(Level, const char*) override
  {
  }
};
}  // namespace seasocks
