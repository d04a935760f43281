#pragma once
#include "seasocks/Logger.h"
namespace seasocks
{
class IgnoringLogger : public Logger
{
public:
  void log(Level, const char*) override
  {
  }
};
}  // namespace seasocks
