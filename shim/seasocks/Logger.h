// Stand-in for the parts of seasocks (https://github.com/mattgodbolt/seasocks) that scalopus_catapult uses; the
// submodule is not available here. See Server.h.
#pragma once
namespace seasocks
{
class Logger
{
public:
  enum class Level
  {
    Debug,
    Access,
    Info,
    Warning,
    Error,
    Severe,
  };
  virtual ~Logger() = default;
  virtual void log(Level level, const char* message) = 0;
};
}  // namespace seasocks
