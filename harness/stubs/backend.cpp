#include "backend.h"
namespace backend
{
State & state()
{
  static State s;
  return s;
}
void reset() { state() = State(); }
} // namespace backend
