#pragma once
#include <functional>
namespace mc {
struct Options;
extern void (*runConcurrentHook)(const std::function<void()>&, const Options&);
const Options& currentOptions();
int currentBound();
}
