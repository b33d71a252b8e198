// Shared by the harnesses that link the repository's sources.
#pragma once
#include <libstuff/libstuff.h>
#include "../lib/mc.h"
#include "../lib/rt.h"
#include <map>
#include <set>
#include <thread>
#include <memory>
static void quietLogs() { _g_SLogMask = getenv("VERIF_LOG") ? 0xff : 0; if (rt::active()) rt::ignoreAtomic(&_g_SLogMask); }
