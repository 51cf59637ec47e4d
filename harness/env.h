#pragma once
#include <cstdint>
namespace env { extern uint64_t now, rnd; extern bool dnsOk; }
