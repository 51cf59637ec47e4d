// A connection whose reads and writes the explorer decides.  Replaces
// Platform/Linux/System/TcpConnection.cpp and TcpListener.cpp at link time;
// everything above it is the real code.
#pragma once
#include <cstdint>
#include <deque>
#include <string>
#include <vector>
namespace sock {
struct Script {
  std::string in; std::vector<size_t> cuts;   // incoming bytes and the positions at which a read call must end
  size_t pos = 0; bool eof = true;            // after the last byte: end of stream (else: the read throws)
  std::string out; std::vector<size_t> takes; size_t nw = 0;   // k-th write transfers min(size, takes[k]) bytes (all when exhausted)
  size_t failAfter = ~(size_t)0;              // a write beyond this many bytes throws
};
extern std::vector<Script *> scripts;         // connection number -> script
extern std::deque<int> toAccept;              // connections the listener hands out; then it is interrupted
}
