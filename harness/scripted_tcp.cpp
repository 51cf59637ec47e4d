#include "scripted_tcp.h"
#include <stdexcept>
#include <System/TcpConnection.h>
#include <System/TcpListener.h>
#include <System/InterruptedException.h>
#include <System/Ipv4Address.h>
namespace sock { std::vector<Script *> scripts; std::deque<int> toAccept; }
namespace platform_system {
TcpConnection::TcpConnection() : dispatcher(nullptr), connection(sock::scripts.empty() ? -1 : 0) {}
TcpConnection::TcpConnection(TcpConnection &&o) : dispatcher(o.dispatcher), connection(o.connection) {}
TcpConnection::~TcpConnection() {}
TcpConnection &TcpConnection::operator=(TcpConnection &&o) { dispatcher = o.dispatcher; connection = o.connection; return *this; }
TcpConnection::TcpConnection(Dispatcher &d, int s) : dispatcher(&d), connection(s) {}
std::size_t TcpConnection::read(uint8_t *p, std::size_t n) {
  sock::Script &s = *sock::scripts.at(connection);
  if (s.pos == s.in.size()) { if (!s.eof) throw std::runtime_error("connection reset"); return 0; }
  size_t end = s.in.size(); for (size_t c : s.cuts) if (c > s.pos && c < end) end = c;
  if (end - s.pos < n) n = end - s.pos;
  s.in.copy((char *)p, n, s.pos); s.pos += n; return n;
}
std::size_t TcpConnection::write(const uint8_t *p, std::size_t n) {
  sock::Script &s = *sock::scripts.at(connection);
  if (n && s.nw < s.takes.size()) { n = std::min(n, std::max<size_t>(1, s.takes[s.nw])); } ++s.nw;
  if (s.out.size() + n > s.failAfter) throw std::runtime_error("connection reset");
  s.out.append((const char *)p, n); return n;
}
std::pair<Ipv4Address, uint16_t> TcpConnection::getPeerAddressAndPort() const { return std::make_pair(Ipv4Address(0x0100007f), (uint16_t)1234); }
TcpListener::TcpListener() : dispatcher(nullptr), context(nullptr), listener(-1) {}
TcpListener::TcpListener(Dispatcher &d, const Ipv4Address &, uint16_t) : dispatcher(&d), context(nullptr), listener(0) {}
TcpListener::TcpListener(TcpListener &&o) : dispatcher(o.dispatcher), context(nullptr), listener(o.listener) {}
TcpListener::~TcpListener() {}
TcpListener &TcpListener::operator=(TcpListener &&o) { dispatcher = o.dispatcher; listener = o.listener; context = nullptr; return *this; }
// TcpConnection is a friend of TcpListener's, so the connection is made here
TcpConnection TcpListener::accept() { if (sock::toAccept.empty()) throw InterruptedException(); int c = sock::toAccept.front(); sock::toAccept.pop_front(); return TcpConnection(*dispatcher, c); }
}
