// Crash points and failing file operations. The C library's file calls are
// replaced in the checking binary; every call that changes a file under the
// watched directory is announced before it takes effect (and can be made to
// fail). What the disk holds at that moment is what a process killed there
// leaves behind. For mapped files a second image is kept: the pages known to be
// on disk (msync), so that a power cut can be explored too: any subset of the
// pages written since may or may not have arrived.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <vector>
namespace crashfs {
typedef std::map<std::string, std::string> Image;       // path relative to the directory -> contents
struct Point { std::string op; Image image; };
void watch(const std::string &dir, std::function<void(const char *op, const std::string &path)> before);   // "" stops
void failAt(long n, int err);                            // the n-th announced call (from 0) fails; <0 never
long calls();                                            // announced since watch()
Image snapshot(const std::string &dir); void restore(const Image &, const std::string &dir);
// every image a kill (power=false) or also a power cut (power=true) can leave while f runs
std::vector<Point> explore(const std::string &dir, bool power, const std::function<void()> &f);
}
