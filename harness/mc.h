// Exhaustive explorer.  A Space is a tree of operation sequences; every
// sequence up to the stated depth is executed FROM SCRATCH on the real code in
// a forked worker and judged by the space's own oracle.  State matching (on the
// canonical key a space returns) starts after `full` operations.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
namespace mc {
typedef std::vector<uint16_t> Seq;

struct Step {
  bool bad = false;
  std::string msg;            // what is wrong (when bad)
  std::string key;            // canonical state after the sequence
  std::vector<uint16_t> next; // operations enabled in that state
  std::string klass;          // observed outcome class (for vacuity statistics)
  uint64_t work = 1;          // number of judged comparisons/transitions inside
  static Step fail(const std::string &m) { Step s; s.bad = true; s.msg = m; return s; }
};

struct Space {
  std::string name;
  std::function<Step(const Seq &)> run;
  std::function<std::string(const Seq &)> show;
  int depth = 4;
  int full = 0;         // no state matching for sequences up to this length
  double hang_s = 40;   // one execution longer than this (twice) is a hang
  bool crash_is_violation = true;
};

class Session {
public:
  Session(int argc, char **argv);
  // returns false when an unlisted violation was found (exploration stops)
  bool explore(const Space &sp);
  // exhaustively evaluates f on 0..n-1; f returns "" or what is wrong
  bool enumerate(const std::string &name, uint64_t n, std::function<std::string(uint64_t)> f,
                 std::function<std::string(uint64_t)> show, uint64_t chunk = 64, double hang_s = 60);
  int finish();
  const std::string &property() const { return prop; }
  bool thorough() const { return tier == "thorough"; }
  bool wants(const std::string &space) const;   // respects --only and --replay
  bool stopped() const { return violated; }
  std::vector<std::string> assumptions;
  std::map<std::string, std::string> notes;
  std::string scratch();                        // private scratch directory of this process
  double budget_s;                              // soft time cap for the whole run
private:
  std::string prop, tier, evidence, replayOut, known, only, replayFile, replaySpace;
  Seq replaySeq; uint64_t replayIdx = 0; bool replaying = false, violated = false, capped = false;
  uint64_t states = 0, transitions = 0, traces = 0, comparisons = 0, unreproduced = 0, enumerated = 0;
  std::map<std::string, uint64_t> classes;
  std::vector<std::string> samples, spaceLines;
  std::set<std::string> knownHit;
  int workers; double t0;
  std::string knownAs(const std::string &space, const std::string &seqText, const std::string &msg) const;
  bool report(const std::string &space, const std::string &shown, const std::string &seqText, const std::string &msg);
  friend struct Impl;
};
std::string hash128(const std::string &s);
}
