// Timers, nested regions, stop watches (spec/Timers.tla, P36): executes the
// operations, with the instants before and after every one of them.
#include <nimble_kokkos_defs.h>
#include <nimble_profiling_timer.h>
#include <nimble_timer.h>
#include <nimble_timing_utils.h>
#include <sys/stat.h>
#include <unistd.h>

#include <ctime>
#include <fstream>
#include <sstream>
#include <nimble.quanta.stopwatch.h>

#include "probe_common.h"

static double
instant()
{
  static const auto t0 = std::chrono::high_resolution_clock::now();
  return std::chrono::duration<double>(std::chrono::high_resolution_clock::now() - t0).count();
}

static void
wait(double s)
{
  const double t = instant();
  while (instant() - t < s) {}
}

// the records of runs (spec/TimingFile.tla), in a folder the check has made
static json
records(const json& item)
{
  if (chdir(item["dir"].get<std::string>().c_str())) throw std::runtime_error("no folder");
  json out = json::array();
  for (auto& o : item["ops"]) {
    const std::string  op = o["op"];
    std::ostringstream said;
    auto               old = std::cerr.rdbuf(said.rdbuf());
    if (op == "write") {
      const auto&              t = o["t"];
      const nimble::TimingInfo info(o["np"], o["stamp"], t[0].get<int>() / 8., t[1].get<int>() / 8., t[2].get<int>() / 8., t[3].get<int>() / 8., t[4].get<int>() / 8.);
      info.BinaryWrite();
    } else if (op == "file")
      std::ofstream(o["name"].get<std::string>()) << "something else that was here long before, and longer than a record of times is ever going to be\n";
    else
      mkdir(o["name"].get<std::string>().c_str(), 0700);
    std::cerr.rdbuf(old);
    out.push_back(!said.str().empty());
  }
  json j = json::object();
  j["said"] = out;
  return j;
}

static json
run(const json& item)
{
  if (item.contains("dir")) return records(item);
  instant();
  nimble::Timer             timer;
  nimble::ProfilingTimer    regions;
  nimble::quanta::stopwatch watch;
  json                      out = json::array();
  int                       k   = 0;
  for (auto& o : item["ops"]) {
    const std::string op = o["op"], name = o["name"];
    json              r;
    const double      before = instant();
    if (op == "wait")
      wait(2e-4 * (1 + k % 5));
    else if (op == "start")
      timer.Start(name);
    else if (op == "stop")
      timer.Stop(name);
    else if (op == "stop report")
      r["t"] = timer.StopReport(name);
    else if (op == "elapsed")
      r["t"] = timer.ElapsedTime(name);
    else if (op == "push")
      regions.push_region(name);
    else if (op == "pop")
      r["t"] = regions.pop_region_and_report_time();
    else if (op == "reset")
      watch.reset();
    else if (op == "age")
      r["t"] = name == "seconds" ? watch.age() : name == "milliseconds" ? watch.age_milli() * 1e-3 : name == "microseconds" ? watch.age_micro() * 1e-6 : watch.age_nano() * 1e-9;
    else if (op == "function") {
      int a  = 0;
      r["t"] = nimble::quanta::stopwatch::timefunction([&](int b) { wait(3e-4), a += b; }, 7);
      if (a != 7) throw std::runtime_error("the function timed is called another number of times than once");
    } else
      throw std::runtime_error("unknown operation " + op);
    r["before"] = before;
    r["after"]  = instant();
    out.push_back(r);
    ++k;
  }
  json j;
  j["ops"] = out;
  return j;
}

int
main(int argc, char** argv)
{
  Kokkos::ScopeGuard guard(argc, argv);
  return probe::run_items(probe::read_items(), run, 60);
}
