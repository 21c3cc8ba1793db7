// Shared by the probes: one JSON item per input line, one "@@{json}" line per
// result.  Items are processed in a forked worker, so that an item that
// crashes or hangs is reported ("died") and the rest still run.
#pragma once
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <nlohmann/json.hpp>
#include <string>
#include <vector>

using json = nlohmann::json;

namespace probe {

inline void
emit(const json& j)
{
  std::string s = "\n@@" + j.dump(-1, ' ', false, json::error_handler_t::replace) + "\n";
  size_t      o = 0;
  while (o < s.size()) {
    ssize_t n = ::write(1, s.data() + o, s.size() - o);
    if (n <= 0) _exit(98);
    o += n;
  }
}

inline std::vector<json>
read_items(std::istream& in = std::cin)
{
  std::vector<json> v;
  std::string       line;
  while (std::getline(in, line))
    if (!line.empty()) v.push_back(json::parse(line));
  return v;
}

// f must return the result object; "i" is added to it.
inline int
run_items(const std::vector<json>& items, std::function<json(const json&)> f, unsigned limit_s = 5)
{
  size_t next = 0;
  int    pfd[2];
  if (getenv("NSM_SLOW")) limit_s *= atoi(getenv("NSM_SLOW"));
  while (next < items.size()) {
    if (pipe(pfd)) return 97;
    std::fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      close(pfd[0]);
      for (size_t i = next; i < items.size(); ++i) {
        alarm(limit_s);
        json r;
        try {
          r = f(items[i]);
        } catch (const std::exception& e) {
          r["exception"] = std::string(e.what());
        } catch (...) {
          r["exception"] = "unknown";
        }
        alarm(0);
        r["i"] = i;
        emit(r);
        uint32_t done = i + 1;
        if (::write(pfd[1], &done, 4) != 4) _exit(98);
      }
      _exit(0);
    }
    close(pfd[1]);
    uint32_t d;
    while (::read(pfd[0], &d, 4) == 4) next = d;
    close(pfd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && next >= items.size()) break;
    if (next < items.size()) {
      json r;
      r["i"]    = next;
      r["died"] = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? std::string("timeout")
                                                             : "signal " + std::to_string(WTERMSIG(st)))
                                  : "exit " + std::to_string(WEXITSTATUS(st));
      emit(r);
      ++next;
    }
  }
  return 0;
}
}  // namespace probe
