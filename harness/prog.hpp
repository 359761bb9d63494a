// Helpers of the workloads that run programs.
#pragma once
#include <sys/stat.h>
#include "runner.hpp"
#include "multi.hpp"
#include "units.hpp"
using namespace vh;

static std::string env(const char* n, const char* d = "") { const char* v = getenv(n); return v ? v : d; }

// runs a program; returns wait status, captures stdout+stderr
static int spawn(const std::vector<std::string>& a, const std::string& cwd, std::string& out, int cpu = 60) {
  std::string f = g_tmp + "/spawn.out"; fflush(0);
  pid_t p = fork();
  if (p == 0) {
    int o = open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(o, 1); dup2(o, 2);
    struct rlimit rl = {rlim_t(cpu), rlim_t(cpu + 5)}; setrlimit(RLIMIT_CPU, &rl);
    if (chdir(cwd.c_str())) _exit(126);
    std::vector<char*> v; for (auto& s : a) v.push_back(const_cast<char*>(s.c_str())); v.push_back(nullptr);
    execvp(v[0], v.data()); _exit(127);
  }
  int st = 0; waitpid(p, &st, 0); out = slurp(f); return st;
}

static Snap snap_of_txt(const TxtFile& t) {
  Snap s; auto& S = const_cast<TxtFile&>(t).sec;
  for (auto& v : S["VERTICES"]) s.V.push_back({v[0], v[1]});
  for (auto& q : S["QUADS"]) { SElem e; for (int i = 0; i < 4; ++i) e.v.push_back(int(q[i])); e.color = int(q[4]); s.E.push_back(e); } s.nq = s.E.size();
  for (auto& q : S["TRIANGLES"]) { SElem e; for (int i = 0; i < 3; ++i) e.v.push_back(int(q[i])); e.color = int(q[3]); s.E.push_back(e); } s.nt = s.E.size() - s.nq;
  return s;
}
