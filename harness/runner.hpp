// Case runner: PROGRAM PROFILE SEED FROM TO [--nofork]; one forked child per case.
#pragma once
#include "core.hpp"
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <fcntl.h>
#include <signal.h>

namespace vh {
inline uint64_t name_hash(const std::string& s) { uint64_t h = 1469598103934665603ULL; for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL; return h; }
typedef bool (*CaseFn)(const std::string& prof, Rng& g, Report& R);

inline int run_main(int argc, char** argv, CaseFn fn, std::string& tmp) {
  if (argc < 5) { fprintf(stderr, "usage: %s PROFILE SEED FROM TO [--nofork]\n", argv[0]); return 2; }
  std::string prof = argv[1]; uint64_t seed = strtoull(argv[2], 0, 10); long from = atol(argv[3]), to_ = atol(argv[4]);
  bool nofork = argc > 5 && std::string(argv[5]) == "--nofork";
  int cpu = getenv("TQH_CPU") ? atoi(getenv("TQH_CPU")) : 60;
  char tmpl[] = "/tmp/tqh.XXXXXX";
  if (getenv("TQH_TMP")) tmp = getenv("TQH_TMP"); else tmp = mkdtemp(tmpl);
  std::string base = tmp;
  int out = dup(1);
  if (!getenv("TQH_KEEPOUT")) { int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); }
  int rc = 0;
  for (long k = from; k < to_; ++k) {
    Report R; R.fd = out;
    Rng g(mix(seed * 1000003ULL + name_hash(prof) % 1000003ULL, k));
    R.line(fmt("CASE\t%ld", k));
    if (nofork) { fn(prof, g, R); R.finish(); R.line(fmt("DONE\t%ld", k)); R.line(fmt("END\t%ld\trc0", k)); continue; }
    fflush(0);
    pid_t pid = fork();
    if (pid < 0) { fprintf(stderr, "fork failed\n"); return 3; }
    if (pid == 0) {
      struct rlimit rl = {rlim_t(cpu), rlim_t(cpu + 5)}; setrlimit(RLIMIT_CPU, &rl);
      struct rlimit nc = {0, 0}; setrlimit(RLIMIT_CORE, &nc);
#if !defined(__SANITIZE_ADDRESS__)
      if (!getenv("TQH_NOAS")) { struct rlimit as = {rlim_t(3) << 30, rlim_t(3) << 30}; setrlimit(RLIMIT_AS, &as); }
#endif
      if (!getenv("TQH_KEEPERR")) { int e = open((base + "/err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(e, 2); }
      bool known = true;
      try { known = fn(prof, g, R); }
      catch (const std::exception& e) { R.line(std::string("EXC\t") + Report::clean(e.what())); }
      catch (const char* e) { R.line(std::string("EXC\t") + Report::clean(e)); }
      catch (...) { R.line("EXC\tunknown exception"); }
      R.finish(); if (known) R.line(fmt("DONE\t%ld", k));
      _exit(known ? 0 : 9);
    }
    int st = 0; waitpid(pid, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 9) { fprintf(stderr, "unknown profile %s\n", prof.c_str()); return 3; }
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) && !getenv("TQH_KEEPERR")) {
      FILE* f = fopen((base + "/err").c_str(), "r"); char buf[600]; int n = 0;
      if (f) { while (n < 40 && fgets(buf, sizeof buf, f)) { R.line("ERR\t" + Report::clean(buf)); ++n; } fclose(f); }
    }
    if (WIFSIGNALED(st)) R.line(fmt("END\t%ld\tsig%d", k, WTERMSIG(st)));
    else R.line(fmt("END\t%ld\trc%d", k, WEXITSTATUS(st)));
  }
  if (!getenv("TQH_TMP")) { std::string c = "rm -rf " + base; if (base.rfind("/tmp/tqh.", 0) == 0 && system(c.c_str())) {} }
  return rc;
}
} // namespace vh
