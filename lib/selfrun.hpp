// Other runs of the program: the harness starts itself anew with an environment variable, and a static object answers.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <string>
#include <vector>
#include <unistd.h>
/// a static one of these prints lines in the new run and ends it
struct OtherRun {
  OtherRun(const char* variable, const std::function<void(const char*)>& job) {
    const char* v = std::getenv(variable);
    if (!v) return;
    job(v);
    std::fflush(stdout);
    _exit(0);
  }
  /// the lines printed by a new run; false when it cannot be started
  static bool lines(const std::string& variable, const std::string& value, std::vector<std::string>& out) {
    char self[4096];
    const ssize_t len = readlink("/proc/self/exe", self, sizeof(self) - 1);
    if (len <= 0) return false;
    self[len] = 0;
    FILE* f = popen((variable + "='" + value + "' exec '" + self + "'").c_str(), "r");
    if (!f) return false;
    char line[256];
    while (std::fgets(line, sizeof line, f)) { out.push_back(line); if (!out.back().empty() && out.back().back() == '\n') out.back().pop_back(); }
    return pclose(f) == 0;
  }
};
