// A disk that runs full: while one of these lives, no file can grow beyond the given number of bytes.
#pragma once
#include <csignal>
#include <sys/resource.h>
struct FileLimit {
  rlimit old;
  void (*handler)(int);
  explicit FileLimit(size_t bytes) {
    handler = std::signal(SIGXFSZ, SIG_IGN);
    getrlimit(RLIMIT_FSIZE, &old);
    rlimit l = old;
    l.rlim_cur = bytes;
    setrlimit(RLIMIT_FSIZE, &l);
  }
  ~FileLimit() { setrlimit(RLIMIT_FSIZE, &old); std::signal(SIGXFSZ, handler); }
};
