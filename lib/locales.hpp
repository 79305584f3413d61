// A program that has chosen its own locale: while one of these lives, the global C++ locale writes numbers and truth
// values in another way.
#pragma once
#include <locale>
#include <string>
struct OtherLocale {
  struct Punct : std::numpunct<char> {
    char do_decimal_point() const override { return ','; }
    char do_thousands_sep() const override { return '.'; }
    std::string do_grouping() const override { return "\3"; }
    std::string do_truename() const override { return "wahr"; }
    std::string do_falsename() const override { return "falsch"; }
  };
  std::locale old;
  explicit OtherLocale(bool other) { old = std::locale::global(other ? std::locale(std::locale::classic(), new Punct) : std::locale::classic()); }
  ~OtherLocale() { std::locale::global(old); }
};
