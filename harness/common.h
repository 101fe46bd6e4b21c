// Shared driver utilities. No oracle here: drivers execute API calls and log
// what the library returned as ndjson.
#pragma once
#ifdef VF_COV
extern "C" void __gcov_dump(void);
#endif
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <cmath>
#include <cstdio>
#include <fstream>
#include <functional>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

namespace vf {
using ll = long long;
// Sentinels for values which cannot be logged as lattice integers
constexpr ll kNaN = 2000000001LL, kBig = 2000000002LL, kOff = 2000000003LL;

/// exact lattice value: x*s must be an integer (up to rounding errors)
inline ll Z(double x, double s) {
  if (!std::isfinite(x)) return kNaN;
  const double v = x * s;
  if (std::fabs(v) > 1.9e9) return kBig;
  const double r = std::round(v);
  if (std::fabs(v - r) > 1e-6 * std::max(1.0, std::min(s, 100.0))) return kOff;
  return (ll)r;
}
/// rounded value
inline ll R(double x, double s) {
  if (!std::isfinite(x)) return kNaN;
  const double v = x * s;
  if (std::fabs(v) > 1.9e9) return kBig;
  return (ll)std::llround(v);
}

struct J {  // tiny JSON object writer
  std::string b = "{";
  J& key(const char* k) {
    if (b.size() > 1) b += ",";
    b += "\"";
    b += k;
    b += "\":";
    return *this;
  }
  static std::string esc(const std::string& s) {
    std::string o = "\"";
    for (char c : s) {
      if (c == '"' || c == '\\') {
        o += '\\';
        o += c;
      } else if ((unsigned char)c < 32) {
        o += "?";
      } else {
        o += c;
      }
    }
    return o + "\"";
  }
  J& s(const char* k, const std::string& v) { key(k).b += esc(v); return *this; }
  J& i(const char* k, ll v) { key(k).b += std::to_string(v); return *this; }
  J& t(const char* k, bool v) { key(k).b += v ? "true" : "false"; return *this; }
  J& raw(const char* k, const std::string& v) { key(k).b += v; return *this; }
  template <class V>
  J& v(const char* k, const V& x) { key(k).b += arr(x); return *this; }
  template <class V>
  static std::string arr(const V& x) {
    std::string o = "[";
    bool f = true;
    for (const auto& e : x) {
      if (!f) o += ",";
      f = false;
      o += one(e);
    }
    return o + "]";
  }
  static std::string one(bool e) { return e ? "true" : "false"; }
  template <class T>
  static std::string one(const T& e) {
    if constexpr (std::is_same_v<T, std::string>) return esc(e);
    else if constexpr (std::is_same_v<T, J>) return e.str();
    else if constexpr (std::is_integral_v<T>) return std::to_string((ll)e);
    else return arr(e);
  }
  std::string str() const { return b + "}"; }
};

inline FILE*& out() { static FILE* f = stdout; return f; }
inline void emit(const J& j) {
  std::string s = j.str() + "\n";
  fwrite(s.data(), 1, s.size(), out());
  fflush(out());
}

/// Run fn in a forked child. If it dies (assertion, signal) or hangs an event
/// {"e":"abort"} is logged. Returns true if it ended normally.
inline bool isolated(const std::function<void()>& fn, int timeout_s = 60, bool log = true) {
  fflush(out());
  pid_t p = fork();
  if (p == 0) {
    int dn = open("/dev/null", O_WRONLY);
    if (!getenv("VF_STDERR")) dup2(dn, 2);
    alarm(timeout_s);
    int code = 0;
    try {
      fn();
    } catch (const std::exception& e) {
      if (getenv("VF_STDERR")) std::cerr << e.what() << "\n";
      code = 77;
    } catch (...) {
      code = 78;
    }
    fflush(out());
#ifdef VF_COV
    __gcov_dump();  // development only: coverage of the library by the checks
#endif
    _exit(code);
  }
  int st = 0;
  waitpid(p, &st, 0);
  const bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
  if (!ok && log) {
    emit(J().s("e", "abort").i("sig", WIFSIGNALED(st) ? WTERMSIG(st) : 0)
            .i("code", WIFEXITED(st) ? WEXITSTATUS(st) : -1));
  }
  return ok;
}

/// Reads scenarios: text between lines "scenario <name>" and "end".
struct Scenario {
  std::string name;
  std::vector<std::string> lines;
};
inline std::vector<Scenario> scenarios(const char* file) {
  std::ifstream f(file);
  std::vector<Scenario> r;
  std::string l;
  while (std::getline(f, l)) {
    if (l.rfind("scenario", 0) == 0) {
      r.push_back({l.size() > 9 ? l.substr(9) : "", {}});
    } else if (l == "end") {
    } else if (!l.empty() && !r.empty()) {
      r.back().lines.push_back(l);
    }
  }
  return r;
}
inline int drive(int argc, char** argv,
                 const std::function<void(const Scenario&)>& fn, int timeout_s = 60) {
  if (argc < 3) return 2;
  out() = fopen(argv[2], "w");
  if (!out()) return 2;
  for (const auto& s : scenarios(argv[1])) {
    emit(J().s("e", "reset").s("name", s.name));
    isolated([&] { fn(s); }, timeout_s);
  }
  fclose(out());
  return 0;
}
}  // namespace vf
