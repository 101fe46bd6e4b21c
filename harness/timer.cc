// Driver for P32: timers on a virtual clock. All sources of time the library
// could use are replaced by a clock which the script advances.
//   new <i> <start>   start <i>   stop <i>   resume <i>   copy <i> <j> (i := j)
//   adv <wall ms> <user ticks> <system ticks>   (a tick is 10 ms)
//   q <i>             elapsed, stopped?, formatted
//   auto <kind>       new AutoTimer (0 stream, 1 logger); aq; report; del
#include <lf/base/base.h>
#include <spdlog/spdlog.h>
#include <spdlog/sinks/ostream_sink.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/times.h>
#include <time.h>
#include <chrono>
#include "common.h"
using namespace vf;

static long long wall_ns = 1700000000LL * 1000000000LL;
static long long ut = 300, st = 100;  // ticks used by the process so far

std::chrono::system_clock::time_point std::chrono::_V2::system_clock::now() noexcept {
  return time_point(std::chrono::nanoseconds(wall_ns));
}
std::chrono::steady_clock::time_point std::chrono::_V2::steady_clock::now() noexcept {
  return time_point(std::chrono::nanoseconds(wall_ns));
}
extern "C" {
clock_t times(struct tms* b) noexcept {
  if (b) { b->tms_utime = ut; b->tms_stime = st; b->tms_cutime = 0; b->tms_cstime = 0; }
  return wall_ns / 10000000;
}
int getrusage(__rusage_who_t who, struct rusage* r) noexcept {
  *r = rusage{};
  if (who != RUSAGE_CHILDREN) {
    r->ru_utime.tv_sec = ut / 100; r->ru_utime.tv_usec = (ut % 100) * 10000;
    r->ru_stime.tv_sec = st / 100; r->ru_stime.tv_usec = (st % 100) * 10000;
  }
  return 0;
}
int clock_gettime(clockid_t c, struct timespec* t) noexcept {
  long long n = wall_ns;
  if (c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID) n = (ut + st) * 10000000LL;
  t->tv_sec = n / 1000000000LL; t->tv_nsec = n % 1000000000LL;
  return 0;
}
int gettimeofday(struct timeval* t, void*) noexcept {
  t->tv_sec = wall_ns / 1000000000LL; t->tv_usec = (wall_ns % 1000000000LL) / 1000;
  return 0;
}
clock_t clock() noexcept { return (ut + st) * (CLOCKS_PER_SEC / 100); }
}

static std::vector<ll> ms(const lf::base::Timer::cpu_times& t) {
  std::vector<ll> o;
  for (auto n : {t.wall, t.user, t.system}) o.push_back(Z(double(n.count()), 1e-6));
  return o;
}
static const char* kF = "{w:.3f}|{u:.3f}|{s:.3f}|{t:.3f}|{p:.3f}|";
// formatted seconds back to ms; percent times 1000
static std::vector<ll> parse(const std::string& f) {
  std::vector<ll> o;
  std::istringstream is(f);
  std::string x;
  while (std::getline(is, x, '|')) {
    char* e = nullptr;
    const double v = strtod(x.c_str(), &e);
    o.push_back(e == x.c_str() ? kOff : R(v, 1000));
  }
  return o;
}

int main(int argc, char** argv) {
  return drive(argc, argv, [&](const Scenario& s) {
    std::vector<std::unique_ptr<lf::base::Timer>> T(3);
    std::unique_ptr<lf::base::AutoTimer> A;
    std::ostringstream os;
    int akind = 0;
    auto text = [&] { auto r = os.str(); os.str(""); return r; };
    auto lines = [&](const std::string& r) {
      std::vector<std::vector<ll>> o;
      std::istringstream is(r);
      std::string x;
      while (std::getline(is, x)) o.push_back(parse(x));
      return o;
    };
    for (const auto& l : s.lines) {
      std::istringstream is(l);
      std::string op;
      is >> op;
      if (op == "adv") {
        ll w, u, v; is >> w >> u >> v;
        wall_ns += w * 1000000; ut += u; st += v;
        emit(J().s("e", "adv").v("d", std::vector<ll>{w, 10 * u, 10 * v}));
      } else if (op == "new") {
        int i, b; is >> i >> b;
        T[i] = b == 2 ? std::make_unique<lf::base::Timer>() : std::make_unique<lf::base::Timer>(b != 0);
        emit(J().s("e", "new").i("i", i).t("run", b != 0));
      } else if (op == "copy") {
        int i, j; is >> i >> j;
        if (T[i]) *T[i] = *T[j]; else T[i] = std::make_unique<lf::base::Timer>(*T[j]);
        emit(J().s("e", "copy").i("i", i).i("j", j));
      } else if (op == "start" || op == "stop" || op == "resume") {
        int i; is >> i;
        if (op == "start") T[i]->Start(); else if (op == "stop") T[i]->Stop(); else T[i]->Resume();
        emit(J().s("e", op).i("i", i));
      } else if (op == "q") {
        int i; is >> i;
        const auto& t = *T[i];
        emit(J().s("e", "q").i("i", i).v("el", ms(t.Elapsed())).t("stopped", t.IsStopped())
                 .v("f", parse(t.Format(kF))).t("def", t.Format() == t.Format(lf::base::Timer::kDefaultFormat)));
      } else if (op == "auto") {
        is >> akind;
        if (akind == 0) A = std::make_unique<lf::base::AutoTimer>(os, kF);
        else {
          auto sink = std::make_shared<spdlog::sinks::ostream_sink_st>(os, true);
          auto lg = std::make_shared<spdlog::logger>("v", sink);
          lg->set_pattern("%v");
          if (akind == 1) A = std::make_unique<lf::base::AutoTimer>(lg, spdlog::level::info, kF);
          else A = std::make_unique<lf::base::AutoTimer>(lg, spdlog::level::debug, kF);
        }
        emit(J().s("e", "auto").i("k", akind).t("fmt", A->FormatString() == kF).v("out", lines(text())));
      } else if (op == "aq") {
        emit(J().s("e", "aq").v("el", ms(A->Elapsed())).v("f", parse(A->Format(kF))).v("out", lines(text())));
      } else if (op == "report") {
        A->Report();
        emit(J().s("e", "report").v("out", lines(text())));
      } else if (op == "del") {
        A.reset();
        emit(J().s("e", "del").v("out", lines(text())));
      }
    }
  });
}
