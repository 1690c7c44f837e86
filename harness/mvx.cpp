// Fork-server runner: evaluates many small programs on the real interpreter, each with crash and time containment.
//   mvx [-p preamble] [-e] [-s] [-t cpu_ms] [-b batch] CASES     (records separated by NUL)
// -e: one process per case (otherwise cases of a batch share a process and the top-level environment)
// Output, one line per case: index TAB status TAB value TAB trace TAB output
//   status: v value, e error at top level, o other object, c C++ exception, x exit, K crash, T timeout
#include "mvx.hpp"
#include <fstream>
#include <csignal>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace meevax;

static std::string slurp(char const* path)
{
  std::ifstream f(path, std::ios::binary); std::ostringstream s; s << f.rdbuf(); return s.str();
}

static void emit(std::string const& line)
{
  std::size_t n = 0;
  while (n < line.size()) { auto k = ::write(1, line.data() + n, line.size() - n); if (k <= 0) _exit(9); n += static_cast<std::size_t>(k); }
}

int main(int argc, char ** argv)
{
  std::string preamble; bool each = false, shared = false, minimal = false, growth = false; long cpu_ms = 2000; long batch = 100000; char const* cases = nullptr;
  for (int i = 1; i < argc; ++i)
  {
    std::string a = argv[i];
    if (a == "-p") preamble = slurp(argv[++i]);
    else if (a == "-e") each = true;
    else if (a == "-s") shared = true;
    else if (a == "-m") minimal = true; // only the libraries of primitives: a collection is then cheap
    else if (a == "-g") growth = true; // the result is the number of live objects gained by three further runs of the case
    else if (a == "-t") cpu_ms = std::atol(argv[++i]);
    else if (a == "-b") batch = std::atol(argv[++i]);
    else cases = argv[i];
  }
  std::vector<std::string> texts;
  {
    auto all = slurp(cases);
    std::size_t b = 0;
    while (b < all.size()) { auto e = all.find('\0', b); if (e == std::string::npos) e = all.size(); texts.push_back(all.substr(b, e - b)); b = e + 1; }
  }
  boot();
  mvx::define_verif();
  #ifdef MEEVAX_VERIFICATION
  schedule = mvx::due;
  #endif
  auto & env = interaction_environment().as<environment>();
  if (not minimal) env.load_scheme_libraries();
  if (auto r = mvx::run(env, preamble); r.status != 'v') { std::cerr << "preamble failed: " << r.status << " " << r.value << std::endl; return 3; }
  collect();
  auto const registers = env.a; // what an uncaught error leaves in the dynamic environment must not reach the next case
  auto * progress = static_cast<volatile std::size_t *>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  std::size_t i = 0;
  while (i < texts.size())
  {
    *progress = i;
    std::cout.flush(); std::cerr.flush();
    auto pid = fork();
    if (pid < 0) { std::perror("fork"); return 4; }
    if (pid == 0)
    {
      std::ostringstream capture;
      std::cout.rdbuf(capture.rdbuf());
      struct rlimit nocore { 0, 0 }; setrlimit(RLIMIT_CORE, &nocore);
      #ifndef __SANITIZE_ADDRESS__
      struct rlimit as { 6ul << 30, 6ul << 30 }; setrlimit(RLIMIT_AS, &as);
      #endif
      auto end = each ? i + 1 : std::min(texts.size(), i + static_cast<std::size_t>(batch));
      for (auto k = i; k < end; ++k)
      {
        *progress = k;
        capture.str("");
        mvx::trace().clear();
        struct itimerval t {}; t.it_value.tv_sec = cpu_ms / 1000; t.it_value.tv_usec = (cpu_ms % 1000) * 1000;
        setitimer(ITIMER_PROF, &t, nullptr);
        struct itimerval w {}; w.it_value.tv_sec = 20 * (cpu_ms / 1000 + 1);
        setitimer(ITIMER_REAL, &w, nullptr);
        env.a = registers;
        mvx::gcw() = {};
        auto again = [&] { env.a = registers; return mvx::run(env, texts[k], shared); };
        auto r = again();
        if (growth)
        {
          auto live = [&] { env.a = registers; for (auto n = count(); ; n = count()) { collect(); if (count() == n) return static_cast<long>(n); } };
          again();
          auto const before = live();
          again(); again(); again();
          r.value = std::to_string(live() - before);
        }
        struct itimerval z {}; setitimer(ITIMER_PROF, &z, nullptr); setitimer(ITIMER_REAL, &z, nullptr);
        std::string line = std::to_string(k) + "\t" + r.status + "\t" + r.value + "\t";
        mvx::escape(line, mvx::trace());
        line += "\t";
        mvx::escape(line, capture.str());
        line += "\n";
        emit(line);
        *progress = k + 1;
      }
      _exit(0);
    }
    int status = 0;
    while (waitpid(pid, &status, 0) < 0 and errno == EINTR) {}
    auto k = *progress;
    if (WIFEXITED(status) and WEXITSTATUS(status) == 0) { i = k; continue; }
    if (k >= texts.size()) break;
    int sig = WIFSIGNALED(status) ? WTERMSIG(status) : 0;
    if (sig == SIGPROF or sig == SIGALRM) emit(std::to_string(k) + "\tT\t\t\t\n");
    else emit(std::to_string(k) + "\tK\t" + (sig ? "signal " + std::to_string(sig) : "exit " + std::to_string(WEXITSTATUS(status))) + "\t\t\n");
    i = k + 1;
  }
  std::cout.flush();
  _exit(0);
}
