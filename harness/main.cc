// Worker: runs cases [from,to) of one check; all output goes to --out.
#include "common.h"
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <unistd.h>
#include <sys/time.h>
static std::map<string, CheckFn>& reg() { static std::map<string, CheckFn> r; return r; }
void registerCheck(const char* n, CheckFn f) { reg()[n] = f; }
Ctx* G_ctx = nullptr;
std::function<void(pwork*)> g_iter_hook;
#if defined(ECOS_VERIF_HOOKS)
extern "C" void ecos_verif_iterate(pwork* w) { if (g_iter_hook) g_iter_hook(w); }
#endif
static FILE* OUT; static volatile long* STATUS;
string fmt(const char* f, ...) { va_list a; va_start(a, f); char buf[8192]; vsnprintf(buf, sizeof buf, f, a); va_end(a); return buf; }
uint64_t hash64(const void* p, size_t n, uint64_t h) { const unsigned char* c = (const unsigned char*)p; for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; } return h; }
static string esc(const string& s) { string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32) o += ' '; else o += c; } return o; }
void Ctx::viol(const string& key, const char* f, ...) {
  char buf[8192]; va_list a; va_start(a, f); vsnprintf(buf, sizeof buf, f, a); va_end(a);
  nviol++;
  fprintf(OUT, "VIOL {\"idx\":%ld,\"key\":\"%s\",\"msg\":\"%s\"}\n", idx, esc(key).c_str(), esc(buf).c_str()); fflush(OUT);
}
void Ctx::stat(const string& k, double v) { st[k] += v; }
void Ctx::maxi(const string& k, double v) { if (!mx.count(k) || v > mx[k]) mx[k] = v; }
void Ctx::sample(const string& js) { if (nsample++ < 3) fprintf(OUT, "SAMPLE {\"idx\":%ld,\"case\":\"%s\"}\n", idx, esc(js).c_str()); }
void Ctx::res(const string& l) { fprintf(OUT, "RES %ld %s\n", idx, l.c_str()); }
void Ctx::fail(const string& why) { fprintf(OUT, "ERROR {\"idx\":%ld,\"why\":\"%s\"}\n", idx, esc(why).c_str()); fflush(OUT); _exit(3); }
static void onalarm(int) { static const char m[] = "HANG\n"; ssize_t r = write(fileno(OUT), m, 5); (void)r; _exit(9); }
void watchdog(int secs) { struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = secs; setitimer(ITIMER_PROF, &t, 0); }
static void dumpStats(Ctx& c, long done) {
  for (auto& k : c.st) fprintf(OUT, "STAT %.17g %s\n", k.second, k.first.c_str());
  for (auto& k : c.mx) fprintf(OUT, "MAX %.17g %s\n", k.second, k.first.c_str());
  for (uint64_t s : c.sigs) fprintf(OUT, "S %016llx\n", (unsigned long long)s);
  fprintf(OUT, "DONE %ld\n", done); fflush(OUT);
}
#ifdef VF_MSAN
extern "C" void __msan_scoped_disable_interceptor_checks(void);
#endif
int main(int argc, char** argv) {
#ifdef VF_MSAN
  __msan_scoped_disable_interceptor_checks();   // the harness itself is not instrumented
#endif
  string check, out = "/dev/stdout", status; long from = 0, to = 1, step = 1; uint64_t seed = 1; bool thorough = false, replay = false; int wd = 120;
  for (int i = 1; i < argc; i++) {
    string a = argv[i]; auto nx = [&]() { return string(argv[++i]); };
    if (a == "--check") check = nx(); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
    else if (a == "--from") from = atol(nx().c_str()); else if (a == "--to") to = atol(nx().c_str()); else if (a == "--step") step = atol(nx().c_str());
    else if (a == "--out") out = nx(); else if (a == "--status") status = nx(); else if (a == "--thorough") thorough = true;
    else if (a == "--replay") replay = true; else if (a == "--watchdog") wd = atoi(nx().c_str());
  }
  if (out == "-") OUT = stdout; else OUT = fopen(out.c_str(), "a");
  if (!OUT) return 3;
  long dummy = 0; STATUS = &dummy;
  if (!status.empty()) { int fd = open(status.c_str(), O_RDWR | O_CREAT, 0600); if (ftruncate(fd, 16)) return 3; STATUS = (volatile long*)mmap(0, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); }
  if (!reg().count(check)) { fprintf(OUT, "ERROR {\"idx\":-1,\"why\":\"unknown check %s\"}\n", check.c_str()); return 3; }
  signal(SIGPROF, onalarm);
  Ctx c; G_ctx = &c; c.check = check; c.seed = seed; c.thorough = thorough; c.replay = replay;
  CheckFn f = reg()[check]; long done = 0;
  uint64_t ch = hash64(check.data(), check.size());
  bool fills = check.compare(0, 3, "C09") && check.compare(0, 3, "C18");   // C09 fills by itself, C18 runs threads
  static const int FILL[] = {0, 2, 3, 4, 1, 5, 6, 3};                       // what fresh heap memory of the library holds: never observable if nothing depends on it
  for (long i = from; i < to; i += step) {
    *STATUS = i; c.idx = i; c.rng = Rng(seed, ch, (uint64_t)i); srand((unsigned)(seed * 2654435761u + (uint64_t)i));
    g_iter_hook = nullptr; watchdog(wd);
    if (fills) vf_fill(FILL[hmix((uint64_t)i, 77) % 8], (unsigned)i * 7919u + 1);
    f(c); done++;
    if (fills) vf_fill(0);
  }
  watchdog(0); *STATUS = -1;
  dumpStats(c, done);
  if (OUT != stdout) fclose(OUT);
  return 0;
}
