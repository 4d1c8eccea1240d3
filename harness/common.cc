#include "common.h"
#include "control.h"

#include <fcntl.h>
#include <ftw.h>
#include <math.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>

#include <atomic>
#include <fstream>
#include <new>
#include <sstream>

#include <gflags/gflags.h>
#include <glog/logging.h>

DECLARE_int32(minloglevel);
DECLARE_bool(logtostderr);

// ------------------------------------------------------------------ memory monitor
// Header: 16 bytes before the user block: size, magic.
namespace {
const uint64_t kLive = 0x4c4956454c495645ull, kDead = 0xdeadbeefdeadbeefull;
struct Hdr { uint64_t size, magic; };
const size_t kQMax = 96u << 20;
struct QNode { Hdr* h; };
const size_t kQCap = 1u << 18;
Hdr* g_q[kQCap];
size_t g_qh = 0, g_qt = 0, g_qbytes = 0;
std::atomic_flag g_qlock = ATOMIC_FLAG_INIT;

void* NewImpl(size_t n) {
  Hdr* h = (Hdr*)malloc(n + sizeof(Hdr));
  if (!h) return nullptr;
  h->size = n;
  h->magic = kLive;
  memset(h + 1, 0xA5, n < 4096 ? n : 4096);
  return h + 1;
}
void DelImpl(void* p) {
  if (!p) return;
  Hdr* h = (Hdr*)p - 1;
  if (h->magic != kLive) abort();  // double free or foreign pointer
  sched::Forget(p, h->size);
  h->magic = kDead;
  memset(p, 0xDD, h->size);
  while (g_qlock.test_and_set(std::memory_order_acquire)) {}
  Hdr* out[64];
  int no = 0;
  g_q[g_qt] = h;
  g_qt = (g_qt + 1) % kQCap;
  g_qbytes += h->size;
  while (no < 64 && (g_qbytes > kQMax || (g_qt + 1) % kQCap == g_qh) && g_qh != g_qt) {
    out[no++] = g_q[g_qh];
    g_qbytes -= g_q[g_qh]->size;
    g_qh = (g_qh + 1) % kQCap;
  }
  g_qlock.clear(std::memory_order_release);
  for (int i = 0; i < no; ++i) {
    out[i]->magic = 0;
    free(out[i]);
  }
}
}  // namespace

void* operator new(size_t n) {
  void* p = NewImpl(n);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new[](size_t n) {
  void* p = NewImpl(n);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new(size_t n, const std::nothrow_t&) noexcept { return NewImpl(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return NewImpl(n); }
void operator delete(void* p) noexcept { DelImpl(p); }
void operator delete[](void* p) noexcept { DelImpl(p); }
void operator delete(void* p, size_t) noexcept { DelImpl(p); }
void operator delete[](void* p, size_t) noexcept { DelImpl(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { DelImpl(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { DelImpl(p); }

namespace hz {

bool Alive(const void* p) { return p && ((const Hdr*)p - 1)->magic == kLive; }

// ------------------------------------------------------------------ JSON
static const Val kNul;
const Val& Val::operator[](const char* key) const {
  auto it = o.find(key);
  return it == o.end() ? kNul : it->second;
}
const Val& Val::at(size_t i) const { return i < a.size() ? a[i] : kNul; }

namespace {
struct P {
  const std::string& t;
  size_t p = 0;
  void ws() {
    while (p < t.size() && (t[p] == ' ' || t[p] == '\t' || t[p] == '\n' || t[p] == '\r')) ++p;
  }
  [[noreturn]] void bad() {
    fprintf(stderr, "bad json at %zu\n", p);
    _exit(3);
  }
  std::string str() {
    std::string r;
    ++p;
    while (p < t.size() && t[p] != '"') {
      if (t[p] == '\\') {
        ++p;
        char c = t[p++];
        switch (c) {
          case 'n': r += '\n'; break;
          case 't': r += '\t'; break;
          case 'r': r += '\r'; break;
          case 'b': r += '\b'; break;
          case 'f': r += '\f'; break;
          case 'u': {
            unsigned v = strtoul(t.substr(p, 4).c_str(), nullptr, 16);
            p += 4;
            if (v < 0x80) r += (char)v;
            else if (v < 0x800) { r += (char)(0xC0 | v >> 6); r += (char)(0x80 | (v & 63)); }
            else { r += (char)(0xE0 | v >> 12); r += (char)(0x80 | ((v >> 6) & 63)); r += (char)(0x80 | (v & 63)); }
            break;
          }
          default: r += c;
        }
      } else {
        r += t[p++];
      }
    }
    ++p;
    return r;
  }
  Val val() {
    ws();
    Val v;
    if (p >= t.size()) bad();
    char c = t[p];
    if (c == '{') {
      v.k = Val::OBJ;
      ++p;
      ws();
      while (t[p] != '}') {
        ws();
        std::string k = str();
        ws();
        if (t[p] != ':') bad();
        ++p;
        v.o[k] = val();
        ws();
        if (t[p] == ',') { ++p; ws(); }
        else if (t[p] != '}') bad();
      }
      ++p;
    } else if (c == '[') {
      v.k = Val::ARR;
      ++p;
      ws();
      while (t[p] != ']') {
        v.a.push_back(val());
        ws();
        if (t[p] == ',') { ++p; ws(); }
        else if (t[p] != ']') bad();
      }
      ++p;
    } else if (c == '"') {
      v.k = Val::STR;
      v.s = str();
    } else if (!t.compare(p, 4, "true")) {
      v.k = Val::BOOL; v.b = true; p += 4;
    } else if (!t.compare(p, 5, "false")) {
      v.k = Val::BOOL; p += 5;
    } else if (!t.compare(p, 4, "null")) {
      p += 4;
    } else {
      char* e;
      v.k = Val::NUM;
      v.n = strtod(t.c_str() + p, &e);
      if (e == t.c_str() + p) bad();
      p = e - t.c_str();
    }
    return v;
  }
};
}  // namespace
Val Parse(const std::string& text) {
  P p{text};
  return p.val();
}

std::string Q(const std::string& s) {
  std::string r = "\"";
  char buf[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 0x20 || c >= 0x7f) { snprintf(buf, sizeof buf, "\\u%04x", c); r += buf; }
    else r += c;
  }
  return r + "\"";
}
long long Fix(double x, double scale) {
  if (std::isnan(x)) return -2000000001ll;
  double y = x * scale;
  if (y > 2e9) return 2000000000ll;
  if (y < -2e9) return -2000000000ll;
  return llround(y);
}
std::string HexD(double x) {
  uint64_t u;
  memcpy(&u, &x, 8);
  char b[24];
  snprintf(b, sizeof b, "%016llx", (unsigned long long)u);
  return b;
}
std::string HexF(float x) {
  uint32_t u;
  memcpy(&u, &x, 4);
  char b[24];
  snprintf(b, sizeof b, "%08x", u);
  return b;
}

// ------------------------------------------------------------------ case loop
namespace {
std::map<std::string, Handler>& Modes() {
  static std::map<std::string, Handler> m;
  return m;
}
std::string g_buf;
int g_out = 1, g_case = -1;
pid_t g_pid;
std::string g_scratch;

void WriteAll(const char* p, size_t n) {
  while (n) {
    ssize_t k = write(g_out, p, n);
    if (k <= 0) _exit(4);
    p += k;
    n -= k;
  }
}
void OnSignal(int sig) {
  static volatile sig_atomic_t busy = 0;
  if (__sync_lock_test_and_set(&busy, 1)) for (;;) pause();  // another thread is at it
  // Everything the case emitted so far, then the crash itself.
  size_t n = g_buf.size();
  while (n && g_buf[n - 1] != '\n') --n;
  WriteAll(g_buf.data(), n);
  char b[128];
  int k = snprintf(b, sizeof b, "{\"c\":%d,\"e\":\"%s\",\"sig\":%d}\n", g_case,
                   sig == SIGALRM ? "Hang" : "Crash", sig);
  WriteAll(b, k);
  _exit(sig == SIGALRM ? 98 : 99);
}
}  // namespace
static std::function<void()> g_on_die;
void OnDie(std::function<void()> f) { g_on_die = f; }
size_t Mark() { return g_buf.size(); }
void Rewind(size_t m) { g_buf.resize(m); }
void Die(const char* event, const char* detail) {
  if (g_on_die) g_on_die();
  WriteAll(g_buf.data(), g_buf.size());
  std::string s = J().kv("c", g_case).kv("e", event).kv("why", detail).str() + "\n";
  WriteAll(s.data(), s.size());
  _exit(98);
}
namespace {
int Rm(const char* p, const struct stat*, int, struct FTW*) { return remove(p); }
}  // namespace

Register::Register(const char* mode, Handler h) { Modes()[mode] = h; }
int CaseIndex() { return g_case; }
void EmitRaw(const std::string& line) { g_buf += line; g_buf += "\n"; }
void Emit(const J& ev) {
  std::string s = "{\"c\":" + std::to_string(g_case);
  if (ev.s.size() > 1) s += ",";
  s += ev.s.substr(1);
  EmitRaw(s + "}");
}

std::string Scratch() {
  if (g_scratch.empty()) {
    const char* base = getenv("VERIF_SCRATCH");
    std::string t = std::string(base ? base : "/tmp") + "/hzXXXXXX";
    std::vector<char> b(t.begin(), t.end());
    b.push_back(0);
    if (!mkdtemp(b.data())) { perror("mkdtemp"); _exit(5); }
    g_scratch = b.data();
  }
  return g_scratch;
}
void WriteFile(const std::string& path, const std::string& content) {
  std::ofstream o(path, std::ios::binary);
  o.write(content.data(), content.size());
  if (!o) { fprintf(stderr, "cannot write %s\n", path.c_str()); _exit(5); }
}
std::string ReadFile(const std::string& path, bool* ok) {
  std::ifstream i(path, std::ios::binary);
  if (ok) *ok = (bool)i;
  std::stringstream s;
  s << i.rdbuf();
  return s.str();
}
}  // namespace hz

// driver MODE CASES OUT START
int main(int argc, char** argv) {
  using namespace hz;
  if (argc < 5) return 2;
  google::InitGoogleLogging(argv[0]);
  FLAGS_minloglevel = 3;
  FLAGS_logtostderr = true;
  google::InstallFailureFunction(&abort);
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  auto it = Modes().find(argv[1]);
  if (it == Modes().end()) { fprintf(stderr, "no mode %s\n", argv[1]); return 2; }
  g_out = open(argv[3], O_WRONLY | O_CREAT | O_APPEND, 0644);
  if (g_out < 0) { perror(argv[3]); return 2; }
  g_pid = getpid();
  const char* lim = getenv("VERIF_CASE_SECONDS");
  int seconds = lim ? atoi(lim) : 20;
  stack_t ss;
  ss.ss_sp = malloc(1 << 16);
  ss.ss_size = 1 << 16;
  ss.ss_flags = 0;
  sigaltstack(&ss, nullptr);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = OnSignal;
  sa.sa_flags = SA_ONSTACK;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM}) sigaction(s, &sa, nullptr);
  std::ifstream in(argv[2]);
  std::string line;
  int start = atoi(argv[4]);
  g_buf.reserve(8 << 20);
  for (int i = 0; std::getline(in, line); ++i) {
    if (i < start || line.empty()) continue;
    g_case = i;
    g_buf.clear();
    alarm(seconds);
    {
      Val v = Parse(line);
      it->second(v);
    }
    alarm(0);
    WriteAll(g_buf.data(), g_buf.size());
  }
  if (!g_scratch.empty()) nftw(g_scratch.c_str(), Rm, 16, FTW_DEPTH | FTW_PHYS);
  fflush(nullptr);
  _exit(0);
}
