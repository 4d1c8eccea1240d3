// Harness plumbing: a small JSON reader/writer, the case loop, crash reporting and an
// operator new/delete that scribbles over and quarantines freed blocks.
#pragma once
#include <stdint.h>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <utility>
#include <vector>

namespace hz {

// ---- JSON values (enough for stimulus files) ----
struct Val {
  enum Kind { NUL, BOOL, NUM, STR, ARR, OBJ } k = NUL;
  double n = 0;
  bool b = false;
  std::string s;
  std::vector<Val> a;
  std::map<std::string, Val> o;
  const Val& operator[](const char* key) const;
  const Val& at(size_t i) const;
  bool has(const char* key) const { return k == OBJ && o.count(key); }
  size_t size() const { return a.size(); }
  int i() const { return (int)n; }
  long long ll() const { return (long long)n; }
  int i(int dflt) const { return k == NUM ? (int)n : dflt; }
  double d() const { return n; }
  double d(double dflt) const { return k == NUM ? n : dflt; }
  bool t() const { return k == BOOL ? b : (k == NUM && n != 0); }
  const std::string& str() const { return s; }
  std::string str(const char* dflt) const { return k == STR ? s : std::string(dflt); }
};
Val Parse(const std::string& text);

// ---- JSON output ----
std::string Q(const std::string& s);  // quoted
struct J {  // object builder
  std::string s = "{";
  bool first = true;
  J& raw(const char* k, const std::string& v) {
    if (!first) s += ",";
    first = false;
    s += "\"";
    s += k;
    s += "\":";
    s += v;
    return *this;
  }
  J& kv(const char* k, const std::string& v) { return raw(k, Q(v)); }
  J& kv(const char* k, const char* v) { return raw(k, Q(v)); }
  J& kv(const char* k, long long v) { return raw(k, std::to_string(v)); }
  J& kv(const char* k, int v) { return raw(k, std::to_string(v)); }
  J& kv(const char* k, unsigned v) { return raw(k, std::to_string(v)); }
  J& kv(const char* k, unsigned long v) { return raw(k, std::to_string(v)); }
  J& kv(const char* k, bool v) { return raw(k, v ? "true" : "false"); }
  std::string str() const { return s + "}"; }
};
template <class C> std::string Arr(const C& c) {
  std::string r = "[";
  bool f = true;
  for (const auto& x : c) {
    if (!f) r += ",";
    f = false;
    r += std::to_string((long long)x);
  }
  return r + "]";
}
template <class C> std::string ArrS(const C& c) {  // array of quoted strings
  std::string r = "[";
  bool f = true;
  for (const auto& x : c) {
    if (!f) r += ",";
    f = false;
    r += Q(x);
  }
  return r + "]";
}
template <class C> std::string ArrR(const C& c) {  // array of raw JSON
  std::string r = "[";
  bool f = true;
  for (const auto& x : c) {
    if (!f) r += ",";
    f = false;
    r += x;
  }
  return r + "]";
}
// round(x * scale), clamped to +-2e9; NaN -> -2000000001
long long Fix(double x, double scale);
std::string HexD(double x);  // exact bits of a double
std::string HexF(float x);

// ---- events of the running case ----
void Emit(const J& ev);          // adds "c": case index
void EmitRaw(const std::string& line);
int CaseIndex();
size_t Mark();                   // position in the events of this case
void Rewind(size_t mark);
void OnDie(std::function<void()> f);  // emits what is pending when the case is ended by Die
[[noreturn]] void Die(const char* event, const char* detail);  // ends the case

typedef std::function<void(const Val& cas)> Handler;
struct Register { Register(const char* mode, Handler h); };

// ---- memory monitor ----
bool Alive(const void* p);       // p was returned by operator new and not deleted since
std::string Scratch();           // scratch directory of this process (created on demand)
void WriteFile(const std::string& path, const std::string& content);
std::string ReadFile(const std::string& path, bool* ok = nullptr);
int StatusCode(const void*);     // unused

}  // namespace hz
