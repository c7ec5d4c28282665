// Conformance driver: reads one command per line on standard input, executes it
// against the library's public interface and prints one line of JSON per command.
#ifndef DRIVER_HH
#define DRIVER_HH

#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

typedef std::vector<unsigned char> bytes;

struct args {
  std::vector<std::string> a;
  std::size_t size() const { return a.size(); }
  const std::string& str(std::size_t i) const {
    if (i >= a.size()) throw std::logic_error("driver: missing argument");
    return a[i];
  }
  long long num(std::size_t i) const { return std::stoll(str(i)); }
  unsigned long long unum(std::size_t i) const { return std::stoull(str(i)); }
  bool flag(std::size_t i) const { return num(i) != 0; }
  bytes hex(std::size_t i) const;
  std::string text(std::size_t i) const {
    bytes b = hex(i);
    return std::string(b.begin(), b.end());
  }
};

// A misuse of the driver, not of the library
struct driver_error: public std::logic_error {
  driver_error(const std::string &s): std::logic_error(s) { }
};

class json {
public:
  static json obj() { json j; j.kind_ = '{'; return j; }
  static json arr() { json j; j.kind_ = '['; return j; }
  static json raw(const std::string &s) { json j; j.s_ = s; j.kind_ = 0; return j; }
  static json num(long long n) { return raw(std::to_string(n)); }
  static json unum(unsigned long long n) { return raw(std::to_string(n)); }
  static json boolean(bool f) { return raw(f ? "true" : "false"); }
  static json str(const std::string &s);
  template <typename C> static json hex(const C &c) {
    static const char *D = "0123456789abcdef";
    std::string s;
    for (auto ch: c) { unsigned char u = (unsigned char) ch; s += D[u >> 4]; s += D[u & 15]; }
    return raw("\"" + s + "\"");
  }
  json& put(const std::string &k, const json &v) {
    if (!s_.empty()) s_ += ",";
    s_ += "\"" + k + "\":" + v.render();
    return *this;
  }
  json& add(const json &v) {
    if (!s_.empty()) s_ += ",";
    s_ += v.render();
    return *this;
  }
  std::string render() const {
    if (kind_ == '{') return "{" + s_ + "}";
    if (kind_ == '[') return "[" + s_ + "]";
    return s_;
  }
private:
  char kind_ = 0;
  std::string s_;
};

typedef std::function<json(const args&)> command;

struct reg {
  reg(const std::string &name, command f);
};

// hook run by the command "reset"
struct reg_reset {
  reg_reset(std::function<void()> f);
};

bytes slurp(const std::string &path);
void spew(const std::string &path, const bytes &b);

#endif
