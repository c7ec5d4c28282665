#include "driver.hh"

#include <cxxabi.h>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <typeinfo>
#include <unistd.h>
#include <sys/stat.h>

namespace fs = std::filesystem;

static std::map<std::string, command>& table() {
  static std::map<std::string, command> t;
  return t;
}
static std::vector<std::function<void()>>& resets() {
  static std::vector<std::function<void()>> t;
  return t;
}

reg::reg(const std::string &name, command f) { table()[name] = f; }
reg_reset::reg_reset(std::function<void()> f) { resets().push_back(f); }

bytes args::hex(std::size_t i) const {
  const std::string &s = str(i);
  bytes out;
  if (s == "-") return out;
  if (s.size() % 2) throw driver_error("odd hex string");
  for (std::size_t k = 0; k < s.size(); k += 2)
    out.push_back((unsigned char) std::stoi(s.substr(k, 2), nullptr, 16));
  return out;
}

json json::str(const std::string &s) {
  std::string o = "\"";
  char buf[8];
  for (unsigned char c: s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
    else if (c < 32 || c > 126) { snprintf(buf, sizeof buf, "\\u%04x", c); o += buf; }
    else o += (char) c;
  }
  return raw(o + "\"");
}

bytes slurp(const std::string &path) {
  std::ifstream f(path, std::ios::binary);
  if (!f) throw driver_error("cannot read " + path);
  return bytes(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>());
}

void spew(const std::string &path, const bytes &b) {
  std::ofstream f(path, std::ios::binary | std::ios::trunc);
  f.write((const char*) b.data(), b.size());
  f.close();
  if (!f) throw driver_error("cannot write " + path);
}

static std::string demangle(const char *n) {
  int st;
  char *p = abi::__cxa_demangle(n, nullptr, nullptr, &st);
  std::string s = p ? p : n;
  free(p);
  return s;
}

static reg r_reset("reset", [](const args&) {
  for (auto &f: resets()) f();
  return json::raw("0");
});
static reg r_put("f.put", [](const args &a) { spew(a.str(0), a.hex(1)); return json::raw("0"); });
static reg r_get("f.get", [](const args &a) { return json::hex(slurp(a.str(0))); });
static reg r_mkdir("f.mkdir", [](const args &a) { fs::create_directories(a.str(0)); return json::raw("0"); });
static reg r_cd("f.cd", [](const args &a) { fs::current_path(a.str(0)); return json::raw("0"); });
// all regular files below a directory: {name: content}
static reg r_tree("f.tree", [](const args &a) {
  json j = json::obj();
  std::map<std::string, bytes> m;
  for (auto &e: fs::recursive_directory_iterator(a.str(0)))
    if (e.is_regular_file()) m[fs::relative(e.path(), a.str(0)).string()] = slurp(e.path());
  for (auto &p: m) j.put(p.first, json::hex(p.second));
  return j;
});
static reg r_clear("f.clear", [](const args &a) {
  // only ever used on the scratch directory the check has created
  fs::path p = fs::absolute(a.str(0));
  if (p.string().find("/vscratch-") == std::string::npos) throw driver_error("refusing to clear " + p.string());
  for (auto &e: fs::directory_iterator(p)) fs::remove_all(e.path());
  return json::raw("0");
});

int main(int argc, char **argv) {
  std::ios::sync_with_stdio(false);
  unsigned limit = argc > 1 ? atoi(argv[1]) : 20;
  std::string line;
  while (std::getline(std::cin, line)) {
    if (line.empty()) continue;
    args a;
    std::istringstream is(line);
    std::string name, tok;
    is >> name;
    while (is >> tok) a.a.push_back(tok);
    auto p = table().find(name);
    std::string out;
    alarm(limit);
    if (p == table().end()) {
      out = "{\"driver_error\":\"unknown command\"}";
    } else {
      try {
        out = p->second(a).render();
      } catch (const driver_error &e) {
        out = json::obj().put("driver_error", json::str(e.what())).render();
      } catch (const std::exception &e) {
        out = json::obj().put("err", json::str(demangle(typeid(e).name())))
          .put("what", json::str(e.what())).render();
      } catch (...) {
        out = "{\"err\":\"non-standard exception\"}";
      }
    }
    alarm(0);
    std::cout << out << '\n';
    std::cout.flush();
  }
  return 0;
}
