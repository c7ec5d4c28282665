// Tag clouds on their own.
#include "driver.hh"

#include <iterator>
#include <sstream>

#include <scribbu/framesv2.hh>
#include <scribbu/scribbu.hh>

using namespace scribbu;

namespace {

  std::map<std::string, std::unique_ptr<tag_cloud>> clouds;
  reg_reset rr([]() { clouds.clear(); });

  tag_cloud& get(const args &a) {
    auto p = clouds.find(a.str(0));
    if (p == clouds.end()) throw std::runtime_error("no such cloud");
    return *p->second;
  }
  const json OK = json::num(0);

  reg r_new("k.new", [](const args &a) {
    // NAME OWNER TEXT
    std::unique_ptr<tag_cloud> p(new tag_cloud(a.text(1), a.text(2)));
    clouds[a.str(0)] = std::move(p);
    return OK;
  });
  reg r_raw("k.raw", [](const args &a) {
    // NAME BYTES
    bytes b = a.hex(1);
    std::unique_ptr<tag_cloud> p(new tag_cloud(b.begin(), b.end()));
    clouds[a.str(0)] = std::move(p);
    return OK;
  });
  reg r_merge("k.merge", [](const args &a) { get(a).merge(a.text(1)); return OK; });
  reg r_update("k.update", [](const args &a) { get(a).update(a.text(1)); return OK; });
  reg r_addkey("k.addkey", [](const args &a) { return json::boolean(get(a).add_key(a.text(1))); });
  reg r_addval("k.addval", [](const args &a) {
    return json::boolean(get(a).add_value(a.text(1), a.text(2)));
  });
  reg r_has("k.has", [](const args &a) {
    return json::boolean(a.size() == 2 ? get(a).has_key(a.text(1)) :
                         get(a).has_value(a.text(1), a.text(2)));
  });
  reg r_text("k.text", [](const args &a) { return json::hex(get(a).urlencoded()); });
  reg r_map("k.map", [](const args &a) {
    tag_cloud &c = get(a);
    json m = json::obj();
    for (const auto &kv: c) {
      json vs = json::arr();
      for (const auto &v: kv.second) vs.add(json::hex(v));
      std::string k = json::hex(kv.first).render();
      m.put(k.substr(1, k.size() - 2), vs);
    }
    json j = json::obj();
    j.put("owner", json::hex(c.owner()));
    j.put("map", m);
    return j;
  });
  reg r_bytes("k.bytes", [](const args &a) {
    std::ostringstream os;
    std::size_t n = get(a).write(os);
    json j = json::obj();
    j.put("n", json::unum(n));
    j.put("size", json::unum(get(a).size()));
    j.put("bytes", json::hex(os.str()));
    return j;
  });
  reg r_enc("u.enc", [](const args &a) { return json::hex(urlencode(a.text(0))); });
  reg r_dec("u.dec", [](const args &a) { return json::hex(urldecode(a.text(0))); });

}
