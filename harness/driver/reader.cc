// Finding and reading the tags at the start of a file.
#include "driver.hh"
#include "id3v2.hh"

#include <fstream>
#include <sstream>

#include <scribbu/id3v2-utils.hh>
#include <scribbu/id3v2.hh>

using namespace scribbu;

namespace {

  std::ios_base::iostate mask_of(long n) {
    std::ios_base::iostate m = std::ios_base::goodbit;
    if (n & 1) m |= std::ios_base::badbit;
    if (n & 2) m |= std::ios_base::failbit;
    if (n & 4) m |= std::ios_base::eofbit;
    return m;
  }

  void where(json &j, std::istream &is, std::ios_base::iostate m) {
    j.put("kept", json::boolean(is.exceptions() == m));
    is.exceptions(std::ios_base::goodbit);
    j.put("good", json::boolean(is.good()));
    j.put("pos", json::num((long long) is.tellg()));
  }

  reg r_all("r.all", [](const args &a) {
    // PREFIX BYTES MASK: all tags, to slots PREFIX0...; where reading ended
    std::istringstream is(a.text(1));
    std::ios_base::iostate m = mask_of(a.num(2));
    is.exceptions(m);
    std::vector<std::unique_ptr<id3v2_tag>> v;
    json j = json::obj();
    bool failed = false;
    try {
      read_all_id3v2(is, std::back_inserter(v));
    } catch (const std::exception &ex) {
      failed = true;
    }
    j.put("error", json::boolean(failed));
    j.put("n", json::unum(v.size()));
    if (!failed) where(j, is, m);
    for (std::size_t i = 0; i < v.size(); ++i) {
      t2_ref(a.str(0) + std::to_string(i)) = std::move(v[i]);
    }
    return j;
  });
  reg r_index("r.index", [](const args &a) {
    // SLOT BYTES INDEX MASK
    std::istringstream is(a.text(1));
    std::ios_base::iostate m = mask_of(a.num(3));
    is.exceptions(m);
    std::unique_ptr<id3v2_tag> p = read_id3v2(is, a.num(2));
    json j = json::obj();
    where(j, is, m);
    t2_ref(a.str(0)) = std::move(p);
    return j;
  });
  reg r_look("r.look", [](const args &a) {
    // BYTES AT RESTORE MASK
    std::istringstream is(a.text(0));
    is.seekg(a.num(1));
    std::ios_base::iostate m = mask_of(a.num(3));
    is.exceptions(m);
    id3v2_info h = looking_at_id3v2(is, a.flag(2));
    json j = json::obj();
    j.put("present", json::boolean(h.present_));
    if (h.present_) {
      j.put("ver", json::num(h.version_));
      j.put("rev", json::num(h.revision_));
      j.put("flags", json::num(h.flags_));
      j.put("size", json::unum(h.size_));
    }
    where(j, is, m);
    return j;
  });

}
