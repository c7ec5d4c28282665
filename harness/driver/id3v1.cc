#include "driver.hh"

#include <fstream>
#include <iterator>
#include <optional>
#include <sstream>

#include <scribbu/id3v1.hh>

using namespace scribbu;

static std::map<std::string, std::unique_ptr<id3v1_tag>> tags;
static reg_reset rr([]() { tags.clear(); });

id3v1_tag& v1_slot(const std::string &s) {
  auto p = tags.find(s);
  if (p == tags.end() || !p->second) throw driver_error("no such ID3v1 slot");
  return *p->second;
}

static json observe(const id3v1_tag &t) {
  json j = json::obj();
  bytes b;
#define FLD(name) { b.clear(); t.name(std::back_inserter(b)); j.put(#name, json::hex(b)); }
  FLD(title) FLD(artist) FLD(album) FLD(year) FLD(comment)
  j.put("genre", json::num(t.genre()));
  j.put("v11", json::boolean(t.v1_1()));
  j.put("ext", json::boolean(t.extended()));
  j.put("size", json::num(t.size()));
  auto tn = t.track_number();
  j.put("has_track", json::boolean(tn.first));
  j.put("track", json::num(tn.first ? tn.second : 0));
  if (t.extended()) {
    FLD(enh_genre) FLD(start_time) FLD(end_time)
    j.put("speed", json::num(t.speed().second));
  }
  j.put("has_speed", json::boolean(t.speed().first));
#undef FLD
  return j;
}

static reg r1("v1.new", [](const args &a) {
  tags[a.str(0)].reset(new id3v1_tag(a.flag(1), a.flag(2)));
  return json::raw("0");
});
static reg r2("v1.read", [](const args &a) {
  std::istringstream is(a.text(1));
  tags[a.str(0)].reset(new id3v1_tag(is));
  return json::num((long long) is.tellg());
});
static reg r2b("v1.read2", [](const args &a) {
  std::istringstream is(a.text(1));
  tags[a.str(0)].reset(new id3v1_tag(is, a.flag(2)));
  return json::num((long long) is.tellg());
});
static reg r3("v1.set", [](const args &a) {
  id3v1_tag &t = v1_slot(a.str(0));
  const std::string &f = a.str(1);
  std::string x = a.text(2);
  boost::optional<encoding> dst = encoding::ISO_8859_1;
  encoding src = encoding::ISO_8859_1;
  if (f == "title") t.set_title(x, src, dst);
  else if (f == "artist") t.set_artist(x, src, dst);
  else if (f == "album") t.set_album(x, src, dst);
  else if (f == "comment") t.set_comment(x, src, dst);
  else if (f == "enh_genre") t.set_enh_genre(x, src, dst);
  else if (f == "year") t.set_year(x.c_str());
  else if (f == "start_time") t.set_start_time(x.c_str());
  else if (f == "end_time") t.set_end_time(x.c_str());
  else throw driver_error("unknown field");
  return json::raw("0");
});
static reg r4("v1.setn", [](const args &a) {
  id3v1_tag &t = v1_slot(a.str(0));
  const std::string &f = a.str(1);
  unsigned char n = (unsigned char) a.num(2);
  if (f == "genre") t.set_genre(n);
  else if (f == "track") t.set_track_number(n);
  else if (f == "speed") t.set_speed(n);
  else throw driver_error("unknown field");
  return json::raw("0");
});
static reg r5("v1.obs", [](const args &a) { return observe(v1_slot(a.str(0))); });
static reg r6("v1.write", [](const args &a) {
  std::ostringstream os;
  v1_slot(a.str(0)).write(os);
  return json::hex(os.str());
});
static reg r6b("v1.copy", [](const args &a) {
  tags[a.str(1)].reset(new id3v1_tag(v1_slot(a.str(0))));
  return json::raw("0");
});
static reg r7("v1.text", [](const args &a) {
  // every text field as UTF-8, the tag's own encoding being ISO-8859-1
  id3v1_tag &t = v1_slot(a.str(0));
  boost::optional<encoding> src = encoding::ISO_8859_1;
  json j = json::obj();
  j.put("title", json::hex(t.title<std::string>(src)));
  j.put("artist", json::hex(t.artist<std::string>(src)));
  j.put("album", json::hex(t.album<std::string>(src)));
  j.put("year", json::hex(t.year<std::string>(src)));
  j.put("comment", json::hex(t.comment<std::string>(src)));
  if (t.extended()) j.put("enh_genre", json::hex(t.enh_genre<std::string>(src)));
  return j;
});

static const char* kind(id3_v1_tag_type t) {
  switch (t) {
  case id3_v1_tag_type::none: return "none";
  case id3_v1_tag_type::v_1: return "plain";
  default: return "ext";
  }
}

// detect FILE POSITION -> kind, extent and the position afterwards
static reg r8("v1.detect", [](const args &a) {
  std::ifstream ifs(a.str(0), std::ios::binary);
  ifs.seekg(a.num(1));
  id3v1_info I = ends_in_id3v1(ifs);
  json j = json::obj();
  j.put("kind", json::str(kind(I.type_)));
  if (I.type_ != id3_v1_tag_type::none) {
    j.put("start", json::num((long long) I.start_));
    j.put("end", json::num((long long) I.end_));
  }
  j.put("pos", json::num((long long) ifs.tellg()));
  j.put("mask", json::num((long long) ifs.exceptions()));
  return j;
});
// process FILE POSITION SLOT
static reg r9("v1.process", [](const args &a) {
  std::ifstream ifs(a.str(0), std::ios::binary);
  ifs.seekg(a.num(1));
  std::unique_ptr<id3v1_tag> p = process_id3v1(ifs);
  json j = json::obj();
  j.put("found", json::boolean((bool) p));
  if (p) {
    std::ostringstream os;
    p->write(os);
    j.put("bytes", json::hex(os.str()));
  }
  j.put("pos", json::num((long long) ifs.tellg()));
  j.put("mask", json::num((long long) ifs.exceptions()));
  return j;
});
static reg r10("v1.replace", [](const args &a) {
  replace_id3v1(a.str(0), v1_slot(a.str(1)));
  return json::raw("0");
});
static reg r11("v1.remove", [](const args &a) {
  maybe_remove_id3v1(a.str(0));
  return json::raw("0");
});
