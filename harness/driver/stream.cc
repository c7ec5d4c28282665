// Formatting set on streams.
#include "driver.hh"

#include <sstream>

#include <scribbu/csv-pprinter.hh>
#include <scribbu/id3v1.hh>
#include <scribbu/id3v23.hh>
#include <scribbu/json-pprinter.hh>
#include <scribbu/ostream.hh>
#include <scribbu/pprinter.hh>
#include <scribbu/tdf-pprinter.hh>

using namespace scribbu;

namespace {

  std::map<std::string, std::unique_ptr<std::stringstream>> streams;
  std::map<std::string, std::unique_ptr<pprint_manipulator>> held;
  reg_reset rr([]() { streams.clear(); held.clear(); });

  std::stringstream& get(const std::string &s) {
    auto p = streams.find(s);
    if (p == streams.end()) throw driver_error("no such stream");
    return *p->second;
  }
  pprint_manipulator* make(const std::string &k) {
    if (k == "csv") return new print_as_csv(6, encoding::ISO_8859_1);
    if (k == "csv2") return new print_as_csv(1, encoding::ISO_8859_1, csv_pprinter::DEFAULT_V2ENC, ';');
    if (k == "json") return new print_as_json(encoding::ISO_8859_1);
    if (k == "tdf") return new print_as_tdf(2, encoding::ISO_8859_1);
    throw driver_error("no such format");
  }
  const json OK = json::num(0);

  reg r_open("o.open", [](const args &a) { streams[a.str(0)].reset(new std::stringstream()); return OK; });
  reg r_close("o.close", [](const args &a) { streams.erase(a.str(0)); return OK; });
  reg r_copy("o.copy", [](const args &a) { get(a.str(0)).copyfmt(get(a.str(1))); return OK; });
  reg r_fmt("o.fmt", [](const args &a) {
    // NAME FORMAT AGAIN: with a manipulator kept for the next time, or one of its own
    std::stringstream &s = get(a.str(0));
    if (a.flag(2)) {
      auto &m = held[a.str(1)];
      if (!m) m.reset(make(a.str(1)));
      s << *m;
    } else {
      std::unique_ptr<pprint_manipulator> m(make(a.str(1)));
      s << *m;
    }
    return OK;
  });
  reg r_enc("o.enc", [](const args &a) {
    // NAME ENCODING POLICY IN
    static const std::map<std::string, encoding> E = {
      { "utf8", encoding::UTF_8 }, { "latin1", encoding::ISO_8859_1 }, { "ascii", encoding::ASCII },
      { "cp1252", encoding::CP1252 }, { "ucs2", encoding::UCS_2 }, { "utf16", encoding::UTF_16 }, { "ucs4", encoding::UCS_4 } };
    static const std::map<std::string, on_no_encoding> P = {
      { "fail", on_no_encoding::fail }, { "ignore", on_no_encoding::ignore }, { "trans", on_no_encoding::transliterate } };
    ienc m(E.at(a.str(1)), P.at(a.str(2)));
    if (a.flag(3)) get(a.str(0)) >> m; else get(a.str(0)) << m;
    return OK;
  });
  reg r_show("o.show", [](const args &a) {
    std::stringstream &s = get(a.str(0));
    static const std::map<encoding, std::string> E = {
      { encoding::UTF_8, "utf8" }, { encoding::ISO_8859_1, "latin1" }, { encoding::ASCII, "ascii" },
      { encoding::CP1252, "cp1252" } };
    static const std::map<on_no_encoding, std::string> P = {
      { on_no_encoding::fail, "fail" }, { on_no_encoding::ignore, "ignore" }, { on_no_encoding::transliterate, "trans" } };
    static const unsigned char V1[128] = "TAGcaf\xe9";
    static const unsigned char V2[] = "ID3\3\0\0\0\0\0\x5e"
      "TIT2\0\0\0\xb\0\0\1\xff\xfe" "c\0a\0f\0\xe9\0"
      "TPE1\0\0\0\4\0\0\0M\xfcl"
      "COMM\0\0\0\7\0\0\0eng\0,;"
      "COMM\0\0\0\7\0\0\0fra\0\xe0;" "\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0";
    ienc e = ienc::retrieve(s);
    json j = json::obj();
    j.put("enc", json::str(E.count(e.get_encoding()) ? E.at(e.get_encoding()) : "?"));
    j.put("pol", json::str(P.count(e.get_on_no_encoding()) ? P.at(e.get_on_no_encoding()) : "?"));
    std::istringstream i1(std::string((const char*)V1, sizeof V1)), i2(std::string((const char*)V2, 10 + 0x5e));
    id3v1_tag t1(i1);
    id3v2_3_tag t2(i2);
    for (int k = 0; k < 2; ++k) {
      s.clear();
      s.str("");
      std::string err;
      try {
        if (k) s << t1; else s << t2;
      } catch (const std::exception&) {
        err = "!";
      }
      if (!s) err += "?";
      s.clear();
      j.put(k ? "v1" : "v2", json::hex(err + s.str()));
    }
    return j;
  });

}
