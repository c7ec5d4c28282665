// Audio: durations, sizes, fingerprints
#include "driver.hh"

#include <cmath>
#include <fstream>
#include <sstream>

#include <scribbu/mp3.hh>
#include <scribbu/scribbu.hh>

using namespace scribbu;

namespace {

  json seconds(double x) {
    char buf[64];
    snprintf(buf, sizeof(buf), "%.17g", x);
    return std::isfinite(x) ? json::raw(buf) : json::str(buf);
  }

  // dur BYTES FROM: the duration of the audio beginning at FROM
  reg r_dur("dur", [](const args &a) {
    std::istringstream is(a.text(0));
    is.seekg(a.num(1));
    json j = json::obj();
    try {
      j.put("secs", seconds(get_mp3_duration(is)));
    } catch (const std::exception &ex) {
      j.put("error", json::str(ex.what()));
    }
    j.put("kept", json::boolean(is.exceptions() == std::ios_base::goodbit));
    return j;
  });

  json track(std::istream &is) {
    json j = json::obj();
    std::ios_base::iostate m = is.exceptions();
    track_data t(is);
    j.put("kept", json::boolean(is.exceptions() == m));
    is.exceptions(std::ios_base::goodbit);
    j.put("good", json::boolean(is.good()));
    j.put("pos", json::num((long long) is.tellg()));
    std::vector<unsigned char> md5;
    t.get_md5(std::back_inserter(md5));
    j.put("size", json::unum(t.size()));
    j.put("md5", json::hex(md5));
    auto d = t.duration();
    j.put("secs", d ? seconds(*d) : json::raw("null"));
    return j;
  }

  // trk BYTES FROM MASK: the track beginning at FROM
  reg r_trk("trk", [](const args &a) {
    std::istringstream is(a.text(0));
    is.seekg(a.num(1));
    if (a.flag(2)) is.exceptions(std::ios_base::badbit | std::ios_base::failbit);
    return track(is);
  });
  // trkf FILE FROM: the same, of a file
  reg r_trkf("trkf", [](const args &a) {
    std::ifstream is(a.str(0), std::ios_base::binary);
    is.seekg(a.num(1));
    return track(is);
  });

}
