// ID3v2 tags of all three versions behind one set of commands.
#include "driver.hh"
#include "id3v2.hh"

#include <map>
#include <algorithm>
#include <iterator>
#include <sstream>

#include <openssl/evp.h>

#include <scribbu/id3v2.hh>
#include <scribbu/id3v2-utils.hh>
#include <scribbu/id3v22.hh>
#include <scribbu/id3v23.hh>
#include <scribbu/id3v24.hh>

using namespace scribbu;

namespace {

  std::map<std::string, std::unique_ptr<id3v2_tag>> tags;
  reg_reset rr([]() { tags.clear(); });

  // a frame as given on the command line:
  // kind:id:payload:tap:fap:ro:group(-1 for none):compressed:unsynchronised:data-length[:encryption method]
  struct frame_spec {
    std::string kind, id;
    bytes data;
    bool tap = false, fap = false, ro = false, comp = false, uns = false, dli = false;
    int gid = -1, enc = -1;
  };

  frame_spec parse_spec(const std::string &s) {
    args p;
    std::istringstream is(s);
    for (std::string x; std::getline(is, x, ':'); ) p.a.push_back(x);
    frame_spec f;
    f.kind = p.str(0);
    f.id = p.str(1);
    f.data = p.hex(2);
    if (p.size() > 3) {
      f.tap = p.flag(3); f.fap = p.flag(4); f.ro = p.flag(5);
      f.gid = (int) p.num(6);
      f.comp = p.flag(7); f.uns = p.flag(8); f.dli = p.flag(9);
      if (p.size() > 10) f.enc = (int) p.num(10);
    }
    return f;
  }

  template <typename T> json jb(const T &f) { bytes b; f(std::back_inserter(b)); return json::hex(b); }
#define BYTES(expr) [&]() { bytes b_; auto out = std::back_inserter(b_); expr; return json::hex(b_); }()

  struct V2 {
    typedef id3v2_2_tag tag; typedef id3v2_2_frame frame; typedef id3v2_2_text_frame text;
    typedef COM comm; typedef CNT pcnt; typedef POP popm; typedef TXX txxx; typedef XTG xtag;
    typedef UFI ufid; typedef unknown_id3v2_2_frame unknown; typedef frame_id3 fid;
    static tag* fresh(std::size_t pad, bool exp, int) { return new tag(pad, exp); }
    template <typename F> static F* mk(const frame_spec &s) {
      return new F(s.data.begin(), s.data.end());
    }
    template <typename F> static F* mkid(const frame_spec &s) {
      return new F(fid(s.id.c_str()), s.data.begin(), s.data.end());
    }
    static unknown* mkunk(const frame_spec &s) { return mkid<unknown>(s); }
    static void flags(const frame &, json &) { }
    static frame* special(const frame_spec &) { return nullptr; }
    static void special(const frame &, json &) { }
  };

  struct V3 {
    typedef id3v2_3_tag tag; typedef id3v2_3_frame frame; typedef id3v2_3_text_frame text;
    typedef COMM comm; typedef PCNT pcnt; typedef POPM popm; typedef TXXX txxx; typedef XTAG xtag;
    typedef UFID ufid; typedef unknown_id3v2_3_frame unknown; typedef frame_id4 fid;
    static tag* fresh(std::size_t pad, bool exp, int ext) {
      typedef tag::want_extended_header W;
      return new tag(pad, exp, ext == 2 ? W::with_crc : ext == 1 ? W::present : W::none);
    }
    static frame::tag_alter_preservation tap(bool f) {
      return f ? frame::tag_alter_preservation::discard : frame::tag_alter_preservation::preserve;
    }
    static frame::file_alter_preservation fap(bool f) {
      return f ? frame::file_alter_preservation::discard : frame::file_alter_preservation::preserve;
    }
    static frame::read_only ro(bool f) {
      return f ? frame::read_only::set : frame::read_only::clear;
    }
    static frame::id_type gid(int n) {
      return n < 0 ? frame::id_type() : frame::id_type((unsigned char) n);
    }
    static frame::opt_sz_type dsz(const frame_spec &s) {
      return s.comp ? frame::opt_sz_type(s.data.size()) : frame::opt_sz_type();
    }
    template <typename F> static F* mk(const frame_spec &s) {
      return new F(s.data.begin(), s.data.end(), tap(s.tap), fap(s.fap), ro(s.ro), gid(s.enc),
                   gid(s.gid), dsz(s));
    }
    template <typename F> static F* mkid(const frame_spec &s) {
      return new F(fid(s.id.c_str()), s.data.begin(), s.data.end(), tap(s.tap), fap(s.fap),
                   ro(s.ro), gid(s.enc), gid(s.gid), dsz(s));
    }
    static unknown* mkunk(const frame_spec &s) {
      return new unknown(fid(s.id.c_str()), tap(s.tap), fap(s.fap), ro(s.ro), gid(s.enc),
                         gid(s.gid), dsz(s), s.data.begin(), s.data.end());
    }
    static void flags(const frame &f, json &j) {
      j.put("tap", json::boolean(f.tag_alter_preserve() == frame::tag_alter_preservation::discard));
      j.put("fap", json::boolean(f.file_alter_preserve() == frame::file_alter_preservation::discard));
      j.put("ro", json::boolean(f.readonly() == frame::read_only::set));
      j.put("grouped", json::boolean(f.grouped()));
      j.put("comp", json::boolean(f.compressed()));
      j.put("enc", json::boolean(f.encrypted()));
    }
    static frame* special(const frame_spec &s) {
      if (s.kind == "PRIV") return mk<PRIV>(s);
      if (s.kind == "ENCR") return mk<ENCR>(s);
      return nullptr;
    }
    static void special(const frame &f, json &j) {
      if (auto p = dynamic_cast<const PRIV*>(&f)) {
        j.put("kind", json::str("PRIV"));
        j.put("owner", BYTES(p->emailb(out)));
        j.put("data", BYTES(p->contentsb(out)));
      } else if (auto p = dynamic_cast<const ENCR*>(&f)) {
        j.put("kind", json::str("ENCR"));
        j.put("owner", BYTES(p->emailb(out)));
        j.put("symbol", json::num(p->method_symbol()));
        j.put("data", BYTES(p->datab(out)));
      }
    }
  };

  struct V4 {
    typedef id3v2_4_tag tag; typedef id3v2_4_frame frame; typedef id3v2_4_text_frame text;
    typedef COMM_2_4 comm; typedef PCNT_2_4 pcnt; typedef POPM_2_4 popm; typedef TXXX_2_4 txxx;
    typedef XTAG_2_4 xtag; typedef UFID_2_4 ufid; typedef unknown_id3v2_4_frame unknown;
    typedef frame_id4 fid;
    static tag* fresh(std::size_t pad, bool exp, int) { return new tag(pad, exp); }
    static frame::tag_alter_preservation tap(bool f) {
      return f ? frame::tag_alter_preservation::discard : frame::tag_alter_preservation::preserve;
    }
    static frame::file_alter_preservation fap(bool f) {
      return f ? frame::file_alter_preservation::discard : frame::file_alter_preservation::preserve;
    }
    static frame::read_only ro(bool f) {
      return f ? frame::read_only::set : frame::read_only::clear;
    }
    static frame::id_type gid(int n) {
      return n < 0 ? frame::id_type() : frame::id_type((unsigned char) n);
    }
    static boost::optional<std::size_t> dli(const frame_spec &s) {
      return s.dli || s.comp ? boost::optional<std::size_t>(s.data.size()) : boost::none;
    }
    template <typename F> static F* mk(const frame_spec &s) {
      return new F(s.data.begin(), s.data.end(), tap(s.tap), fap(s.fap), ro(s.ro), gid(s.enc),
                   gid(s.gid), s.comp, s.uns, dli(s));
    }
    template <typename F> static F* mkid(const frame_spec &s) {
      return new F(fid(s.id.c_str()), s.data.begin(), s.data.end(), tap(s.tap), fap(s.fap),
                   ro(s.ro), gid(s.enc), gid(s.gid), s.comp, s.uns, dli(s));
    }
    static unknown* mkunk(const frame_spec &s) {
      return new unknown(fid(s.id.c_str()), tap(s.tap), fap(s.fap), ro(s.ro), gid(s.enc),
                         gid(s.gid), s.comp, s.uns, dli(s), s.data.begin(), s.data.end());
    }
    static void flags(const frame &f, json &j) {
      j.put("tap", json::boolean(f.tag_alter_preserve() == frame::tag_alter_preservation::discard));
      j.put("fap", json::boolean(f.file_alter_preserve() == frame::file_alter_preservation::discard));
      j.put("ro", json::boolean(f.readonly() == frame::read_only::set));
      j.put("grouped", json::boolean(f.grouped()));
      j.put("comp", json::boolean(f.compressed()));
      j.put("enc", json::boolean(f.encrypted()));
      j.put("uns", json::boolean(f.unsynchronised()));
    }
    static frame* special(const frame_spec &s) {
      if (s.kind == "PRIV") return mk<PRIV_2_4>(s);
      if (s.kind == "ENCR") return mk<ENCR_2_4>(s);
      return nullptr;
    }
    static void special(const frame &f, json &j) {
      if (auto p = dynamic_cast<const PRIV_2_4*>(&f)) {
        j.put("kind", json::str("PRIV"));
        j.put("owner", BYTES(p->emailb(out)));
        j.put("data", BYTES(p->contentsb(out)));
      } else if (auto p = dynamic_cast<const ENCR_2_4*>(&f)) {
        j.put("kind", json::str("ENCR"));
        j.put("owner", BYTES(p->emailb(out)));
        j.put("symbol", json::num(p->method_symbol()));
        j.put("data", BYTES(p->datab(out)));
      }
    }
  };

  template <typename V>
  std::unique_ptr<typename V::frame> make_frame(const frame_spec &s) {
    typename V::frame *p = nullptr;
    if (s.kind == "text") p = V::template mkid<typename V::text>(s);
    else if (s.kind == "COMM") p = V::template mk<typename V::comm>(s);
    else if (s.kind == "PCNT") p = V::template mk<typename V::pcnt>(s);
    else if (s.kind == "POPM") p = V::template mk<typename V::popm>(s);
    else if (s.kind == "TXXX") p = V::template mk<typename V::txxx>(s);
    else if (s.kind == "XTAG") p = V::template mk<typename V::xtag>(s);
    else if (s.kind == "UFID") p = V::template mk<typename V::ufid>(s);
    else if (s.kind == "unknown") p = V::mkunk(s);
    else p = V::special(s);
    if (!p) throw driver_error("unknown frame kind");
    return std::unique_ptr<typename V::frame>(p);
  }

  json cloud_json(const tag_cloud &c) {
    json j = json::arr();
    for (const auto &kv: c) {
      json e = json::arr();
      e.add(json::hex(kv.first));
      json vs = json::arr();
      for (const auto &v: kv.second) vs.add(json::hex(v));
      e.add(vs);
      j.add(e);
    }
    return j;
  }

  template <typename V>
  json observe_frame(const typename V::frame &f) {
    json j = json::obj();
    j.put("id", json::str(f.id().as_string()));
    V::flags(f, j);
    if (auto p = dynamic_cast<const typename V::text*>(&f)) {
      j.put("kind", json::str("text"));
      j.put("unicode", json::num(p->unicode()));
      j.put("text", BYTES(p->text(out)));
    } else if (auto p = dynamic_cast<const typename V::comm*>(&f)) {
      j.put("kind", json::str("COMM"));
      j.put("unicode", json::num(p->unicode()));
      auto l = p->lang();
      bytes lb{ (unsigned char) std::get<0>(l), (unsigned char) std::get<1>(l),
                (unsigned char) std::get<2>(l) };
      j.put("lang", json::hex(lb));
      j.put("desc", BYTES(p->comments::descriptionb(out)));
      j.put("text", BYTES(p->comments::textb(out)));
    } else if (auto p = dynamic_cast<const typename V::txxx*>(&f)) {
      j.put("kind", json::str("TXXX"));
      j.put("unicode", json::num(p->unicode()));
      j.put("desc", BYTES(p->user_defined_text::descriptionb(out)));
      j.put("text", BYTES(p->user_defined_text::textb(out)));
    } else if (auto p = dynamic_cast<const typename V::pcnt*>(&f)) {
      j.put("kind", json::str("PCNT"));
      j.put("counter", BYTES(p->counterb(out)));
    } else if (auto p = dynamic_cast<const typename V::popm*>(&f)) {
      j.put("kind", json::str("POPM"));
      j.put("owner", BYTES(p->emailb(out)));
      j.put("rating", json::num(p->rating()));
      j.put("counter", BYTES(p->counterb(out)));
    } else if (auto p = dynamic_cast<const typename V::ufid*>(&f)) {
      j.put("kind", json::str("UFID"));
      j.put("owner", BYTES(p->ownerb(out)));
      j.put("data", BYTES(p->idb(out)));
    } else if (auto p = dynamic_cast<const typename V::xtag*>(&f)) {
      j.put("kind", json::str("XTAG"));
      j.put("owner", json::hex(p->owner()));
      j.put("cloud", cloud_json(*p));
    } else if (auto p = dynamic_cast<const typename V::unknown*>(&f)) {
      j.put("kind", json::str("unknown"));
      j.put("data", BYTES(p->data(out)));
    } else {
      V::special(f, j);
    }
    return j;
  }

  // call fn with the tag downcast & a value of its traits
  template <typename F>
  json with(id3v2_tag &t, F fn) {
    if (auto p = dynamic_cast<id3v2_2_tag*>(&t)) return fn(*p, V2());
    if (auto p = dynamic_cast<id3v2_3_tag*>(&t)) return fn(*p, V3());
    if (auto p = dynamic_cast<id3v2_4_tag*>(&t)) return fn(*p, V4());
    throw driver_error("tag of unknown version");
  }

  id3v2_text_frames field(const std::string &s) {
    typedef id3v2_text_frames F;
    static const std::map<std::string, F> N{
      { "talb", F::talb }, { "tbpm", F::tbpm }, { "tcom", F::tcom }, { "tcon", F::tcon },
      { "tcop", F::tcop }, { "tdat", F::tdat }, { "tdly", F::tdly }, { "tenc", F::tenc },
      { "text", F::text }, { "tflt", F::tflt }, { "time", F::time }, { "tit1", F::tit1 },
      { "tit2", F::tit2 }, { "tit3", F::tit3 }, { "tkey", F::tkey }, { "tlan", F::tlan },
      { "tlen", F::tlen }, { "tmed", F::tmed }, { "toal", F::toal }, { "tofn", F::tofn },
      { "toly", F::toly }, { "tope", F::tope }, { "tory", F::tory }, { "town", F::town },
      { "tpe1", F::tpe1 }, { "tpe2", F::tpe2 }, { "tpe3", F::tpe3 }, { "tpe4", F::tpe4 },
      { "tpos", F::tpos }, { "tpub", F::tpub }, { "trck", F::trck }, { "trda", F::trda },
      { "trsn", F::trsn }, { "trso", F::trso }, { "tsiz", F::tsiz }, { "tsrc", F::tsrc },
      { "tsse", F::tsse }, { "tyer", F::tyer } };
    auto p = N.find(s);
    if (p != N.end()) return p->second;
    throw driver_error("unknown text frame name");
  }

  // what the payload of a frame says of its own size
  template <typename P> bool payload(const id3v2_frame &f, json &a) {
    auto p = dynamic_cast<const P*>(&f);
    if (!p) return false;
    json j = json::obj();
    j.put("plain", json::unum(p->P::serialized_size(false)));
    j.put("unsync", json::unum(p->P::serialized_size(true)));
    j.put("needs", json::unum(p->P::needs_unsynchronisation()));
    a.add(j);
    return true;
  }
  json payloads(id3v2_tag &t) {
    return with(t, [](auto &tag, auto) {
      json a = json::arr();
      for (auto p = tag.begin(), q = tag.end(); p != q; ++p) {
        const id3v2_frame &f = *p;
        if (!payload<unique_file_id>(f, a) && !payload<encryption_method>(f, a) &&
            !payload<user_defined_text>(f, a) && !payload<comments>(f, a) &&
            !payload<play_count>(f, a) && !payload<popularimeter>(f, a) &&
            !payload<tag_cloud>(f, a) && !payload<private_frame>(f, a)) {
          a.add(json::raw("null"));
        }
      }
      return a;
    });
  }

  // the extended header
  json observe_ext(const id3v2_2_tag &) {
    return json::raw("null");
  }
  json observe_ext(const id3v2_3_tag &t) {
    if (!t.has_extended_header()) return json::raw("null");
    json j = json::obj();
    j.put("crc", json::num(t.extended_header().has_crc()));
    return j;
  }
  json observe_ext(const id3v2_4_tag &t) {
    if (!t.has_extended_header()) return json::raw("null");
    auto x = t.extended_header();
    json j = json::obj();
    j.put("crc", json::num(x.has_crc()));
    j.put("upd", json::num(x.is_update()));
    int r = -1;
    if (x.restricted()) {
      auto y = x.get_restrictions();
      typedef id3v2_4_tag T;
      auto z = std::get<0>(y);
      r = z == T::tag_size::restricted ? 0 : z == T::tag_size::more_restricted ? 64 :
        z == T::tag_size::very_restricted ? 128 : 192;
      r |= std::get<1>(y) ? 32 : 0;
      auto e = std::get<2>(y);
      r |= e == T::text_size::unrestricted ? 0 : e == T::text_size::restricted ? 8 :
        e == T::text_size::more_restricted ? 16 : 24;
      r |= std::get<3>(y) ? 4 : 0;
      auto i = std::get<4>(y);
      r |= i == T::image_size::unrestricted ? 0 : i == T::image_size::restricted ? 1 :
        i == T::image_size::more_restricted ? 2 : 3;
    }
    j.put("rst", json::num(r));
    return j;
  }

  json observe(id3v2_tag &t) {
    return with(t, [](auto &tag, auto v) {
      typedef decltype(v) V;
      const typename V::tag &c = tag;
      json j = json::obj();
      j.put("version", json::num(tag.version()));
      j.put("pad", json::unum(tag.padding()));
      j.put("flags", json::num(tag.flags()));
      j.put("ext", observe_ext(c));
      json fs = json::arr();
      for (auto p = c.begin(), q = c.end(); p != q; ++p) fs.add(observe_frame<V>(*p));
      j.put("frames", fs);
      return j;
    });
  }

  template <typename F> json attempt(F fn) {
    try { return json::hex(fn()); } catch (const std::exception &) { return json::raw("null"); }
  }

  json lookups(id3v2_tag &t, const args &ids) {
    return with(t, [&](auto &tag, auto v) {
      typedef decltype(v) V;
      json j = json::obj();
      j.put("num", json::unum(tag.num_frames()));
      json h = json::obj();
      for (std::size_t i = 1; i < ids.size(); ++i) {
        h.put(ids.str(i), json::unum(tag.has_frame(typename V::fid(ids.str(i).c_str()))));
      }
      j.put("has", h);
      json g = json::obj();
      for (std::size_t i = 1; i < ids.size(); ++i) {
        typename V::fid id(ids.str(i).c_str());
        if (tag.has_frame(id)) g.put(ids.str(i), json::str(tag.get_frame(id).id().as_string()));
      }
      j.put("get", g);
#define FLD(n) j.put("has_" #n, json::unum(tag.has_##n())); \
      j.put(#n, attempt([&]() { return tag.n(); }));
      FLD(album) FLD(artist) FLD(content_type) FLD(encoded_by) FLD(languages) FLD(title)
      FLD(track) FLD(year)
#undef FLD
      j.put("has_play_count", json::unum(tag.has_play_count()));
      try { j.put("play_count", json::unum(tag.play_count())); }
      catch (const std::exception &) { j.put("play_count", json::raw("null")); }
      json a = json::arr();
      std::vector<typename V::comm> cs;
      tag.get_comments(std::back_inserter(cs));
      for (const auto &x: cs) a.add(observe_frame<V>(x));
      j.put("comments", a);
      a = json::arr();
      std::vector<typename V::pcnt> ps;
      tag.get_play_counts(std::back_inserter(ps));
      for (const auto &x: ps) a.add(observe_frame<V>(x));
      j.put("play_counts", a);
      a = json::arr();
      std::vector<typename V::popm> ms;
      tag.get_popularimeters(std::back_inserter(ms));
      for (const auto &x: ms) a.add(observe_frame<V>(x));
      j.put("popms", a);
      return j;
    });
  }

  // apply op to the frame with its own static type (as a caller holding, say, a
  // comment would) or through a reference to the base class
  template <typename V, typename F>
  void typed(const typename V::frame &f, bool as_base, F op) {
    if (as_base) { op(f); return; }
    if (auto p = dynamic_cast<const typename V::text*>(&f)) op(*p);
    else if (auto p = dynamic_cast<const typename V::comm*>(&f)) op(*p);
    else if (auto p = dynamic_cast<const typename V::pcnt*>(&f)) op(*p);
    else if (auto p = dynamic_cast<const typename V::popm*>(&f)) op(*p);
    else op(f);
  }

  const json OK = json::raw("0");

  reg r_new("t.new", [](const args &a) {
    // SLOT VERSION PADDING EXPERIMENTAL EXTHEADER
    id3v2_tag *p;
    switch (a.num(1)) {
    case 2: p = V2::fresh(a.num(2), a.flag(3), (int) a.num(4)); break;
    case 3: p = V3::fresh(a.num(2), a.flag(3), (int) a.num(4)); break;
    default: p = V4::fresh(a.num(2), a.flag(3), (int) a.num(4)); break;
    }
    tags[a.str(0)].reset(p);
    return OK;
  });
  reg r_read("t.read", [](const args &a) {
    // SLOT BYTES HOW: read the first tag in the bytes; tell where reading ended
    std::istringstream is(a.text(1));
    std::unique_ptr<id3v2_tag> p;
    std::string how = a.size() > 2 ? a.str(2) : "maybe";
    if (how == "maybe") p = maybe_read_id3v2(is);
    else if (how == "index") p = read_id3v2(is, 0);
    else if (how == "ctor") {
      id3v2_info H = looking_at_id3v2(is);
      if (H.present_) {
        if (2 == H.version_) p.reset(new id3v2_2_tag(is));
        else if (3 == H.version_) p.reset(new id3v2_3_tag(is));
        else if (4 == H.version_) p.reset(new id3v2_4_tag(is));
      }
    } else throw driver_error("how?");
    json j = json::obj();
    j.put("found", json::boolean((bool) p));
    j.put("pos", json::num((long long) is.tellg()));
    j.put("state", json::num(is.rdstate()));
    j.put("mask", json::num(is.exceptions()));
    if (p) tags[a.str(0)] = std::move(p);
    return j;
  });
  reg r_push("t.push", [](const args &a) {
    // SLOT FRAME AS_BASE
    return with(t2_slot(a.str(0)), [&](auto &tag, auto v) {
      typedef decltype(v) V;
      auto f = make_frame<V>(parse_spec(a.str(1)));
      typed<V>(*f, a.flag(2), [&](const auto &x) { tag.push_back(x); });
      return OK;
    });
  });
  reg r_ins("t.ins", [](const args &a) {
    // SLOT INDEX FRAME AS_BASE -> index of the returned iterator
    return with(t2_slot(a.str(0)), [&](auto &tag, auto v) {
      typedef decltype(v) V;
      const typename V::tag &c = tag;
      auto f = make_frame<V>(parse_spec(a.str(2)));
      long n = -1;
      typed<V>(*f, a.flag(3), [&](const auto &x) {
        auto p = tag.insert(c.begin() + a.num(1), x);
        n = p - tag.begin();
      });
      return json::num(n);
    });
  });
  reg r_erase("t.erase", [](const args &a) {
    return with(t2_slot(a.str(0)), [&](auto &tag, auto v) {
      typedef decltype(v) V;
      const typename V::tag &c = tag;
      auto p = tag.erase(c.begin() + a.num(1));
      return json::num(p - tag.begin());
    });
  });
  reg r_eraser("t.eraser", [](const args &a) {
    return with(t2_slot(a.str(0)), [&](auto &tag, auto v) {
      typedef decltype(v) V;
      const typename V::tag &c = tag;
      auto p = tag.erase(c.begin() + a.num(1), c.begin() + a.num(2));
      return json::num(p - tag.begin());
    });
  });
  reg r_assign("t.set", [](const args &a) {
    // SLOT INDEX FRAME AS_BASE: assign through a mutable iterator
    return with(t2_slot(a.str(0)), [&](auto &tag, auto v) {
      typedef decltype(v) V;
      auto f = make_frame<V>(parse_spec(a.str(2)));
      typed<V>(*f, a.flag(3), [&](const auto &x) { *(tag.begin() + a.num(1)) = x; });
      return OK;
    });
  });
  reg r_remove("t.removeif", [](const args &a) {
    // SLOT ID: the erase/remove_if idiom
    return with(t2_slot(a.str(0)), [&](auto &tag, auto v) {
      typedef decltype(v) V;
      typename V::fid id(a.str(1).c_str());
      tag.erase(std::remove_if(tag.begin(), tag.end(),
                               [&](const typename V::frame &f) { return f.id() == id; }),
                tag.end());
      return OK;
    });
  });
  reg r_field("t.field", [](const args &a) {
    // SLOT FIELD TEXT
    id3v2_tag &t = t2_slot(a.str(0));
    const std::string &f = a.str(1);
    std::string x = a.text(2);
    if (f == "album") t.album(x);
    else if (f == "artist") t.artist(x);
    else if (f == "content_type") t.content_type(x);
    else if (f == "encoded_by") t.encoded_by(x);
    else if (f == "languages") t.languages(x);
    else if (f == "title") t.title(x);
    else if (f == "track") t.track(x);
    else if (f == "year") t.year(x);
    else throw driver_error("unknown field");
    return OK;
  });
  reg r_text("t.text", [](const args &a) {
    t2_slot(a.str(0)).text(field(a.str(1)), a.text(2));
    return OK;
  });
  reg r_gettext("t.gettext", [](const args &a) {
    return json::hex(t2_slot(a.str(0)).text(field(a.str(1))));
  });
  reg r_del("t.del", [](const args &a) {
    t2_slot(a.str(0)).delete_frame(field(a.str(1)));
    return OK;
  });
  reg r_comment("t.comment", [](const args &a) {
    // SLOT TEXT DESCRIPTION
    t2_slot(a.str(0)).add_comment(a.text(1), language::eng, encoding::UTF_8, use_unicode::no,
                                  a.text(2));
    return OK;
  });
  reg r_udt("t.udt", [](const args &a) {
    t2_slot(a.str(0)).add_user_defined_text(a.text(1), encoding::UTF_8, use_unicode::no,
                                            a.text(2));
    return OK;
  });
  reg r_pad("t.pad", [](const args &a) {
    t2_slot(a.str(0)).padding(a.num(1));
    return OK;
  });
  reg r_copy("t.copy", [](const args &a) {
    // FROM TO
    json j = with(t2_slot(a.str(0)), [&](auto &tag, auto v) {
      typedef decltype(v) V;
      tags[a.str(1)].reset(new typename V::tag(tag));
      return OK;
    });
    return j;
  });
  reg r_clone("t.clone", [](const args &a) {
    tags[a.str(1)].reset(t2_slot(a.str(0)).clone());
    return OK;
  });
  reg r_assigntag("t.assign", [](const args &a) {
    // FROM TO (of the same version)
    return with(t2_slot(a.str(0)), [&](auto &tag, auto v) {
      typedef decltype(v) V;
      auto p = dynamic_cast<typename V::tag*>(&t2_slot(a.str(1)));
      if (!p) throw driver_error("tags of different versions");
      *p = tag;
      return OK;
    });
  });
  reg r_drop("t.drop", [](const args &a) { tags.erase(a.str(0)); return OK; });
  reg r_obs("t.obs", [](const args &a) { return observe(t2_slot(a.str(0))); });
  reg r_look("t.look", [](const args &a) { return lookups(t2_slot(a.str(0)), a); });
  reg r_size("t.size", [](const args &a) {
    id3v2_tag &t = t2_slot(a.str(0));
    json j = json::obj();
    j.put("plain", json::unum(t.size(false)));
    j.put("unsync", json::unum(t.size(true)));
    j.put("needs", json::boolean(t.needs_unsynchronisation()));
    return j;
  });
  reg r_payloads("t.payloads", [](const args &a) {
    return payloads(t2_slot(a.str(0)));
  });
  reg r_write("t.write", [](const args &a) {
    // SLOT UNSYNC
    std::ostringstream os;
    std::size_t n = t2_slot(a.str(0)).write(os, a.flag(1));
    json j = json::obj();
    j.put("n", json::unum(n));
    j.put("bytes", json::hex(os.str()));
    return j;
  });
  reg r_reread("t.reread", [](const args &a) {
    // FROM TO UNSYNC: write the one, read what was written as the other
    std::stringstream ss;
    t2_slot(a.str(0)).write(ss, a.flag(2));
    std::unique_ptr<id3v2_tag> p = maybe_read_id3v2(ss);
    json j = json::obj();
    j.put("found", json::boolean((bool) p));
    j.put("pos", json::num((long long) ss.tellg()));
    j.put("len", json::unum(ss.str().size()));
    if (p) tags[a.str(1)] = std::move(p); else tags.erase(a.str(1));
    return j;
  });
  encoding enc(const std::string &s) {
    std::istringstream is(s);
    encoding e;
    is >> e;
    return e;
  }
  on_no_encoding rsp(const std::string &s) {
    return s == "fail" ? on_no_encoding::fail :
      s == "ignore" ? on_no_encoding::ignore : on_no_encoding::transliterate;
  }
  use_unicode uni(int n) {
    return 0 == n ? use_unicode::no : 1 == n ? use_unicode::yes : use_unicode::with_bom;
  }
  template <typename F> json try_hex(const F &f) {
    try { return json::hex(f()); }
    catch (const std::exception &e) { return json::raw("null"); }
  }
  template <typename T> void set_text(T &f, const std::string &x, encoding src, const std::string &, bool bom) {
    f.set(x, src, bom);
  }
  void set_text(id3v2_4_text_frame &f, const std::string &x, encoding src, const std::string &how, bool bom) {
    typedef id3v2_4_text_frame::frame_encoding E;
    f.set(x, src, how == "latin1" ? E::ISO_8859_1 : how == "utf16bom" ? E::UTF_16_BOM :
          how == "utf16be" ? E::UTF_16_BE : E::UTF_8, bom);
  }
  reg r_texts("t.texts", [](const args &a) {
    // SLOT INDEX DST RSP: the text (and description) of a frame, null when that is an error
    return with(t2_slot(a.str(0)), [&](auto &tag, auto v) {
      typedef decltype(v) V;
      const typename V::frame &F = *(tag.begin() + a.num(1));
      encoding d = enc(a.str(2));
      on_no_encoding r = rsp(a.str(3));
      json j = json::obj();
      if (auto p = dynamic_cast<const typename V::text*>(&F)) {
        j.put("text", try_hex([&]() { return p->template as_str<std::string>(d, r); }));
      } else if (auto p = dynamic_cast<const typename V::comm*>(&F)) {
        j.put("text", try_hex([&]() { return p->template text<std::string>(d, r); }));
        j.put("desc", try_hex([&]() { return p->template description<std::string>(d, r); }));
      } else if (auto p = dynamic_cast<const typename V::txxx*>(&F)) {
        j.put("text", try_hex([&]() { return p->template text<std::string>(d, r); }));
        j.put("desc", try_hex([&]() { return p->template description<std::string>(d, r); }));
      }
      return j;
    });
  });
  reg r_fieldx("t.fieldx", [](const args &a) {
    // SLOT FIELD TEXT SRC
    id3v2_tag &t = t2_slot(a.str(0));
    const std::string &f = a.str(1);
    std::string x = a.text(2);
    encoding e = enc(a.str(3));
    bool bom = a.flag(4);
    if (f == "album") t.album(x, e, bom);
    else if (f == "artist") t.artist(x, e, bom);
    else if (f == "title") t.title(x, e, bom);
    else t.text(field(f), x, e, bom);
    return OK;
  });
  reg r_getx("t.getx", [](const args &a) {
    // SLOT FIELD DST
    const id3v2_tag &t = t2_slot(a.str(0));
    const std::string &f = a.str(1);
    encoding e = enc(a.str(2));
    return json::hex(f == "album" ? t.album(e) : f == "artist" ? t.artist(e) :
                     f == "title" ? t.title(e) : t.text(field(f), e));
  });
  reg r_setx("t.setx", [](const args &a) {
    // SLOT INDEX TEXT SRC HOW BOM
    return with(t2_slot(a.str(0)), [&](auto &tag, auto v) {
      typedef decltype(v) V;
      typename V::frame &F = *(tag.begin() + a.num(1));
      set_text(dynamic_cast<typename V::text&>(F), a.text(2), enc(a.str(3)), a.str(4), a.flag(5));
      return OK;
    });
  });
  reg r_commx("t.commx", [](const args &a) {
    // SLOT TEXT DESCRIPTION SRC UNICODE
    t2_slot(a.str(0)).add_comment(a.text(1), language::eng, enc(a.str(3)), uni(a.num(4)), a.text(2));
    return OK;
  });
  reg r_udtx("t.udtx", [](const args &a) {
    t2_slot(a.str(0)).add_user_defined_text(a.text(1), enc(a.str(3)), uni(a.num(4)), a.text(2));
    return OK;
  });
  reg r_mutx("t.mutx", [](const args &a) {
    // SLOT INDEX text|desc TEXT SRC: change a comment
    return with(t2_slot(a.str(0)), [&](auto &tag, auto v) {
      typedef decltype(v) V;
      typename V::frame &F = *(tag.begin() + a.num(1));
      typename V::comm &C = dynamic_cast<typename V::comm&>(F);
      if (a.str(2) == "text") C.comments::text(a.text(3), enc(a.str(4)));
      else C.comments::description(a.text(3), enc(a.str(4)));
      return OK;
    });
  });
  reg r_xstr("x.str", [](const args &a) {
    // BYTES SRC DST RSP
    bytes b = a.hex(0);
    return try_hex([&]() {
      return convert_encoding<std::string>(b.data(), b.size(), enc(a.str(1)), enc(a.str(2)), rsp(a.str(3)));
    });
  });
  reg r_xvec("x.vec", [](const args &a) {
    // TEXT SRC DST BOM RSP
    return try_hex([&]() {
      return convert_encoding(a.text(0), enc(a.str(1)), enc(a.str(2)), a.flag(3), rsp(a.str(4)));
    });
  });
  reg r_mut("t.mut", [](const args &a) {
    // SLOT INDEX WHAT ARG: change a frame in place
    return with(t2_slot(a.str(0)), [&](auto &tag, auto v) {
      typedef decltype(v) V;
      typename V::frame &F = *(tag.begin() + a.num(1));
      const std::string &what = a.str(2);
      if (what == "count") {
        if (auto p = dynamic_cast<typename V::pcnt*>(&F)) p->count(a.unum(3));
        else dynamic_cast<typename V::popm&>(F).count(a.unum(3));
      } else if (what == "inc") {
        if (auto p = dynamic_cast<typename V::pcnt*>(&F)) p->inc();
        else dynamic_cast<typename V::popm&>(F).inc();
      } else if (what == "getcount") {
        if (auto p = dynamic_cast<typename V::pcnt*>(&F)) return json::unum(p->count());
        else return json::unum(dynamic_cast<typename V::popm&>(F).count());
      } else if (what == "rating") {
        dynamic_cast<typename V::popm&>(F).rating((unsigned char) a.num(3));
      } else if (what == "ctext") {
        dynamic_cast<typename V::comm&>(F).comments::text(a.text(3), encoding::UTF_8);
      } else if (what == "cdesc") {
        dynamic_cast<typename V::comm&>(F).comments::description(a.text(3), encoding::UTF_8);
      } else if (what == "text") {
        dynamic_cast<typename V::text&>(F).set(a.text(3));
      } else if (what == "cloud") {
        dynamic_cast<typename V::xtag&>(F).update(a.text(3));
      } else throw driver_error("what?");
      return OK;
    });
  });
  reg r_big("t.big", [](const args &a) {
    // SLOT ID HEAD N: append an unknown frame: the bytes given, then N times 0x41
    return with(t2_slot(a.str(0)), [&](auto &tag, auto v) {
      typedef decltype(v) V;
      frame_spec s;
      s.kind = "unknown";
      s.id = a.str(1);
      s.data = a.hex(2);
      s.data.resize(s.data.size() + a.num(3), 0x41);
      tag.push_back(*make_frame<V>(s));
      return OK;
    });
  });
  reg r_digest("t.digest", [](const args &a) {
    // SLOT UNSYNC: what would be written, in brief
    std::ostringstream os;
    std::size_t n = t2_slot(a.str(0)).write(os, a.flag(1));
    std::string b = os.str();
    json j = json::obj();
    j.put("n", json::unum(n));
    j.put("len", json::unum(b.size()));
    j.put("head", json::hex(b.substr(0, 64)));
    unsigned char md[16];
    unsigned int cb = sizeof md;
    EVP_Digest(b.data(), b.size(), md, &cb, EVP_md5(), nullptr);
    j.put("md5", json::hex(bytes(md, md + 16)));
    return j;
  });
  reg r_frame("f2.write", [](const args &a) {
    // VERSION FRAME UNSYNC: a frame on its own
    auto go = [&](auto v) {
      typedef decltype(v) V;
      auto f = make_frame<V>(parse_spec(a.str(1)));
      std::ostringstream os;
      json j = json::obj();
      j.put("size", json::unum(f->size()));
      f->write(os, a.flag(2));
      j.put("bytes", json::hex(os.str()));
      return j;
    };
    switch (a.num(0)) {
    case 2: return go(V2());
    case 3: return go(V3());
    default: return go(V4());
    }
  });

}

id3v2_tag& t2_slot(const std::string &s) {
  auto p = tags.find(s);
  if (p == tags.end() || !p->second) throw std::runtime_error("no such ID3v2 slot");
  return *p->second;
}

std::unique_ptr<id3v2_tag>& t2_ref(const std::string &s) { return tags[s]; }
