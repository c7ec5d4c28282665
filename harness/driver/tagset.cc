// Updates of the tagset of a file: s.copy, s.emplace, s.maybe
#include "driver.hh"
#include "id3v2.hh"

#include <scribbu/tagset.hh>

using namespace scribbu;

static apply_unsync how(const std::string &s) {
  if (s == "never") return apply_unsync::never;
  if (s == "always") return apply_unsync::always;
  if (s == "needed") return apply_unsync::as_needed;
  throw driver_error("unsync " + s);
}

static std::vector<id3v2_tag*> tags(const args &a, std::size_t i) {
  std::vector<id3v2_tag*> v;
  for ( ; i < a.size(); ++i) v.push_back(&t2_slot(a.str(i)));
  return v;
}

// s.copy FILE UNSYNC BACKUP SLOT...
static reg r_copy("s.copy", [](const args &a) {
  auto v = tags(a, 3);
  replace_tagset_copy(a.str(0), v.begin(), v.end(), how(a.str(1)), a.flag(2));
  return json::raw("0");
});

// s.emplace FILE UNSYNC SLOT...
static reg r_emplace("s.emplace", [](const args &a) {
  auto v = tags(a, 2);
  replace_tagset_emplace(a.str(0), v.begin(), v.end(), how(a.str(1)));
  return json::raw("0");
});

// s.maybe FILE UNSYNC full|reduce BACKUP SLOT...
static reg r_maybe("s.maybe", [](const args &a) {
  auto v = tags(a, 4);
  maybe_emplace_tagset(a.str(0), v.begin(), v.end(), how(a.str(1)),
                       a.str(2) == "full" ? emplace_strategy::only_with_full_padding
                                          : emplace_strategy::reduce_padding_evenly,
                       padding_strategy::adjust_padding_evenly, a.flag(3));
  return json::raw("0");
});
