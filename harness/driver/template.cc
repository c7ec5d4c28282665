// Naming templates
#include "driver.hh"

#include <scribbu/id3v2-utils.hh>

// tpl TEMPLATE FILE (both in hex)
static reg r1("tpl", [](const args &a) {
  scribbu::template_processor t(a.size() > 1 ? a.text(1) : std::string());
  return json::hex(t(a.text(0)));
});
