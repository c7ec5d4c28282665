#ifndef DRIVER_ID3V2_HH
#define DRIVER_ID3V2_HH

#include <memory>
#include <string>

#include <scribbu/id3v2.hh>

// the ID3v2 tag held in a named slot
scribbu::id3v2_tag& t2_slot(const std::string &s);
std::unique_ptr<scribbu::id3v2_tag>& t2_ref(const std::string &s);

#endif
