// A recording allocator behind osc_set_mem().
// In modules with a "redefine:" line the library's own references to malloc() and its relatives come
// here too (see the libo_ functions in guard.cpp), so that the two can be told apart.
#pragma once
#include "model.hpp"

namespace guard {
void install();                       // once per process
void begin(unsigned char fill);       // forget and free earlier blocks; new memory has this value
void adopt();                         // what is live now was made for good: forget it, but do not free it
void limit(size_t single, size_t total, size_t stack); // throws pt::Discard (or Fail when !growth_ok)
extern bool growth_ok;
size_t live_blocks();                 // from the installed functions and from malloc()
size_t live_bytes();
std::string live();                   // sizes and contents of some of them
std::string problem();                // foreign free / resize, or ""
void release();                       // free what is left
long allocs();                        // blocks handed out by the installed functions
long raw_calls();                     // calls of malloc(), free(), ... by the library itself
std::string raw_what();               // the first of them
} // namespace guard
