// OSC address patterns as token lists, and a matcher over the tokens (independent of the library's scanner)
#pragma once
#include "pt.hpp"
#include <string>
#include <vector>
struct PTok {
    enum K { LIT, ANY, STAR, SET, ALT } k = LIT;
    char c = 0;
    bool neg = false;
    std::vector<std::pair<char, char>> items; // SET: inclusive ranges, in either order
    std::vector<std::string> alts;            // ALT
};
typedef std::vector<PTok> PSeg;
std::string render(const PSeg &s);
std::string render(const std::vector<PSeg> &p);
bool seg_match(const PSeg &p, const std::string &s);
std::vector<std::string> split_addr(const std::string &a);      // "/a/b" -> {a, b}
PSeg lit_seg(const std::string &s);
struct MatchRes { int r, po, ao; };
// text: the pattern as written (default: rendered), for the offsets
MatchRes ref_match(const std::vector<PSeg> &pat, const std::string &addr, const std::string *text = nullptr);
MatchRes ref_match_plain(const std::string &pat, const std::string &addr); // a pattern without wildcards
PSeg gen_pseg(pt::Ctx &c, const char *chars);
std::string gen_instance(pt::Ctx &c, const PSeg &p, const char *chars); // usually a string the segment matches
// parse a well-formed pattern string (literals, ?, *, sets, alternatives); false when malformed
bool parse_pattern(const std::string &s, std::vector<PSeg> &out);
