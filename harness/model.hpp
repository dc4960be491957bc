// An independent model of OSC data: what a bundle contains, its wire bytes, and generators for it.
#pragma once
#include "pt.hpp"
#include <cmath>
#include <memory>
#include <string>
#include <vector>
#include "libo.hpp"

struct MMsg;
struct MAtom {
    char tt = 'N';
    int64_t i = 0;   // every integer type ('H' as its two's complement)
    double d = 0;    // 'd'
    float f = 0;     // 'f'
    std::string s;   // 's' or 'b' (the blob's bytes)
    uint32_t sec = 0, frac = 0; // 't'
    std::vector<MMsg> b;        // '.'
};
struct MMsg {
    std::string addr;
    std::vector<MAtom> args;
};
typedef std::vector<MMsg> MBundle;

bool operator==(const MAtom &a, const MAtom &b);
bool operator==(const MMsg &a, const MMsg &b);
inline bool operator!=(const MAtom &a, const MAtom &b) { return !(a == b); }
inline bool operator!=(const MMsg &a, const MMsg &b) { return !(a == b); }

MAtom mk_i(int32_t v);
MAtom mk_d(double v);
MAtom mk_f(float v);
MAtom mk_s(const std::string &v);
MAtom mk(char tt, int64_t v = 0);
MAtom mk_t(uint32_t sec, uint32_t frac);
MAtom mk_bndl(const MBundle &b);

std::string dump(const MAtom &a);
std::string dump(const MMsg &m);
std::string dump(const MBundle &b);

// the wire format, from the OSC 1.0 text and libo's typetags
std::string enc(const MAtom &a);
std::string enc_msg(const MMsg &m);    // without the size
std::string enc_bundle(const MBundle &b, uint64_t tt = 0);
std::string be32(uint32_t v);
std::string be64(uint64_t v);
std::string padstr(const std::string &s); // the string, its NUL, and padding to 4

// reference decoder: false when the bytes are not a well-formed bundle
bool dec_bundle(const std::string &bytes, MBundle &out, uint64_t *tt = nullptr, int depth = 0);

// ---- generators
struct GenOpt {
    std::string types = "ifdshHIcCuUTFNtb.";
    int max_msgs = 5;
    int max_args = 5;
    int depth = 2;          // nesting of sub-bundles
    int max_str = 12;
    bool any_bytes = true;  // strings with any byte but NUL; otherwise printable ASCII
    bool special_floats = true;
    bool deep_addr = true;
    const char *seg_chars = nullptr; // characters of address segments
    bool unique_addr = false;
    bool empty_args = true;
    int max_blob = 9;
    int big = 1;            // percentage of large strings, blobs, addresses, argument lists and bundles
    size_t big_max = 9000;  // longest of them, in characters
    int big_depth = 20;     // deepest of the nested bundles
    int big_count = 150;    // most of them, in arguments or messages
};
size_t gen_edge(pt::Ctx &c, size_t max); // a length at or next to a power of two, 16 or more
std::string gen_seg(pt::Ctx &c, const GenOpt &o);
std::string gen_addr(pt::Ctx &c, const GenOpt &o);
std::string gen_string(pt::Ctx &c, const GenOpt &o);
int64_t gen_int(pt::Ctx &c, char tt);
double gen_double(pt::Ctx &c, bool special);
int gen_truth(pt::Ctx &c); // any int that counts as true
MAtom gen_atom(pt::Ctx &c, const GenOpt &o, int depth, char tt = 0);
MMsg gen_msg(pt::Ctx &c, const GenOpt &o, int depth);
MBundle gen_bundle(pt::Ctx &c, const GenOpt &o, int depth);
inline MBundle gen_bundle(pt::Ctx &c, const GenOpt &o) { return gen_bundle(c, o, o.depth); }

// ---- to and from the library's objects
t_osc_atom_u *build_atom(const MAtom &a);
t_osc_atom_u *make_atom(const MAtom &a); // by the constructor for the type, where there is one
t_osc_msg_u *build_msg(const MMsg &m);
t_osc_bndl_u *build_bundle(const MBundle &b);
void spellable(MBundle &b); // makes it what text can spell: characters that are neither NUL nor a newline, numbers that are numbers
// a bundle that comes from its bytes, from its text, ...; b becomes what it reads as
t_osc_bndl_u *come_by_bundle(pt::Ctx &c, MBundle &b);
MAtom read_atom(t_osc_atom_u *a);
MMsg read_msg(t_osc_msg_u *m);
MBundle read_bundle(t_osc_bndl_u *b);

// what the bytes of a serialised bundle say, by the reference decoder; fails the case when they are malformed
MBundle must_decode(pt::Ctx &c, const char *what, const char *ptr, long len);

std::string typestring(const MMsg &m);
bool is_pow2(long v);

// heap copy with exact size, so that an over-read is seen
struct Buf {
    char *p;
    long n;
    explicit Buf(const std::string &s);
    ~Buf();
    Buf(const Buf &) = delete;
};
