// Running the expression language on the real code, and a reference for what it should give.
#pragma once
#include "model.hpp"

namespace ex {
typedef std::vector<MAtom> VList;

struct Run {
    bool parsed = false; // the parser accepted the text and gave at least one expression
    int n = 0;           // expressions evaluated
    int err = 0;         // error of the last one evaluated
    bool has_out = false;
    VList out;           // value of the last one evaluated
    std::string bndl;    // bundle afterwards
};
// parse `text`, evaluate its expressions one after the other until one fails
Run run(const std::string &text, const std::string &bndl);

struct Err {}; // the reference says: evaluation reports an error

inline bool isflt(char t) { return t == 'f' || t == 'd'; }
inline bool isint(char t) { return t && strchr("iIhHuUcC", t); }
inline bool isbool(char t) { return t == 'T' || t == 'F'; }
inline bool isnum(char t) { return isflt(t) || isint(t) || isbool(t); }
int rank(char t);              // width order of the types: N T F c C u U i I h H f d s
double num(const MAtom &a);    // numeric value as a double
int64_t inum(const MAtom &a);  // integer value of an integer or boolean ('H' as two's complement)
int64_t trunc_to(char t, int64_t v);
bool same(const MAtom &a, const MAtom &b);            // same type and payload; NaNs are equal
bool same(const VList &a, const VList &b);
bool close_enough(double a, double b, double tol);    // equal, both NaN, or within tol relative/absolute
std::string dump(const VList &l);

// text of a literal, or "" when the value has no literal form
std::string lit(const MAtom &a);

MAtom add(const MAtom &a, const MAtom &b);
MAtom sub(const MAtom &a, const MAtom &b);
MAtom mul(const MAtom &a, const MAtom &b);
MAtom div(const MAtom &a, const MAtom &b);
MAtom mod(const MAtom &a, const MAtom &b);
MAtom cmp(const std::string &op, const MAtom &a, const MAtom &b); // "<" ...
VList zip(MAtom (*f)(const MAtom &, const MAtom &), const VList &a, const VList &b);

// generators
int64_t small_int(pt::Ctx &c, char t);
MAtom gen_num(pt::Ctx &c, const char *types, bool special);
VList gen_list(pt::Ctx &c, const char *types, int lo, int hi, bool special);
// an operand text for `l`: the address (which the caller binds to l), or a literal when l has one and chance says so
std::string operand(pt::Ctx &c, const char *addr, const VList &l);
} // namespace ex
