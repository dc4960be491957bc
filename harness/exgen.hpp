// Programs of the expression language without type discipline, and bundles for them to run on.
#pragma once
#include "model.hpp"

namespace exgen {
struct Fn {
    std::string name;
    int req, opt; // opt < 0: any number
};
const std::vector<Fn> &functions();

MBundle bundle(pt::Ctx &c);
std::string program(pt::Ctx &c);   // by the grammar
std::string call(pt::Ctx &c);      // one call of one function with any arguments
std::string soup(pt::Ctx &c);      // tokens, in any order
std::string raw(pt::Ctx &c);       // bytes
std::string mutant(pt::Ctx &c);    // a program with some edits
// a program that may legitimately need a lot of memory or a deep stack
bool may_grow(const std::string &text, const std::string &bndl);
} // namespace exgen
