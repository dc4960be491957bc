// reference text formatter: the documented layout of values, messages and bundles
#pragma once
#include "model.hpp"
std::string fmt_double(double d);
std::string fmt_quoted(const std::string &s);   // "..." with backslashes before quotes and backslashes
std::string fmt_value(const MAtom &a);          // as a string value (strings unquoted); "" for bundles
std::string fmt_atom(const MAtom &a, int indent = 0);
std::string fmt_msg(const MMsg &m, int indent = 0);
std::string fmt_bundle(const MBundle &b, int indent = 0);
void civil_from_days(int64_t days_since_1900, int &y, int &m, int &d);
int64_t days_from_civil(int y, int m, int d);   // since 1900-01-01
std::string fmt_time(uint32_t sec, uint32_t frac);
