// Sequences of API calls in which the caller frees everything it owns exactly once.
#pragma once
#include "model.hpp"

namespace ops {
// families of calls; each makes its objects, works on them and frees them
void values(pt::Ctx &c);
void messages(pt::Ctx &c);
void bundles(pt::Ctx &c);
void serialised(pt::Ctx &c);
void text(pt::Ctx &c);
void selection(pt::Ctx &c);
void expressions(pt::Ctx &c);
void containers(pt::Ctx &c);
void warm_up(); // what the library makes once and keeps
} // namespace ops
