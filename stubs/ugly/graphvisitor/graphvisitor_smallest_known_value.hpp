#ifndef STUB_UGLY_GVS
#define STUB_UGLY_GVS
#include <cstddef>
#include <memory>
#include <vector>
#include "graphvisitor_largest_known_value.hpp"
namespace ugly {

class GraphVisitorSmallestKnownValue : public GraphVisitor {};
}
#endif
