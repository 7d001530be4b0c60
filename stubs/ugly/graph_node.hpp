#ifndef STUB_UGLY_NODE
#define STUB_UGLY_NODE
#include <string>
namespace ugly { template<class T> class GraphNode { public: GraphNode(const char*); GraphNode(std::string); GraphNode(); }; }
#endif
