#ifndef STUB_UGLY_GRAPH
#define STUB_UGLY_GRAPH
#include <list>
#include <memory>
#include <unordered_map>
#include "edge_directed_weighted.hpp"
#include "graph_node.hpp"
namespace ugly { template<typename... Ts> class Graph { public: template<class N> Graph(std::list<std::weak_ptr<Edge>>, N); }; }
#endif
