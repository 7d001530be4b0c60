#ifndef STUB_UGLY_GVL
#define STUB_UGLY_GVL
#include <cstddef>
#include <memory>
#include <vector>
#include "../edge_directed_weighted.hpp"
namespace ugly {
class GraphVisitor { public: void setStartingVertex(int); bool allEdgesExplored(); template<class E> std::weak_ptr<E> getNextEdge(); int chooseTerminalVertex(std::weak_ptr<Edge>); void exploreEdge(std::weak_ptr<Edge>); std::size_t countExploredVertices(); std::vector<int> getExploredVertices(); bool edgeCanBeAdded(std::weak_ptr<Edge>); void addEdge(std::weak_ptr<Edge>); };
class GraphVisitorLargestKnownValue : public GraphVisitor {};
}
#endif
