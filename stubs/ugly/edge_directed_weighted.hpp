#ifndef STUB_UGLY_EDW
#define STUB_UGLY_EDW
#include <memory>
#include <list>
#include <vector>
#include <set>
#include <string>
#include <unordered_map>
#include <utility>
namespace ugly {
// enough of an edge to say which it is: the vertices and the weight handed to the graph library
class Edge { public: int from_; int to_; double weight_; virtual ~Edge(); int getOtherVertex(int v) const { return v == from_ ? to_ : from_; } int getVertex1() const { return from_; } int getVertex2() const { return to_; } };
class EdgeDirectedWeighted : public Edge { public: EdgeDirectedWeighted(int from,int to,double weight) { from_ = from; to_ = to; weight_ = weight; } double getWeight() const { return weight_; } };
}
#endif
