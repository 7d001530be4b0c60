#ifndef STUB_UGLY_ALG
#define STUB_UGLY_ALG
#include "graph.hpp"
#include "pair_hash.hpp"
namespace ugly { namespace graphalgorithms { template<class T> std::unordered_map<std::pair<int,int>,double,hash_functions::hash> maxMinimumDistanceBetweenEveryVertex(Graph<T>&); } }
#endif
