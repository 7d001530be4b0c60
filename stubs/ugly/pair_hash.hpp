// Declaration-only stand-in for the absent UGLY submodule; used only to parse, never linked.
#ifndef STUB_UGLY_PAIR_HASH
#define STUB_UGLY_PAIR_HASH
#include <cstddef>
#include <utility>
namespace hash_functions { struct hash { template<class A,class B> std::size_t operator()(const std::pair<A,B>&) const; }; }
#endif
