#pragma once
#include <functional>
#include <string>
// stingray::function does not take lambdas; it takes std::function
template < typename Sig, typename F >
std::function<Sig> fn(F f) { return std::function<Sig>(f); }
// (include after pbt.h)
#ifdef PROP
#include <vector>
inline std::vector<unsigned char> u8s(pbt::Src& s, size_t max) { const std::string b = s.bytes(max); return std::vector<unsigned char>(b.begin(), b.end()); }
#endif
