// Contracts for the real oclint functions are C++ functions in the same translation unit as the code
// they specify.  cppvc reads these annotations; the compiler sees ordinary functions.
#ifndef CPPVC_H
#define CPPVC_H
#include <cassert>
#include <cstdlib>
#include <map>
#include <set>
#include <string>
#include <vector>
// a contract: result and post-state of this program are those the target must have
#define CONTRACT(target) __attribute__((annotate("contract:" target)))
// a contract that callers may use but that this unit does not verify (library code, or verified in another unit)
#define ASSUME(target) __attribute__((annotate("assume:" target)))
// a recursive specification function; candidates for loop invariants are built from these
#define LOGIC __attribute__((annotate("logic")))
// the two parameters (numbered from 0) are given the ends of what an accessor of one object ranges over
#define RANGE(first, last, begin) __attribute__((annotate("range:" #first ":" #last ":" begin)))
// a class invariant
#define INVARIANT(cls) __attribute__((annotate("invariant:" cls)))
// a lemma over logic functions, proved by induction on its first parameter and then used
#define LEMMA __attribute__((annotate("lemma")))
#define REQUIRES(c) cppvc::requires_(c)
namespace cppvc {
inline void requires_(bool) {}
// the place takes this value, whatever their C++ types
// the contract leaves this field open, in every object
template <typename T> void unspecified(T&) {}
// the elements of a set, or the keys of a map, in order
template <typename K, typename C, typename A> std::vector<K> keys(const std::set<K, C, A>& s) { return std::vector<K>(s.begin(), s.end()); }
template <typename K, typename V, typename C, typename A> std::vector<K> keys(const std::map<K, V, C, A>& m) { std::vector<K> r; for (auto& p : m) r.push_back(p.first); return r; }
// the object whose accessor gave the iterator
template <typename T, typename I> const T* owner(I) { return nullptr; }
// the object made by the n-th `new T` since the function began
template <typename T> T* nth_new(int n) { return nullptr; }
template <typename T, typename U> void become(T&, const U&) {}
template <typename T> std::vector<T> append(std::vector<T> v, const T& x) { v.push_back(x); return v; }
template <typename T> std::vector<T> concat(std::vector<T> a, const std::vector<T>& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
}
#endif
