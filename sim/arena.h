// Shared arena: everything the simulator must keep across simulated program instances (the virtual
// file system, the choice log, the clock, the trace) lives in one MAP_SHARED mapping at a fixed
// address, so that a forked instance that dies at an arbitrary point leaves exactly what it had done.
#pragma once
#include <cstddef>
#include <cstdint>
#include <map>
#include <string>
#include <string_view>
#include <vector>

namespace sim {

void *aalloc(size_t n);
void afree(void *p, size_t n);
void arena_map(size_t bytes);  // once per worker
void arena_reset();            // before every run: drops all pages, constructs a fresh Sim

template <class T> struct AA {
	typedef T value_type;
	AA() {}
	template <class U> AA(const AA<U> &) {}
	T *allocate(size_t n) { return static_cast<T *>(aalloc(n * sizeof(T))); }
	void deallocate(T *p, size_t n) { afree(p, n * sizeof(T)); }
	template <class U> bool operator==(const AA<U> &) const { return true; }
	template <class U> bool operator!=(const AA<U> &) const { return false; }
};

typedef std::basic_string<char, std::char_traits<char>, AA<char>> AStr;
template <class T> using AVec = std::vector<T, AA<T>>;
struct SvLess {
	typedef void is_transparent;
	template <class A, class B> bool operator()(const A &a, const B &b) const
	{
		return std::string_view(a.data(), a.size()) < std::string_view(b.data(), b.size());
	}
};
template <class V> using AMap = std::map<AStr, V, SvLess, AA<std::pair<const AStr, V>>>;

} // namespace sim
