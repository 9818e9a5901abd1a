#ifndef CUEMU_THRUST_H
#define CUEMU_THRUST_H
#include "../cuda_runtime.h"
#include <type_traits>
#include <utility>
namespace thrust
{
template<class T> struct device_ptr
{
	T* p;
	typedef typename std::remove_const<T>::type V;
	explicit device_ptr(T* q = nullptr) : p(q) {}
	template<class U> device_ptr(const device_ptr<U>& o) : p(o.p) {}
	T* get() const { return p; }
	device_ptr operator+(std::ptrdiff_t n) const { return device_ptr(p + n); }
	device_ptr operator-(std::ptrdiff_t n) const { return device_ptr(p - n); }
	std::ptrdiff_t operator-(const device_ptr& o) const { return p - o.p; }
	bool operator==(const device_ptr& o) const { return p == o.p; }
	bool operator!=(const device_ptr& o) const { return p != o.p; }
	V operator[](std::ptrdiff_t n) const { V v; cudaMemcpy(&v, p + n, sizeof v, cudaMemcpyDeviceToHost); return v; }
	V operator*() const { return (*this)[0]; }
};
template<class T> device_ptr<T> device_pointer_cast(T* p) { return device_ptr<T>(p); }
template<class T> T* raw_pointer_cast(const device_ptr<T>& p) { return p.p; }
template<class A, class B> struct pair : public std::pair<A, B>
{
	pair(const A& a, const B& b) : std::pair<A, B>(a, b) {}
};
template<class T, class V> void fill(device_ptr<T> a, device_ptr<T> b, const V& v)
{
	cuemu::synchronous([&]() { std::fill(a.p, b.p, v); });
}
template<class T, class S, class V> void fill_n(device_ptr<T> a, S n, const V& v) { fill(a, a + n, v); }
template<class T> pair<device_ptr<T>, device_ptr<T>> minmax_element(device_ptr<T> a, device_ptr<T> b)
{
	std::pair<T*, T*> r;
	cuemu::synchronous([&]() { r = std::minmax_element(a.p, b.p); });
	return pair<device_ptr<T>, device_ptr<T>>(device_ptr<T>(r.first), device_ptr<T>(r.second));
}
template<class T> device_ptr<T> max_element(device_ptr<T> a, device_ptr<T> b)
{
	T* r;
	cuemu::synchronous([&]() { r = std::max_element(a.p, b.p); });
	return device_ptr<T>(r);
}
template<class T> device_ptr<T> min_element(device_ptr<T> a, device_ptr<T> b)
{
	T* r;
	cuemu::synchronous([&]() { r = std::min_element(a.p, b.p); });
	return device_ptr<T>(r);
}
}
#endif
