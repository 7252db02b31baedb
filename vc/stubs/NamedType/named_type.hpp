// Stand-in for the NamedType submodule (absent in this sandbox): a strong typedef wrapper holding exactly the underlying value.
#pragma once
#include <utility>
#define FLUENT_NODISCARD
#define FLUENT_CONSTEXPR17
namespace fluent {
template <typename T, template <typename> class S> struct crtp {
  T& underlying() { return static_cast<T&>(*this); }
  T const& underlying() const { return static_cast<T const&>(*this); }
};
template <typename T> struct Callable : crtp<T, Callable> {};
template <typename T> struct Comparable : crtp<T, Comparable> {
  bool operator==(T const& o) const { return this->underlying().get() == o.get(); }
  bool operator!=(T const& o) const { return !(this->underlying().get() == o.get()); }
  bool operator<(T const& o) const { return this->underlying().get() < o.get(); }
};
template <typename T> struct BinaryAddable : crtp<T, BinaryAddable> { T operator+(T const& o) const { return T(this->underlying().get() + o.get()); } T& operator+=(T const& o) { this->underlying().get() += o.get(); return this->underlying(); } };
template <typename T> struct Subtractable : crtp<T, Subtractable> { T operator-(T const& o) const { return T(this->underlying().get() - o.get()); } T operator-() const { return T(-this->underlying().get()); } T& operator-=(T const& o) { this->underlying().get() -= o.get(); return this->underlying(); } };
template <typename T, typename Tag, template <typename> class... Skills>
class NamedType : public Skills<NamedType<T, Tag, Skills...>>... {
public:
  using UnderlyingType = T;
  NamedType() = default;
  explicit NamedType(T const& v) : value_(v) {}
  explicit NamedType(T&& v) : value_(std::move(v)) {}
  T& get() { return value_; }
  T const& get() const { return value_; }
  operator T&() { return value_; }
  operator T const&() const { return value_; }
  T* operator->() { return &value_; }
  T const* operator->() const { return &value_; }
private:
  T value_;
};
}
