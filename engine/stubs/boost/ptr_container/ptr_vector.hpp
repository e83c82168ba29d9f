// The real container, with a function a harness may set that sees the elements just before
// they are destroyed (so that objects local to a function under test can be examined).
#ifndef VERIF_PTR_VECTOR_HPP
#define VERIF_PTR_VECTOR_HPP
#include <functional>
#include <vector>
#define ptr_vector ptr_vector_real
#include_next <boost/ptr_container/ptr_vector.hpp>
#undef ptr_vector
namespace boost {
template <class T> struct ptr_watch {
  static std::function<void(const std::vector<T *> &)> &fn() { static std::function<void(const std::vector<T *> &)> f; return f; }
};
template <class T, class C = heap_clone_allocator, class A = void> class ptr_vector : public ptr_vector_real<T, C, A> {
  typedef ptr_vector_real<T, C, A> real;
public:
  using real::real;
  ptr_vector() {}
  ~ptr_vector() {
    if (!ptr_watch<T>::fn()) return;
    std::vector<T *> v;
    for (size_t i = 0; i < this->size(); i++) v.push_back(&(*this)[i]);
    ptr_watch<T>::fn()(v);
  }
};
}
#endif
