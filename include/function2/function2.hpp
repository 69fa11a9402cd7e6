// Minimal offline stand-in for the one name of the (absent) function2
// submodule that /repo uses: fu2::unique_function<R(Args...)>, a move-only
// callable wrapper.  Semantics follow function2: default constructed empty,
// nullptr-constructible, explicit bool, moved-from is empty, calling an empty
// one aborts.  Like function2, it has no small-object guarantee we rely on.
#pragma once
#include <cstdlib>
#include <functional>
#include <memory>
#include <type_traits>
#include <utility>

namespace fu2 {
template <typename... Sigs> class unique_function;

template <typename R, typename... Args>
class unique_function<R(Args...)> {
  struct base {
    virtual ~base() = default;
    virtual R call(Args... args) = 0;
  };
  template <typename F>
  struct impl final : base {
    F f;
    template <typename U>
    explicit impl(std::in_place_t, U&& u) : f(std::forward<U>(u)) {}
    R call(Args... args) override {
      if constexpr (std::is_void_v<R>)
        std::invoke(f, std::forward<Args>(args)...);
      else
        return std::invoke(f, std::forward<Args>(args)...);
    }
  };
  std::unique_ptr<base> p_;

 public:
  unique_function() = default;
  unique_function(std::nullptr_t) {}
  unique_function(unique_function&&) noexcept = default;
  unique_function& operator=(unique_function&&) noexcept = default;
  unique_function& operator=(std::nullptr_t) {
    p_.reset();
    return *this;
  }
  template <typename F,
            typename = std::enable_if_t<
                !std::is_same_v<std::decay_t<F>, unique_function> &&
                std::is_invocable_r_v<R, std::decay_t<F>&, Args...>>>
  unique_function(F&& f)
      : p_(std::make_unique<impl<std::decay_t<F>>>(std::in_place,
                                                   std::forward<F>(f))) {}
  template <typename F,
            typename = std::enable_if_t<
                !std::is_same_v<std::decay_t<F>, unique_function> &&
                std::is_invocable_r_v<R, std::decay_t<F>&, Args...>>>
  unique_function& operator=(F&& f) {
    unique_function tmp(std::forward<F>(f));
    p_ = std::move(tmp.p_);
    return *this;
  }
  explicit operator bool() const noexcept { return p_ != nullptr; }
  R operator()(Args... args) {
    if (!p_) std::abort();
    return p_->call(std::forward<Args>(args)...);
  }
};
}  // namespace fu2
