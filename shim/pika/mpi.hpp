#pragma once
#include <mpi.h>
#include <pika/execution.hpp>
#include <pika/runtime.hpp>

namespace pika::mpi::experimental {
enum class exception_mode { no_handler, install_handler };
inline void start_polling(exception_mode = exception_mode::no_handler, std::string = "") {
  ++pika::vshim::state().polling;
  ++pika::vshim::state().poll_starts;
}
inline void stop_polling() {
  --pika::vshim::state().polling;
  ++pika::vshim::state().poll_stops;
}
inline std::string get_pool_name() { return pika::vshim::state().pool; }
inline void register_polling() {}

namespace detail {
namespace exd = ::pika::execution::experimental::detail;
template <class S, class F>
struct mpi_sender {
  using in = exd::sends_t<S>;
  template <class L>
  struct res;
  template <class... Ts>
  struct res<exd::list<Ts...>> {
    using type = std::invoke_result_t<F, std::decay_t<Ts>&..., MPI_Request*>;
  };
  using result = typename res<in>::type;
  static constexpr bool is_void = std::is_void_v<result> || std::is_same_v<result, int>;
  using sends = std::conditional_t<is_void, exd::list<>, exd::list<std::conditional_t<std::is_void_v<result>, char, result>>>;
  S s;
  F f;
  template <class R>
  struct op;
  template <class R>
  struct recv {
    op<R>* o;
    template <class... Ts>
    void set_value(Ts&&... ts) && {
      auto* p = o;
      p->vals.emplace(std::forward<Ts>(ts)...);
      p->go();
    }
    void set_error(std::exception_ptr e) && { std::move(o->r).set_error(e); }
  };
  template <class R>
  struct op {
    R r;
    F f;
    std::optional<exd::values_t<S>> vals;
    std::optional<std::conditional_t<is_void, char, result>> out;
    using inner_t = decltype(std::declval<S&&>().connect(std::declval<recv<R>>()));
    std::optional<inner_t> inner;
    op(S&& s, F&& ff, R&& rr) : r(std::move(rr)), f(std::move(ff)) {
      inner.emplace(exd::elide{[&] { return std::move(s).connect(recv<R>{this}); }});
    }
    op(const op&) = delete;
    void start() noexcept { inner->start(); }
    void go() {
      vrt::post_comm_fn([this] {
        MPI_Request req = MPI_REQUEST_NULL;
        std::exception_ptr e;
        try {
          if constexpr (is_void)
            std::apply([&](auto&... xs) { std::invoke(std::move(f), xs..., &req); }, *vals);
          else
            out.emplace(exd::elide{[&]() -> result {
              return std::apply([&](auto&... xs) -> result { return std::invoke(std::move(f), xs..., &req); }, *vals);
            }});
        }
        catch (...) {
          e = std::current_exception();
        }
        if (e) {
          std::move(r).set_error(e);
          return;
        }
        vmpi_when_complete(req, [this] {
          vrt::post_fn([this] {
            if constexpr (is_void)
              std::move(r).set_value();
            else
              std::move(r).set_value(std::move(*out));
          });
        });
      });
    }
  };
  template <class R>
  op<std::decay_t<R>> connect(R&& r) && {
    return {std::move(s), std::move(f), std::decay_t<R>(std::forward<R>(r))};
  }
  template <class R>
  op<std::decay_t<R>> connect(R&& r) const& {
    return {S(s), F(f), std::decay_t<R>(std::forward<R>(r))};
  }
};
}
template <class S, class F, class = std::enable_if_t<pika::execution::experimental::is_sender_v<S>>>
detail::mpi_sender<std::decay_t<S>, std::decay_t<F>> transform_mpi(S&& s, F&& f) {
  return {std::forward<S>(s), std::forward<F>(f)};
}
template <class F>
auto transform_mpi(F&& f) {
  return pika::execution::experimental::detail::make_closure([f = std::decay_t<F>(std::forward<F>(f))](auto&& s) mutable {
    return transform_mpi(std::forward<decltype(s)>(s), std::move(f));
  });
}
}
