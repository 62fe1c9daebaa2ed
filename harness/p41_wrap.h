// The wrappers of callables, called directly with every combination of two argument categories.
struct Probe {  // remembers what it was given
  std::vector<const void*> where;
  std::vector<int> seen;
  bool rvalue_self = false;
  template <class... Ts>
  void note(Ts&&... ts) {
    (where.push_back(&ts), ...);
    (seen.push_back(ts.value), ...);
  }
};
struct Callee {
  Probe* p;
  int result;
  template <class... Ts>
  Token operator()(Ts&&... ts) && {
    p->rvalue_self = true;
    p->note(std::forward<Ts>(ts)...);
    return Token(9000, result);
  }
  template <class... Ts>
  Token operator()(Ts&&... ts) & {
    p->rvalue_self = false;
    p->note(std::forward<Ts>(ts)...);
    return Token(9000, result);
  }
};
inline Token plus(Token a, int b) { return Token(9001, a.value + b); }
DLAF_MAKE_CALLABLE_OBJECT(plus);
struct Immovable {
  int value;
  explicit Immovable(int v) : value(v) {}
  Immovable(Immovable&&) = delete;
};

static void wrappers() {
  using dlaf::common::internal::ConsumeRvalues;
  using dlaf::common::internal::Unwrapping;
  using dlaf::common::internal::unwrap;
  for (int a = 0; a < 4; ++a)
    for (int b = 0; b < 4; ++b)
      for (int self = 0; self < 2; ++self) {
        alive.clear();
        const std::string c = cat("wrapper", a, b, self);
        {
          Token x(9100, 11), y(9200, 22);
          const Token &cx = x, &cy = y;
          Probe p;
          auto check = [&](auto&& f) {
            auto go = [&](auto&&... ts) {
              if (self)
                return std::move(f)(std::forward<decltype(ts)>(ts)...);
              return f(std::forward<decltype(ts)>(ts)...);
            };
            auto second = [&](auto&& t) {
              switch (b) {
                case 0: return go(std::forward<decltype(t)>(t), y);
                case 1: return go(std::forward<decltype(t)>(t), cy);
                case 2: return go(std::forward<decltype(t)>(t), std::move(y));
                default: return go(std::forward<decltype(t)>(t), Token(9300, 33));
              }
            };
            switch (a) {
              case 0: return second(x);
              case 1: return second(cx);
              case 2: return second(std::move(x));
              default: return second(Token(9400, 44));
            }
          };
          Token r = check(ConsumeRvalues{Callee{&p, 5}});
          R.eq(r.value, 5, "result " + c);
          R.ok(p.rvalue_self == (self == 1), "category of the callable " + c);
          R.ok(p.seen.size() == 2 && p.seen[0] == (a == 3 ? 44 : 11) && p.seen[1] == (b == 3 ? 33 : 22), "arguments in order " + c);
          // what was given up is gone when the call is over, what was lent is the very object and is left as it was
          R.ok(x.full == (a != 2) && count(9100) == (a != 2), "first argument " + c);
          R.ok(y.full == (b != 2) && count(9200) == (b != 2), "second argument " + c);
          R.ok((p.where[0] == &x) == (a < 2) && (p.where[1] == &y) == (b < 2), "lent arguments are the objects themselves " + c);
          R.ok(count(9300) == 0 && count(9400) == 0, "arguments which were given up " + c);
        }
        for (auto& [id, n] : alive)
          R.eq(n, 0, cat("left behind", id, c));
      }
  {
    Token x(9100, 11);
    std::reference_wrapper<Token> rx(x);
    const std::reference_wrapper<const Token> crx(x);
    R.ok(&unwrap(rx) == &x && &unwrap(crx) == &x && &unwrap(x) == &x && &unwrap(std::ref(x)) == &x, "unwrapped references");
    static_assert(std::is_same_v<decltype(unwrap(rx)), Token&> && std::is_same_v<decltype(unwrap(crx)), const Token&>);
    static_assert(std::is_same_v<decltype(unwrap(std::declval<Token>())), Token&&>);
    Probe p;
    Unwrapping u{Callee{&p, 6}};
    R.eq(u(rx, crx).value, 6, "result of an unwrapping call");
    R.ok(!p.rvalue_self && p.where[0] == &x && p.where[1] == &x, "unwrapped arguments");
    R.eq(std::move(u)(x).value, 6, "result of an unwrapping call");
    R.ok(p.rvalue_self && p.where[2] == &x, "arguments which are not wrapped");
    Token t = plus_o(Token(9500, 4), 3);
    R.ok(t.value == 7 && count(9500) == 0, "callable object");
    std::optional<Immovable> im;
    int made = 0;
    im.emplace(dlaf::internal::WithResultOf([&]() {
      ++made;
      return Immovable(8);
    }));
    R.ok(made == 1 && im->value == 8, "made in place");
    std::list<Immovable> many;
    for (int i = 0; i < 5; ++i)
      many.emplace_back(dlaf::internal::WithResultOf([i]() { return Immovable(i); }));
    int k = 0;
    for (auto& e : many)
      R.eq(e.value, k++, "made in place");
  }
}
