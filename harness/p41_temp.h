// one case of spec/TemporaryTile.tla
struct TempCase {
  int contig, ro, to, from, req, mode, m, n, uses, saw, tile, out;
};
static Event* temp_event;

template <bool ro, bool to, bool from, bool req>
static void temp_case(const TempCase& c) {
  using namespace dlaf;
  using dlaf::matrix::Tile;
  const SizeType ld = c.contig ? std::max<SizeType>(1, c.m) : c.m + 2;
  std::vector<double> mem(size_t(ld * std::max(c.n, 1)) + 4, -99.0);
  auto at = [&](SizeType i, SizeType j) -> double& { return mem[size_t(2 + i + j * ld)]; };
  for (SizeType j = 0; j < c.n; ++j)
    for (SizeType i = 0; i < c.m; ++i)
      at(i, j) = double(1 + i + 10 * j);
  const auto before = mem;
  Event event;
  temp_event = &event;
  event.id = 77;
  int calls = 0, fin = 0, err = 0;
  bool contiguous = false, same = false, old = false, sized = false;
  const double* where = nullptr;
  auto live = [] { return umpire::vshim::get().live.size(); };
  auto f = [&](auto& t) {
    ++calls;
    using TileT = std::decay_t<decltype(t)>;
    constexpr bool writable = !std::is_const_v<std::remove_pointer_t<decltype(t.ptr())>>;
    contiguous = t.is_contiguous();
    sized = t.size() == TileElementSize(c.m, c.n);
    same = c.m == 0 || c.n == 0 || (t.ptr() == &at(0, 0) && t.ld() == ld);
    old = true;
    for (SizeType j = 0; j < c.n; ++j)
      for (SizeType i = 0; i < c.m; ++i)
        old = old && *t.ptr({i, j}) == double(1 + i + 10 * j);
    if (c.mode == 3)
      throw Failure{78};
    if constexpr (writable)
      for (SizeType j = 0; j < c.n; ++j)
        for (SizeType i = 0; i < c.m; ++i)
          *t.ptr({i, j}) = double(500 + i + 10 * j);
    (void) where;
    static_assert(TileT::device == Device::CPU);
    if (c.mode == 0)
      event.fire(true);
    return EventSender{&event} | ex::then([](Token tk) { return tk.value; });  // what it sends is ignored
  };
  const std::size_t live0 = live();
  {
    auto mat = matrix::create_matrix_from_col_major<Device::CPU>(GlobalElementSize(c.m, c.n), TileElementSize(std::max(c.m, 1), std::max(c.n, 1)), ld, mem.data() + 2);
    // an empty matrix has no tile: take one from a matrix around it
    std::optional<Tile<double, Device::CPU>> got;
    bool next = false, sent = false;
    W = nullptr;
    constexpr auto To = to ? di::CopyToDestination::Yes : di::CopyToDestination::No;
    constexpr auto From = from ? di::CopyFromDestination::Yes : di::CopyFromDestination::No;
    constexpr auto Req = req ? di::RequireContiguous::Yes : di::RequireContiguous::No;
    struct End {
      int *fin, *err;
      bool* sent;
      double* p;
      void set_value() && { *fin = 1; }
      void set_value(Tile<double, Device::CPU>&& t) && {
        Tile<double, Device::CPU> mine = std::move(t);
        *sent = mine.ptr() == p;
        *fin = 1;
      }
      void set_error(std::exception_ptr e) && {
        *fin = 2;
        try {
          std::rethrow_exception(e);
        }
        catch (const Failure& x) {
          *err = x.id;
        }
      }
    };
    const LocalTileIndex ix(0, 0);
    auto in = [&] {
      if constexpr (ro)
        return mat.read(ix);
      else
        return mat.readwrite(ix);
    }();
    auto s = di::withTemporaryTile<Device::CPU, To, From, Req>(std::move(in), f);
    R.ok(calls == 0, cat("called before it was started", ctx));
    using O = decltype(std::move(s).connect(std::declval<End>()));
    std::optional<O> op;
    op.emplace(ex::detail::elide{[&] { return std::move(s).connect(End{&fin, &err, &sent, &at(0, 0)}); }});
    // somebody who waits for the tile
    auto later = ro ? ex::unique_any_sender<>(mat.readwrite(ix) | ex::then([&](auto) { next = true; })) : ex::unique_any_sender<>(mat.read(ix) | ex::then([&](auto) { next = true; }));
    op->start();
    vrt::wait_idle();
    auto pending = ex::ensure_started(std::move(later));
    vrt::wait_idle();
    R.eq(calls, 1, cat("times the operation was called", ctx));
    R.ok(sized, cat("size of the tile given to the operation", ctx));
    if (req)
      R.ok(contiguous || c.m == 0 || c.n == 0, cat("not contiguous", ctx));
    if (c.m > 0 && c.n > 0)
      R.eq(int(!same), c.uses, cat("a temporary tile is used", ctx));
    if (c.saw == 0)
      R.ok(old, cat("the operation does not see the tile's content", ctx));
    if (c.mode == 1 || c.mode == 2) {
      R.eq(int(live() - live0), c.uses && c.m > 0 && c.n > 0 ? 1 : 0, cat("temporary tiles while the operation is under way", ctx));
      R.eq(fin, 0, cat("over before the operation is", ctx));
      R.ok(!next, cat("the tile was given away while the operation is under way", ctx));
      event.fire(c.mode == 1);
      vrt::wait_idle();
    }
    R.eq(fin, c.out, cat("completion", ctx));
    if (c.out == 2)
      R.eq(err, c.mode == 3 ? 78 : 77, cat("error", ctx));
    if (c.out == 1 && !ro) {
      R.ok(sent, cat("another tile was sent on", ctx));
      R.ok(next, cat("the tile is kept although it was sent on", ctx));
    }
    op.reset();
    vrt::wait_idle();
    R.ok(next, cat("the tile is kept", ctx));
    R.eq(live(), live0, cat("a temporary tile is kept", ctx));
    ex::start_detached(std::move(pending));
    vrt::wait_idle();
  }
  for (SizeType j = 0; j < c.n; ++j)
    for (SizeType i = 0; i < c.m; ++i) {
      R.eq(at(i, j), c.tile ? double(500 + i + 10 * j) : double(1 + i + 10 * j), cat("element", i, j, "afterwards", ctx));
      at(i, j) = before[size_t(2 + i + j * ld)];
    }
  R.ok(mem == before, cat("memory outside of the tile changed", ctx));
  ++R.extra["temporaries"];
}

template <bool ro, bool to, bool from>
static void temp_req(const TempCase& c) {
  if (c.req)
    temp_case<ro, to, from, true>(c);
  else
    temp_case<ro, to, from, false>(c);
}
static void temporary(const std::vector<long long>& v) {
  TempCase c{};
  int* f[] = {&c.contig, &c.ro, &c.to, &c.from, &c.req, &c.mode, &c.m, &c.n, &c.uses, &c.saw, &c.tile, &c.out};
  for (size_t i = 0; i < 12; ++i)
    *f[i] = int(v.at(i));
  ctx = cat("contiguous", c.contig, "read-only", c.ro, "to", c.to, "from", c.from, "required", c.req, "mode", c.mode, "size", c.m, c.n, ctx);
  if (c.ro)
    c.to ? temp_req<true, true, false>(c) : temp_req<true, false, false>(c);
  else if (c.to)
    c.from ? temp_req<false, true, true>(c) : temp_req<false, true, false>(c);
  else
    c.from ? temp_req<false, false, true>(c) : temp_req<false, false, false>(c);
}
