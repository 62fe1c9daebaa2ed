// Replays behaviours of spec/Configuration.tla: sources of options, sessions, and where the values end up.
#include <pika/init.hpp>
#include <pika/mpi.hpp>
#include <dlaf/init.h>
#include <dlaf/matrix/allocation_io.h>
#include <dlaf/tune.h>
#include <dlaf_c/init.h>
#include <umpire/ResourceManager.hpp>
#include <umpire/strategy/QuickPool.hpp>
#include <umpire/strategy/PoolCoalesceHeuristic.hpp>
#include <memory>
#include <random>
#include <set>
#include "common.h"
static vf::Report R;
using dlaf::configuration;
using dlaf::TuneParameters;

// the built-in values, also when the runtime is down
static TuneParameters fresh() {
  auto& i = pika::vshim::state().initialized;
  const bool was = i;
  i = true;
  TuneParameters t;
  i = was;
  return t;
}
struct Opt {
  std::string name, env, cmd, kind, type;
  std::function<void*(configuration&, TuneParameters&)> at;
};
static std::vector<Opt> opts;
static const bool new_pika = PIKA_VERSION_FULL >= 0x001F00;
static std::string upper(std::string s) {
  for (auto& c : s)
    c = std::toupper((unsigned char) c);
  return s;
}
static std::string dashes(std::string s) {
  for (auto& c : s)
    if (c == '_')
      c = '-';
  return s;
}
template <class T>
const char* tname() {
  if constexpr (std::is_same_v<T, bool>) return "bool";
  else if constexpr (std::is_same_v<T, double>) return "double";
  else if constexpr (std::is_same_v<T, dlaf::matrix::AllocationLayout>) return "layout";
  else return std::is_signed_v<T> ? "signed" : "unsigned";
}
#define CFG(f, k) opts.push_back({#f, upper("DLAF_" #f), "--dlaf:" + dashes(#f), k, tname<decltype(configuration::f)>(), [](configuration& c, TuneParameters&) -> void* { return &c.f; }})
#define TUNE(f, k) opts.push_back({#f, upper("DLAF_" #f), "--dlaf:" + dashes(#f), k, tname<decltype(TuneParameters::f)>(), [](configuration&, TuneParameters& t) -> void* { return &t.f; }})
static void table() {
  CFG(print_config, "flag");
  CFG(num_np_gpu_streams, new_pika ? "cfg" : "idle");
  CFG(num_hp_gpu_streams, new_pika ? "cfg" : "idle");
  CFG(num_np_gpu_streams_per_thread, new_pika ? "idle" : "cfg");
  CFG(num_hp_gpu_streams_per_thread, new_pika ? "idle" : "cfg");
  CFG(umpire_host_memory_pool_initial_block_bytes, "cfg");
  CFG(umpire_host_memory_pool_next_block_bytes, "cfg");
  CFG(umpire_host_memory_pool_alignment_bytes, "cfg");
  CFG(umpire_host_memory_pool_coalescing_free_ratio, "cfg");
  CFG(umpire_host_memory_pool_coalescing_reallocation_ratio, "cfg");
  CFG(umpire_device_memory_pool_initial_block_bytes, "cfg");
  CFG(umpire_device_memory_pool_next_block_bytes, "cfg");
  CFG(umpire_device_memory_pool_alignment_bytes, "cfg");
  CFG(umpire_device_memory_pool_coalescing_free_ratio, "cfg");
  CFG(umpire_device_memory_pool_coalescing_reallocation_ratio, "cfg");
  CFG(num_gpu_blas_handles, "cfg");
  CFG(num_gpu_lapack_handles, "cfg");
  TUNE(default_allocation_layout, "tune");
  opts.back().cmd = "--dlaf:default_allocation_layout";
  TUNE(tfactor_num_threads, "tune");
  TUNE(tfactor_num_streams, "tune");
  TUNE(tfactor_barrier_busy_wait_us, "tune");
  TUNE(red2band_panel_num_threads, "tune");
  TUNE(red2band_barrier_busy_wait_us, "tune");
  TUNE(tridiag_rank1_num_threads, "tune");
  TUNE(tridiag_rank1_barrier_busy_wait_us, "tune");
  TUNE(eigensolver_min_band, "tune");
  TUNE(band_to_tridiag_1d_block_size_base, "tune");
  TUNE(bt_band_to_tridiag_hh_apply_group_size, "tune");
  TUNE(communicator_grid_num_pipelines, "tune");
  TUNE(debug_dump_cholesky_factorization_data, "dump");
  TUNE(debug_dump_generalized_to_standard_data, "dump");
  TUNE(debug_dump_generalized_eigensolver_data, "dump");
  TUNE(debug_dump_eigensolver_data, "dump");
  TUNE(debug_dump_reduction_to_band_data, "dump");
  TUNE(debug_dump_band_to_tridiagonal_data, "dump");
  TUNE(debug_dump_inverse_from_cholesky_factor_data, "dump");
  TUNE(debug_dump_triangular_inverse_data, "dump");
  TUNE(debug_dump_tridiag_solver_data, "dump");
}
// text of value v of option i (v >= 1), as a user would write it; variant: spelling
static std::string text(int i, int v, unsigned variant) {
  const Opt& o = opts[i];
  if (o.type == "bool") {
    static const char* yes[] = {"ON", "on", "TRUE", "True", "YES", "yEs", "1"};
    static const char* no[] = {"OFF", "off", "FALSE", "False", "NO", "nO", "0"};
    return (v == 1 ? yes : no)[variant % 7];
  }
  if (o.type == "layout") {
    static const char* b[] = {"Blocks", "blocks", "BLOCKS"};
    static const char* t[] = {"Tiles", "tiles", "TILES"};
    return (v == 1 ? b : t)[variant % 3];
  }
  if (o.type == "double")
    return v == 1 ? std::to_string(i) + ".25" : std::to_string(2 * i) + ".5";
  if (variant % 5 == 1)   // values beyond 32 bits survive
    return std::to_string((v == 1 ? 5000000000LL : 9000000000LL) + i);
  return std::to_string((v == 1 ? 1000 : 2000) + i);
}
static std::string show(const Opt& o, void* p) {
  if (o.type == "bool") return *static_cast<bool*>(p) ? "1" : "0";
  if (o.type == "double") return std::to_string(*static_cast<double*>(p));
  if (o.type == "layout") return std::to_string((int) *static_cast<dlaf::matrix::AllocationLayout*>(p));
  if (o.type == "signed") return std::to_string(*static_cast<dlaf::SizeType*>(p));
  return std::to_string(*static_cast<std::size_t*>(p));
}
static void put(const Opt& o, void* p, const std::string& t) {
  if (o.type == "bool") *static_cast<bool*>(p) = std::toupper(t[0]) == 'T' || upper(t) == "ON" || std::toupper(t[0]) == 'Y' || t == "1";
  else if (o.type == "double") *static_cast<double*>(p) = std::stod(t);
  else if (o.type == "layout") *static_cast<dlaf::matrix::AllocationLayout*>(p) = upper(t) == "TILES" ? dlaf::matrix::AllocationLayout::Tiles : dlaf::matrix::AllocationLayout::Blocks;
  else if (o.type == "signed") *static_cast<dlaf::SizeType*>(p) = std::stoll(t);
  else *static_cast<std::size_t*>(p) = std::stoull(t);
}
static std::vector<std::string> defaults;
static std::string canonical(int i, int v, unsigned variant) {
  if (v == 0)
    return defaults[i];
  configuration c;
  TuneParameters t = fresh();
  put(opts[i], opts[i].at(c, t), text(i, v, variant));
  return show(opts[i], opts[i].at(c, t));
}
static std::string current(int i) {
  return show(opts[i], opts[i].at(dlaf::internal::getConfiguration(), dlaf::getTuneParameters()));
}
struct Capture {
  std::ostringstream s, e;
  std::streambuf *b, *be;
  Capture() : b(std::cout.rdbuf(s.rdbuf())), be(std::cerr.rdbuf(e.rdbuf())) {}
  ~Capture() {
    std::cout.rdbuf(b);
    std::cerr.rdbuf(be);
  }
};
// what a printed configuration has to say
static void printed(const std::string& out, const std::string& where) {
  std::map<std::string, std::string> got;
  std::istringstream in(out);
  std::string line;
  while (std::getline(in, line)) {
    auto p = line.find(" = ");
    if (p == std::string::npos)
      continue;
    auto n = line.substr(line.find_first_not_of(' '), p - line.find_first_not_of(' '));
    R.ok(got.emplace(n, line.substr(p + 3)).second, where + "printed twice: " + n);
  }
  for (int i = 1; i < (int) opts.size(); ++i) {
    const Opt& o = opts[i];
    if (o.kind == "dump" || o.kind == "idle")
      continue;
    if (!R.ok(got.count(o.name), where + "not printed: " + o.name))
      continue;
    std::string t = got[o.name];
    if (o.type == "double")
      t = std::to_string(std::stod(t));
    if (o.type == "layout")
      t = std::to_string((int) dlaf::matrix::allocation_layout_from(t));
    R.eq(t, current(i), where + "printed value of " + o.name);
  }
}
static std::vector<std::string> cmdline(const int (&pick)[2], const long long* c, const unsigned (&variant)[2], unsigned h) {
  std::vector<std::string> a{"program"};
  for (int j = 0; j < 2; ++j) {
    const int k = h & 1 ? 1 - j : j;
    if (c[k] < 0)
      continue;
    const Opt& o = opts[pick[k]];
    if (o.type == "bool")
      a.push_back(o.cmd);
    else if (h & 2)
      a.push_back(o.cmd + "=" + text(pick[k], (int) c[k], variant[k]));
    else {
      a.push_back(o.cmd);
      a.push_back(text(pick[k], (int) c[k], variant[k]));
    }
  }
  return a;
}
static std::unique_ptr<dlaf::ScopedInitializer> scoped;
static void initialise(const std::vector<std::string>& args, const configuration& cfg, unsigned mode) {
  std::vector<const char*> argv;
  for (auto& s : args)
    argv.push_back(s.c_str());
  const int argc = (int) argv.size();
  namespace po = pika::program_options;
  po::variables_map vm;
  if (mode == 1 || mode == 3) {
    po::options_description d("all");
    d.add(dlaf::getOptionsDescription());
    d.add_options()("mine", po::value<int>(), "an option of the application");
    po::store(po::parse_command_line(argc, argv.data(), d), vm);
    po::notify(vm);
  }
  switch (mode) {
    case 0: dlaf::initialize(argc, argv.data(), cfg); break;
    case 1: dlaf::initialize(vm, cfg); break;
    case 2: scoped = std::make_unique<dlaf::ScopedInitializer>(argc, argv.data(), cfg); break;
    case 3: scoped = std::make_unique<dlaf::ScopedInitializer>(vm, cfg); break;
  }
}
static bool tolerant = false;
static void behaviour(const std::vector<long long>& h, int o1, int o2, unsigned salt) {
  const int pick[2] = {o1, o2};
  unsigned variant[2] = {salt % 105, (salt / 105) % 105};
  auto& st = pika::vshim::state();
  const std::string name = vf::cat("options", opts[o1].name, opts[o2].name);
  {
    const bool was = st.initialized;
    st.initialized = true;
    dlaf::getTuneParameters() = TuneParameters();
    st.initialized = was;
  }
  dlaf::internal::getConfiguration() = configuration();
  vmpi_initialized = 1;
  st.polling = st.poll_starts = st.poll_stops = 0;
  for (auto& o : opts)
    unsetenv(o.env.c_str());
  long long was_val[2] = {0, 0};
  int starts = 0;
  for (std::size_t p = 0; p + 9 <= h.size(); p += 9) {
    const long long* e = &h[p];
    const std::string w = name + vf::cat("step", p / 9, "op", e[0], "args", e[1], e[2], e[3], e[4], ": ");
    salt = salt * 1664525u + 1013904223u;
    std::string out;
    if (e[0] == 1) {
      const int i = pick[e[1] - 1];
      if (e[2] < 0)
        unsetenv(opts[i].env.c_str());
      else if (e[2] > 0)
        setenv(opts[i].env.c_str(), text(i, (int) e[2], variant[e[1] - 1]).c_str(), 1);
    }
    else if (e[0] == 2) {
      const int i = pick[e[1] - 1];
      if (e[2] == 0) {
        TuneParameters t = fresh();
        configuration c;
        auto init = opts[i].at(c, t);
        auto cur = opts[i].at(c, dlaf::getTuneParameters());
        if (opts[i].type == "bool") *static_cast<bool*>(cur) = *static_cast<bool*>(init);
        else if (opts[i].type == "layout") *static_cast<dlaf::matrix::AllocationLayout*>(cur) = *static_cast<dlaf::matrix::AllocationLayout*>(init);
        else std::memcpy(cur, init, sizeof(std::size_t));
      }
      else {
        configuration c;
        put(opts[i], opts[i].at(c, dlaf::getTuneParameters()), text(i, (int) e[2], variant[e[1] - 1]));
      }
    }
    else if (e[0] == 3 || e[0] == 6) {
      auto args = cmdline(pick, e + 1, variant, salt >> 8);
      Capture cap;
      if (tolerant) {
        std::vector<const char*> argv;
        for (auto& s : args)
          argv.push_back(s.c_str());
        const char* pk[] = {"program"};
        dlaf_initialize(1, pk, (int) argv.size(), argv.data());
        if (e[0] == 3)
          ++starts;
      }
      else {
        configuration cfg;
        for (int j = 0; j < 2; ++j)
          if (e[3 + j] >= 0) {
            TuneParameters t = fresh();
            put(opts[pick[j]], opts[pick[j]].at(cfg, t), text(pick[j], (int) e[3 + j], variant[j]));
          }
        initialise(args, cfg, (salt >> 12) % 4);
      }
      out = cap.s.str();
    }
    else if (e[0] == 4 || e[0] == 7) {
      if (tolerant)
        dlaf_finalize();
      else if (scoped)
        scoped.reset();
      else
        dlaf::finalize();
    }
    else if (e[0] == 5)
      vmpi_initialized = 1 - vmpi_initialized;
    else if (e[0] == 9) {
      if (salt % 16 == 0)
        R.ok(vf::dies([&] { if (e[1]) dlaf::initialize(1, std::vector<const char*>{"program"}.data(), {}); else dlaf::finalize(); }), w + "not refused");
      break;
    }
    // the values
    for (int j = 0; j < 2; ++j)
      R.eq(current(pick[j]), canonical(pick[j], (int) e[5 + j], variant[j]), w + "value of " + opts[pick[j]].name);
    for (int i = 0; i < (int) opts.size(); ++i)
      if (i != o1 && i != o2)
        R.eq(current(i), defaults[i], w + "value of " + opts[i].name);
    R.eq(st.polling, (int) e[8], w + "polling");
    R.eq(st.poll_starts - st.poll_stops, (int) e[8], w + "polling starts and stops");
    if (e[0] == 3 && current(0) == "1")
      printed(out, w);
    else
      R.eq(out, std::string(), w + "unexpected output");
    if (tolerant) {
      if (e[0] == 4)
        R.eq(st.initialized, false, w + "runtime still up");
      R.eq(st.starts, starts, w + "runtime starts");
      R.eq(st.stops, starts - (int) e[7], w + "runtime stops");
      R.eq(st.suspended && e[7], e[7] == 1, w + "runtime suspended between calls");
    }
  }
  // leave a clean slate
  if (dlaf::internal::getConfiguration().print_config)
    setenv("DLAF_PRINT_CONFIG", "OFF", 1);
  if (scoped)
    scoped.reset();
  else if (tolerant)
    dlaf_finalize();
  else if (h.size() >= 9 && h[(h[h.size() - 9] == 9 ? h.size() - 18 : h.size() - 9) + 7] == 1)
    dlaf::finalize();
  st.starts = st.stops = st.finalizes = 0;
}

int main(int argc, char** argv) {
  table();
  auto& st = pika::vshim::state();
  const unsigned seed = std::strtoul(argv[2], nullptr, 10);
  tolerant = argc > 3 && argv[3][0] == 't';
  // default of the thread counts, for every number of threads
  for (std::size_t n : {1, 2, 3, 4, 7, 64}) {
    st.threads = n;
    TuneParameters t;
    R.eq(t.tfactor_num_threads, n / 2 ? n / 2 : 1, "default tfactor threads");
    R.eq(t.red2band_panel_num_threads, n / 2 ? n / 2 : 1, "default panel threads");
    R.eq(t.tridiag_rank1_num_threads, n, "default rank1 threads");
  }
  st.threads = 6;
  {
    configuration c;
    TuneParameters t;
    for (auto& o : opts)
      defaults.push_back(show(o, o.at(c, t)));
  }
  // refusals
  if (!tolerant) {
    R.ok(vf::dies([&] { vmpi_thread_level = MPI_THREAD_SERIALIZED; const char* a[] = {"p"}; dlaf::initialize(1, a); }), "MPI without multithreading accepted");
    R.ok(!vf::dies([&] { vmpi_initialized = 0; vmpi_thread_level = MPI_THREAD_SINGLE; const char* a[] = {"p"}; dlaf::initialize(1, a); dlaf::finalize(); }), "refused without MPI");
    R.ok(vf::dies([&] { setenv("DLAF_PRINT_CONFIG", "maybe", 1); const char* a[] = {"p"}; dlaf::initialize(1, a); }), "meaningless switch accepted");
    R.ok(vf::dies([&] { setenv("DLAF_DEFAULT_ALLOCATION_LAYOUT", "rows", 1); const char* a[] = {"p"}; dlaf::initialize(1, a); }), "meaningless layout accepted");
    R.ok(vf::dies([&] { const char* a[] = {"p", "--dlaf:nonsense"}; dlaf::initialize(2, a); }), "unknown option accepted");
    R.ok(vf::dies([&] { st.initialized = false; TuneParameters t; }), "tuning parameters without the runtime accepted");
    for (auto* sw : {"ON", "on", "True", "yes", "1"})
      R.ok(!vf::dies([&] { setenv("DLAF_PRINT_CONFIG", sw, 1); const char* a[] = {"p"}; dlaf::initialize(1, a); if (!dlaf::internal::getConfiguration().print_config) _exit(1); }), std::string("switch not on: ") + sw);
    // asking for help prints every option and ends the program
    R.ok(vf::dies([&] { Capture c; const char* a[] = {"p", "--dlaf:help"}; atexit([] { _exit(77); }); dlaf::initialize(2, a); _exit(0); }), "help does not end the program");
    std::ostringstream os;
    os << dlaf::getOptionsDescription();
    for (auto& o : opts)
      if (o.kind != "dump")
        R.ok(os.str().find(o.cmd + " ") != std::string::npos || os.str().find(o.cmd + "\n") != std::string::npos, "help lacks " + o.cmd);
  }
  st.initialized = !tolerant;
  std::map<std::string, std::vector<int>> by;
  for (int i = 0; i < (int) opts.size(); ++i)
    by[opts[i].kind].push_back(i);
  std::mt19937 g(seed);
  std::ifstream in(argv[1]);
  std::string line;
  std::set<std::pair<int, int>> pairs;
  long n = 0;
  while (std::getline(in, line)) {
    std::istringstream is(line);
    std::string k1, k2, c;
    is >> c >> k1 >> k2;
    std::vector<long long> h;
    long long x;
    while (is >> x)
      h.push_back(x);
    for (int rep = 0; rep < (n < 4000 ? 3 : 1); ++rep) {
      const auto &A = by[k1], &B = by[k2];
      if (A.size() < 1 || B.size() < 1 || (k1 == k2 && A.size() < 2)) {
        continue;
      }
      int a = A[(n + rep) % A.size()], b = B[((n + rep) / A.size()) % B.size()];
      if (g() % 4 == 0) {
        a = A[g() % A.size()];
        b = B[g() % B.size()];
      }
      if (a == b) {
        b = B[((n + rep) + 1) % B.size()];
        if (a == b)
          b = B[((n + rep) + 2) % B.size()];
        if (a == b)
          continue;
      }
      pairs.insert({a, b});
      ++R.cases;
      behaviour(h, a, b, g());
    }
    ++n;
    if (R.mismatches > 60)
      break;
  }
  R.extra["pairs"] = (long) pairs.size();
  return R.done();
}
