#include "mpi.h"

#include <algorithm>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include "vrt.h"

vmpi_stats vmpi_st;
static void bad(const std::string& s) { vrt::fail("MPI: " + s); }

// ------------------------------------------------------------------------------------------ datatypes
struct vmpi_type {
  const char* name;
  char kind;  // element kind
  std::size_t esize;
  bool derived = false, committed = true, freed = false;
  std::vector<long> offs{0};  // element offsets (in elements)
  long extent = 1;            // in elements
  int rank = -1;
  long in_use = 0;
};
#define BASIC(n, k, t) vmpi_type n{#n, k, sizeof(t)}
BASIC(vt_char, 'c', char);
BASIC(vt_schar, 'c', signed char);
BASIC(vt_uchar, 'C', unsigned char);
BASIC(vt_byte, 'y', char);
BASIC(vt_short, 's', short);
BASIC(vt_ushort, 'S', unsigned short);
BASIC(vt_int, 'i', int);
BASIC(vt_uint, 'I', unsigned);
BASIC(vt_long, 'l', long);
BASIC(vt_ulong, 'L', unsigned long);
BASIC(vt_llong, 'l', long long);
BASIC(vt_ullong, 'L', unsigned long long);
BASIC(vt_float, 'f', float);
BASIC(vt_double, 'd', double);
BASIC(vt_cfloat, 'z', std::complex<float>);
BASIC(vt_cdouble, 'Z', std::complex<double>);
BASIC(vt_bool, 'b', bool);
struct vmpi_op {
  char k;
};
vmpi_op vo_sum{'+'}, vo_max{'M'}, vo_min{'m'}, vo_prod{'*'}, vo_land{'&'}, vo_lor{'|'};

static std::set<vmpi_type*> live_types;
static void use_type(MPI_Datatype t) {
  if (!t)
    bad("null datatype");
  if (t->derived && (t->freed || !live_types.count(t)))
    bad("datatype used after it was freed");
  if (!t->committed)
    bad("datatype used before it was committed");
}
static std::vector<char> pack(const void* buf, int count, MPI_Datatype t) {
  std::vector<char> out(std::size_t(count) * t->offs.size() * t->esize);
  char* o = out.data();
  const char* b = static_cast<const char*>(buf);
  for (int i = 0; i < count; ++i)
    for (long k : t->offs) {
      std::memcpy(o, b + (long(i) * t->extent + k) * long(t->esize), t->esize);
      o += t->esize;
    }
  return out;
}
static void unpack(const std::vector<char>& in, void* buf, MPI_Datatype t) {
  const std::size_t per = t->offs.size() * t->esize;
  if (per == 0)
    return;
  char* b = static_cast<char*>(buf);
  std::size_t pos = 0;
  for (long i = 0; pos < in.size(); ++i)
    for (long k : t->offs) {
      if (pos >= in.size())
        break;
      std::memcpy(b + (i * t->extent + k) * long(t->esize), in.data() + pos, t->esize);
      pos += t->esize;
    }
}
static void scribble(void* buf, int count, MPI_Datatype t) {
  std::vector<char> junk(std::size_t(count) * t->offs.size() * t->esize, char(0xFF));
  unpack(junk, buf, t);
}
template <class T>
static void comb(char op, T* a, const T* b, std::size_t n) {
  for (std::size_t i = 0; i < n; ++i)
    if constexpr (std::is_same_v<T, std::complex<float>> || std::is_same_v<T, std::complex<double>>) {
      if (op == '+')
        a[i] += b[i];
      else if (op == '*')
        a[i] *= b[i];
      else
        bad("operation not defined for complex values");
    }
    else
      switch (op) {
        case '+': a[i] = T(a[i] + b[i]); break;
        case '*': a[i] = T(a[i] * b[i]); break;
        case 'M': a[i] = a[i] != a[i] ? a[i] : std::max(a[i], b[i]); break;
        case 'm': a[i] = std::min(a[i], b[i]); break;
        case '&': a[i] = T(a[i] && b[i]); break;
        case '|': a[i] = T(a[i] || b[i]); break;
      }
}
static void combine(char op, char kind, std::size_t esize, std::vector<char>& a, const std::vector<char>& b) {
  const std::size_t n = a.size() / esize;
  char* x = a.data();
  const char* y = b.data();
#define C(k, T) \
  case k: comb(op, reinterpret_cast<T*>(x), reinterpret_cast<const T*>(y), n); break
  switch (kind) {
    C('c', signed char);
    C('C', unsigned char);
    C('s', short);
    C('S', unsigned short);
    C('i', int);
    C('I', unsigned);
    C('l', long);
    C('L', unsigned long);
    C('f', float);
    C('d', double);
    C('z', std::complex<float>);
    C('Z', std::complex<double>);
    C('b', bool);
    default: bad("reduction of an untyped buffer");
  }
}

// ---------------------------------------------------------------------------------------- communicators
struct Coll;
struct Msg {
  bool send;
  int src, dst, tag;
  const void* sbuf;
  void* rbuf;
  int count;
  MPI_Datatype type;  // a private copy
  vmpi_req* req;
  bool eager = false, done = false;
  std::vector<char> data;  // buffered contents
  bool captured = false;
  std::vector<char> at_post;
};
struct vmpi_comm {
  std::vector<int> members;  // world ranks
  std::set<int> freed;
  int id = 0;
  bool predefined = false;
  std::vector<long> coll_seq;
  std::map<long, std::shared_ptr<Coll>> colls;
  std::map<int, std::vector<std::shared_ptr<Msg>>> sends, recvs;  // unmatched, by destination
};
vmpi_comm vmpi_world, vmpi_self_;
static std::vector<std::unique_ptr<vmpi_comm>> all_comms;
static std::vector<vmpi_comm*> selfs;
static int next_comm = 2;
MPI_Comm vmpi_self() { return selfs.empty() ? &vmpi_self_ : selfs[std::size_t(vrt::rank())]; }

struct vmpi_req {
  int rank;
  bool complete = false;
  std::function<void()> cb;
  vrt::Waiter* w = nullptr;
  bool detached = false;
};
static long live_reqs = 0;
static vmpi_req* new_req() {
  auto* r = new vmpi_req;
  r->rank = vrt::rank();
  ++vrt::net_pending[r->rank];
  ++live_reqs;
  return r;
}
static void free_req(vmpi_req* r) {
  --live_reqs;
  delete r;
}
static void finish(vmpi_req* r) {
  r->complete = true;
  --vrt::net_pending[r->rank];
  if (r->cb) {
    auto cb = std::move(r->cb);
    free_req(r);
    cb();
  }
  else if (r->w)
    r->w->signal();
}
void vmpi_when_complete(MPI_Request r, std::function<void()> f) {
  if (r == MPI_REQUEST_NULL) {
    f();
    return;
  }
  if (r->complete) {
    free_req(r);
    f();
    return;
  }
  r->cb = std::move(f);
}

static const bool trace = std::getenv("VRT_TRACE") != nullptr;  // what was called, on stderr
static int my(MPI_Comm c) {
  if (!c)
    bad("null communicator");
  const int w = vrt::rank();
  if (c->freed.count(w))
    bad("communicator used after it was freed");
  for (std::size_t i = 0; i < c->members.size(); ++i)
    if (c->members[i] == w)
      return int(i);
  bad("communicator used by a process that is not a member");
  return -1;
}
static void start_world(int n) {
  vmpi_world.members.clear();
  vmpi_world.predefined = true;
  vmpi_world.freed.clear();
  vmpi_world.coll_seq.assign(std::size_t(n), 0);
  vmpi_world.colls.clear();
  vmpi_world.sends.clear();
  vmpi_world.recvs.clear();
  for (int i = 0; i < n; ++i)
    vmpi_world.members.push_back(i);
  for (auto* s : selfs)
    delete s;
  selfs.clear();
  for (int i = 0; i < n; ++i) {
    auto* s = new vmpi_comm;
    s->members = {i};
    s->predefined = true;
    s->coll_seq = {0};
    selfs.push_back(s);
  }
}
static void end_world() {
  std::vector<vmpi_comm*> cs{&vmpi_world};
  for (auto* s : selfs)
    cs.push_back(s);
  for (auto& c : all_comms)
    cs.push_back(c.get());
  for (auto* c : cs) {
    for (auto& [d, v] : c->sends)
      for (auto& m : v) {
        std::ostringstream s;
        s << "message from " << m->src << " to " << m->dst << " tag " << m->tag << " was never received";
        bad(s.str());
      }
    for (auto& [d, v] : c->recvs)
      for (auto& m : v) {
        std::ostringstream s;
        s << "receive on " << m->dst << " from " << m->src << " tag " << m->tag << " was never matched";
        bad(s.str());
      }
    if (!c->colls.empty())
      bad("a collective was not called by all members");
  }
  all_comms.clear();
}
namespace {
struct Hook {
  Hook() {
    vrt::at_start = start_world;
    vrt::at_end = end_world;
    start_world(1);
  }
} hook;
}

static vmpi_type snapshot(MPI_Datatype t) {
  vmpi_type c = *t;
  c.derived = false;
  return c;
}
static std::vector<std::unique_ptr<vmpi_type>> dummy;

static void wait_req(vmpi_req* r, const char* why) {
  if (!r->complete) {
    vrt::Waiter w;
    r->w = &w;
    w.wait(true, why);
  }
  free_req(r);
}

// ------------------------------------------------------------------------------------ point to point
static bool matches(const Msg& s, const Msg& r) {
  return (r.src == MPI_ANY_SOURCE || r.src == s.src) && (r.tag == MPI_ANY_TAG || r.tag == s.tag);
}
static void capture(Msg& m) {
  if (!m.captured) {
    m.data = pack(m.sbuf, m.count, m.type);
    m.captured = true;
    if (m.data.size() != m.at_post.size() || std::memcmp(m.data.data(), m.at_post.data(), m.data.size()) != 0) {
      std::ostringstream s;
      s << "the buffer of a send (" << m.src << " -> " << m.dst << ", tag " << m.tag << ") was modified while the message was in flight";
      bad(s.str());
    }
  }
}
static void finish_send(std::shared_ptr<Msg> s) {
  capture(*s);
  s->done = true;
  delete s->type;
  s->type = nullptr;
  finish(s->req);
}
static void deliver(std::shared_ptr<Msg> s, std::shared_ptr<Msg> r, MPI_Comm c) {
  const int dst_world = c->members[std::size_t(r->dst)];
  vrt::post_event(dst_world, [s, r, c] {
    capture(*s);
    const std::size_t room = std::size_t(r->count) * r->type->offs.size() * r->type->esize;
    if (s->data.size() != room) {
      std::ostringstream e;
      e << "message from " << s->src << " to " << s->dst << " tag " << s->tag << ": " << s->data.size()
        << " bytes sent, " << room << " expected";
      bad(e.str());
    }
    unpack(s->data, r->rbuf, r->type);
    delete r->type;
    r->type = nullptr;
    if (!s->eager)
      vrt::post_event(c->members[std::size_t(s->src)], [s] { finish_send(s); });
    finish(r->req);
  });
}
static vmpi_req* post_send(const void* buf, int count, MPI_Datatype t, int dst, int tag, MPI_Comm c, bool sync) {
  use_type(t);
  const int me = my(c);
  if (dst < 0 || dst >= int(c->members.size()))
    bad("send to a rank outside the communicator");
  if (tag < 0)
    bad("negative tag");
  ++vrt::stats.messages;
  auto m = std::make_shared<Msg>();
  m->send = true;
  m->src = me;
  m->dst = dst;
  m->tag = tag;
  m->sbuf = buf;
  m->count = count;
  m->type = new vmpi_type(snapshot(t));
  m->req = new_req();
  m->at_post = pack(buf, count, m->type);
  m->eager = !sync && vrt::eager_now();
  if (m->eager)
    vrt::post_event(vrt::rank(), [m] { finish_send(m); });
  auto& rs = c->recvs[dst];
  for (std::size_t i = 0; i < rs.size(); ++i)
    if (matches(*m, *rs[i])) {
      auto r = rs[i];
      rs.erase(rs.begin() + long(i));
      deliver(m, r, c);
      return m->req;
    }
  c->sends[dst].push_back(m);
  return m->req;
}
static vmpi_req* post_recv(void* buf, int count, MPI_Datatype t, int src, int tag, MPI_Comm c) {
  use_type(t);
  const int me = my(c);
  if (src != MPI_ANY_SOURCE && (src < 0 || src >= int(c->members.size())))
    bad("receive from a rank outside the communicator");
  auto m = std::make_shared<Msg>();
  m->send = false;
  m->src = src;
  m->dst = me;
  m->tag = tag;
  m->rbuf = buf;
  m->count = count;
  m->type = new vmpi_type(snapshot(t));
  m->req = new_req();
  scribble(buf, count, m->type);
  auto& ss = c->sends[me];
  for (std::size_t i = 0; i < ss.size(); ++i)
    if (matches(*ss[i], *m)) {
      auto s = ss[i];
      ss.erase(ss.begin() + long(i));
      deliver(s, m, c);
      return m->req;
    }
  c->recvs[me].push_back(m);
  return m->req;
}

// ----------------------------------------------------------------------------------------- collectives
struct Part {
  bool here = false;
  const void* sbuf = nullptr;
  void* rbuf = nullptr;
  int count = 0;
  std::unique_ptr<vmpi_type> type;
  vmpi_req* req = nullptr;
  std::vector<char> at_post, data;
  bool captured = false, released = false, finished = false;
  int color = 0, key = 0;
  MPI_Comm out = nullptr;
};
struct Coll {
  char kind;
  int root = 0;
  char op = 0;
  long seq;
  bool full;  // synchronises although it need not
  std::vector<Part> parts;
  std::size_t arrived = 0, finished = 0;
  std::vector<char> result;
  bool computed = false;
};
static const char* coll_name(char k) {
  switch (k) {
    case 'b': return "broadcast";
    case 'r': return "reduce";
    case 'a': return "all-reduce";
    case 'B': return "barrier";
    case 'd': return "dup";
    default: return "split";
  }
}
static void ccapture(Coll& c, std::size_t i) {
  auto& p = c.parts[i];
  if (p.captured)
    return;
  p.captured = true;
  p.data = pack(p.sbuf, p.count, p.type.get());
  if (p.data != p.at_post)
    bad(std::string("the buffer of a ") + coll_name(c.kind) + " was modified while the operation was in flight");
}
static void cfinish(MPI_Comm comm, std::shared_ptr<Coll> c, std::size_t i) {
  auto& p = c->parts[i];
  p.finished = true;
  if (trace)
    std::fprintf(stderr, "[member %zu] comm %p #%ld %s finished\n", i, (void*) comm, c->seq, coll_name(c->kind));
  if (++c->finished == c->parts.size())
    comm->colls.erase(c->seq);
  finish(p.req);
}
static void compute(Coll& c) {
  if (c.computed)
    return;
  c.computed = true;
  std::vector<std::size_t> order;
  for (std::size_t i = 0; i < c.parts.size(); ++i)
    order.push_back(i);
  for (std::size_t i = order.size(); i > 1; --i)
    std::swap(order[i - 1], order[vrt::rnd() % i]);
  for (std::size_t k = 0; k < order.size(); ++k) {
    ccapture(c, order[k]);
    auto& p = c.parts[order[k]];
    if (k == 0)
      c.result = p.data;
    else
      combine(c.op, p.type->kind, p.type->esize, c.result, p.data);
  }
}
static void release(MPI_Comm comm, std::shared_ptr<Coll> c, std::size_t i) {
  auto& p = c->parts[i];
  if (p.released || !p.here)
    return;
  p.released = true;
  vrt::post_event(comm->members[i], [comm, c, i] {
    auto& p = c->parts[i];
    switch (c->kind) {
      case 'b':
        if (int(i) == c->root)
          ccapture(*c, i);
        else {
          ccapture(*c, std::size_t(c->root));
          unpack(c->parts[std::size_t(c->root)].data, p.rbuf, p.type.get());
        }
        break;
      case 'r':
        if (int(i) == c->root) {
          compute(*c);
          unpack(c->result, p.rbuf, p.type.get());
        }
        else
          ccapture(*c, i);
        break;
      case 'a':
        compute(*c);
        // every contribution is fixed before any result is written
        unpack(c->result, p.rbuf, p.type.get());
        break;
    }
    cfinish(comm, c, i);
  });
}
static void advance(MPI_Comm comm, std::shared_ptr<Coll> c) {
  const bool all = c->arrived == c->parts.size();
  const std::size_t root = std::size_t(c->root);
  if (all && c->kind == 'd') {
    auto n = std::make_unique<vmpi_comm>();
    n->members = comm->members;
    n->coll_seq.assign(n->members.size(), 0);
    n->id = next_comm++;
    for (auto& p : c->parts)
      p.out = n.get();
    all_comms.push_back(std::move(n));
  }
  if (all && c->kind == 's') {
    std::map<int, std::vector<std::pair<std::pair<int, int>, int>>> groups;
    for (std::size_t i = 0; i < c->parts.size(); ++i)
      if (c->parts[i].color != MPI_UNDEFINED)
        groups[c->parts[i].color].push_back({{c->parts[i].key, int(i)}, int(i)});
    for (auto& [color, v] : groups) {
      std::sort(v.begin(), v.end());
      auto n = std::make_unique<vmpi_comm>();
      for (auto& e : v)
        n->members.push_back(comm->members[std::size_t(e.second)]);
      n->coll_seq.assign(n->members.size(), 0);
      n->id = next_comm++;
      for (auto& e : v)
        c->parts[std::size_t(e.second)].out = n.get();
      all_comms.push_back(std::move(n));
    }
  }
  for (std::size_t i = 0; i < c->parts.size(); ++i) {
    bool ok = all;
    if (!c->full) {
      if (c->kind == 'b')
        ok = c->parts[root].here;
      if (c->kind == 'r')
        ok = i != root || all;
    }
    if (ok)
      release(comm, c, i);
  }
}
static vmpi_req* post_coll(MPI_Comm comm, char kind, const void* sbuf, void* rbuf, int count, MPI_Datatype t, int root, MPI_Op op, int color = 0, int key = 0, std::shared_ptr<Coll>* outc = nullptr) {
  const int me = my(comm);
  ++vrt::stats.collectives;
  const std::size_t i = std::size_t(me);
  const long seq = comm->coll_seq[i]++;
  auto& c = comm->colls[seq];
  if (trace)
    std::fprintf(stderr, "[%d] comm %p #%ld %s root %d count %d\n", vrt::rank(), (void*) comm, seq, coll_name(kind), root, count);
  if (root < 0 || root >= int(comm->members.size()))
    bad(std::string(coll_name(kind)) + " with a root outside the communicator");
  if (!c) {
    c = std::make_shared<Coll>();
    c->kind = kind;
    c->root = root;
    c->op = op ? op->k : 0;
    c->seq = seq;
    c->full = !vrt::eager_now();
    c->parts.resize(comm->members.size());
  }
  if (c->kind != kind || c->root != root || c->op != (op ? op->k : 0)) {
    std::ostringstream s;
    s << "collective calls do not match: " << coll_name(c->kind) << " root " << c->root << " against " << coll_name(kind)
      << " root " << root;
    bad(s.str());
  }
  auto& p = c->parts[i];
  p.here = true;
  p.count = count;
  p.color = color;
  p.key = key;
  p.req = new_req();
  if (t) {
    use_type(t);
    p.type = std::make_unique<vmpi_type>(snapshot(t));
    const std::size_t bytes = std::size_t(count) * t->offs.size() * t->esize;
    for (std::size_t k = 0; k < c->parts.size(); ++k)
      if (k != i && c->parts[k].here) {
        auto& q = c->parts[k];
        if (std::size_t(q.count) * q.type->offs.size() * q.type->esize != bytes) {
          std::ostringstream s;
          s << coll_name(kind) << " with different amounts of data: " << bytes << " and "
            << std::size_t(q.count) * q.type->offs.size() * q.type->esize << " bytes";
          bad(s.str());
        }
        break;
      }
    const bool reads = kind == 'b' ? me == root : true;
    const bool writes = kind == 'b' ? me != root : kind == 'r' ? me == root : true;
    const bool in_place = sbuf == MPI_IN_PLACE;
    p.sbuf = in_place || kind == 'b' ? rbuf : sbuf;
    p.rbuf = rbuf;
    if (kind == 'r' && in_place && me != root)
      bad("in-place reduce on a rank that is not the root");
    if (reads)
      p.at_post = pack(p.sbuf, count, p.type.get());
    if (writes && !in_place) {
      if (kind != 'b' && p.sbuf == p.rbuf && count > 0)
        bad("send and receive buffer of a reduction are the same");
      scribble(rbuf, count, p.type.get());
    }
  }
  ++c->arrived;
  if (outc)
    *outc = c;
  auto keep = c;
  advance(comm, keep);
  return keep->parts[i].req;
}

extern "C" {
int MPI_Init_thread(int*, char***, int, int* p) {
  *p = MPI_THREAD_MULTIPLE;
  return 0;
}
int MPI_Init(int*, char***) { return 0; }
int MPI_Finalize() { return 0; }
int vmpi_initialized = 1, vmpi_thread_level = MPI_THREAD_MULTIPLE;
int MPI_Initialized(int* f) {
  *f = vmpi_initialized;
  return 0;
}
int MPI_Finalized(int* f) {
  *f = 0;
  return 0;
}
int MPI_Query_thread(int* p) {
  *p = vmpi_thread_level;
  return 0;
}
int MPI_Abort(MPI_Comm, int) {
  bad("MPI_Abort called");
  return 0;
}
int MPI_Error_string(int, char* s, int* n) {
  std::strcpy(s, "error");
  *n = 5;
  return 0;
}
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }
int MPI_Comm_rank(MPI_Comm c, int* r) {
  *r = my(c);
  return 0;
}
int MPI_Comm_size(MPI_Comm c, int* n) {
  my(c);
  *n = int(c->members.size());
  return 0;
}
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int* r) {
  *r = a == b ? MPI_IDENT : a->members == b->members ? MPI_CONGRUENT : MPI_UNEQUAL;
  return 0;
}
int MPI_Comm_free(MPI_Comm* c) {
  my(*c);
  if ((*c)->predefined)
    bad("free of a predefined communicator");
  (*c)->freed.insert(vrt::rank());
  ++vmpi_st.comms_freed;
  *c = MPI_COMM_NULL;
  return 0;
}
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* n) {
  std::shared_ptr<Coll> k;
  const std::size_t i = std::size_t(my(c));
  auto* r = post_coll(c, 'd', nullptr, nullptr, 0, nullptr, 0, nullptr, 0, 0, &k);
  wait_req(r, "MPI_Comm_dup");
  *n = k->parts[i].out;
  ++vmpi_st.comms_created;
  return 0;
}
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm* n) {
  std::shared_ptr<Coll> k;
  const std::size_t i = std::size_t(my(c));
  auto* r = post_coll(c, 's', nullptr, nullptr, 0, nullptr, 0, nullptr, color, key, &k);
  wait_req(r, "MPI_Comm_split");
  *n = k->parts[i].out;
  if (*n)
    ++vmpi_st.comms_created;
  return 0;
}
int MPI_Type_vector(int count, int bl, int stride, MPI_Datatype o, MPI_Datatype* n) {
  auto* t = new vmpi_type(*o);
  t->derived = true;
  t->committed = false;
  t->freed = false;
  t->offs.clear();
  for (int i = 0; i < count; ++i)
    for (int j = 0; j < bl; ++j)
      for (long k : o->offs)
        t->offs.push_back((long(i) * stride + j) * o->extent + k);
  t->extent = count > 0 ? (long(count - 1) * stride + bl) * o->extent : 0;
  live_types.insert(t);
  ++vmpi_st.types_created;
  *n = t;
  return 0;
}
int MPI_Type_contiguous(int count, MPI_Datatype o, MPI_Datatype* n) { return MPI_Type_vector(count, 1, 1, o, n); }
int MPI_Type_commit(MPI_Datatype* t) {
  (*t)->committed = true;
  return 0;
}
int MPI_Type_free(MPI_Datatype* t) {
  if (!*t || !live_types.count(*t))
    bad("free of a datatype that is not alive");
  live_types.erase(*t);
  delete *t;
  ++vmpi_st.types_freed;
  *t = nullptr;
  return 0;
}
int MPI_Type_size(MPI_Datatype t, int* s) {
  *s = int(t->offs.size() * t->esize);
  return 0;
}
int MPI_Isend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* r) {
  *r = post_send(b, n, t, d, tag, c, false);
  return 0;
}
int MPI_Issend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* r) {
  *r = post_send(b, n, t, d, tag, c, true);
  return 0;
}
int MPI_Irecv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request* r) {
  *r = post_recv(b, n, t, s, tag, c);
  return 0;
}
int MPI_Send(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) {
  wait_req(post_send(b, n, t, d, tag, c, false), "MPI_Send");
  return 0;
}
int MPI_Ssend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) {
  wait_req(post_send(b, n, t, d, tag, c, true), "MPI_Ssend");
  return 0;
}
int MPI_Recv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status* st) {
  auto* r = post_recv(b, n, t, s, tag, c);
  wait_req(r, "MPI_Recv");
  if (st)
    *st = MPI_Status{s, tag, 0, long(n) * long(t->offs.size())};
  return 0;
}
int MPI_Sendrecv(const void* sb, int sn, MPI_Datatype st, int d, int stag, void* rb, int rn, MPI_Datatype rt, int s, int rtag, MPI_Comm c, MPI_Status*) {
  auto* a = post_send(sb, sn, st, d, stag, c, false);
  auto* b = post_recv(rb, rn, rt, s, rtag, c);
  wait_req(a, "MPI_Sendrecv");
  wait_req(b, "MPI_Sendrecv");
  return 0;
}
int MPI_Get_count(const MPI_Status* s, MPI_Datatype t, int* n) {
  *n = int(s->bytes / long(t->offs.size()));
  return 0;
}
int MPI_Ibcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c, MPI_Request* r) {
  *r = post_coll(c, 'b', nullptr, b, n, t, root, nullptr);
  return 0;
}
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c) {
  wait_req(post_coll(c, 'b', nullptr, b, n, t, root, nullptr), "MPI_Bcast");
  return 0;
}
int MPI_Ireduce(const void* s, void* b, int n, MPI_Datatype t, MPI_Op o, int root, MPI_Comm c, MPI_Request* r) {
  *r = post_coll(c, 'r', s, b, n, t, root, o);
  return 0;
}
int MPI_Reduce(const void* s, void* b, int n, MPI_Datatype t, MPI_Op o, int root, MPI_Comm c) {
  wait_req(post_coll(c, 'r', s, b, n, t, root, o), "MPI_Reduce");
  return 0;
}
int MPI_Iallreduce(const void* s, void* b, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c, MPI_Request* r) {
  *r = post_coll(c, 'a', s, b, n, t, 0, o);
  return 0;
}
int MPI_Allreduce(const void* s, void* b, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) {
  wait_req(post_coll(c, 'a', s, b, n, t, 0, o), "MPI_Allreduce");
  return 0;
}
int MPI_Ibarrier(MPI_Comm c, MPI_Request* r) {
  *r = post_coll(c, 'B', nullptr, nullptr, 0, nullptr, 0, nullptr);
  return 0;
}
int MPI_Barrier(MPI_Comm c) {
  wait_req(post_coll(c, 'B', nullptr, nullptr, 0, nullptr, 0, nullptr), "MPI_Barrier");
  return 0;
}
int MPI_Wait(MPI_Request* r, MPI_Status*) {
  if (*r)
    wait_req(*r, "MPI_Wait");
  *r = MPI_REQUEST_NULL;
  return 0;
}
int MPI_Waitall(int n, MPI_Request* r, MPI_Status*) {
  for (int i = 0; i < n; ++i)
    MPI_Wait(&r[i], nullptr);
  return 0;
}
int MPI_Test(MPI_Request* r, int* f, MPI_Status*) {
  if (!*r) {
    *f = 1;
    return 0;
  }
  vrt::preempt();
  *f = (*r)->complete;
  if (*f) {
    free_req(*r);
    *r = MPI_REQUEST_NULL;
  }
  return 0;
}
}
