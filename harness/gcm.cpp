// Bounded exhaustive exploration of the collector's parts, on the real code.
//   gcm MODE ARG... WORKER WORKERS      prints  "V <sequence> <why>"  per violation and  "N <states> <transitions> <checks>"  at the end
// modes: small LEVELS DEPTH | real DEPTH | swap DEPTH | erase K | alloc CELLS DEPTH LIVE | heap DEPTH NODES
#include "mvx.hpp"
#include <algorithm>
#include <set>
#include <unordered_set>
#include <sys/wait.h>
#include <unistd.h>
#include <meevax/memory/allocator.hpp>
#include <meevax/memory/pointer_set.hpp>

using namespace meevax;

static int worker = 0, workers = 1;
static std::size_t states = 0, transitions = 0, checks = 0, bad = 0;

static void violation(std::string const& sequence, std::string const& why)
{
  if (++bad <= 20) std::printf("V\t%s\t%s\n", sequence.c_str(), why.c_str());
}

static std::string text(std::vector<int> const& s)
{
  std::string r; for (auto i : s) { if (not r.empty()) r += ' '; r += std::to_string(i); } return r;
}

// ---------------------------------------------------------------- the set of addresses
struct alignas(8) aligned8 { char c[8]; };

template <typename S, typename T>
static std::string differs(S & s, std::set<T> const& m, std::vector<T> const& probes)
{
  #define CHECK(X, ...) do { ++checks; if (not (X)) { char buffer_[200]; std::snprintf(buffer_, sizeof buffer_, __VA_ARGS__); return buffer_; } } while (0)
  CHECK(s.size() == m.size(), "size %zu for %zu", s.size(), m.size());
  CHECK(s.empty() == m.empty(), "empty");
  std::vector<T> forward;
  for (auto i = s.begin(); i != s.end(); ++i)
  {
    CHECK(static_cast<bool>(i), "begin..end passes an invalid position");
    forward.push_back(*i);
    if (forward.size() > m.size()) break;
  }
  CHECK(std::equal(forward.begin(), forward.end(), m.begin(), m.end()), "iteration gives %zu of %zu elements or another order", forward.size(), m.size());
  CHECK((s.begin() == s.end()) == m.empty(), "begin == end");
  std::vector<T> backward;
  for (auto i = s.end(); --i;)
  {
    backward.push_back(*i);
    if (backward.size() > m.size()) break;
  }
  CHECK(std::equal(backward.begin(), backward.end(), m.rbegin(), m.rend()), "backward iteration gives %zu of %zu elements or another order", backward.size(), m.size());
  for (auto p : probes)
  {
    CHECK(s.contains(p) == (m.count(p) == 1), "contains %p", static_cast<void const*>(p));
    auto i = s.lower_bound(p);
    auto j = m.lower_bound(p);
    CHECK(static_cast<bool>(i) == (j != m.end()), "lower_bound %p %s", static_cast<void const*>(p), i ? "exists" : "does not exist");
    if (i) CHECK(*i == *j, "lower_bound %p is %p", static_cast<void const*>(p), static_cast<void const*>(*i));
    if (not i) CHECK(i == s.end() and s.end() == i, "lower_bound %p is not the end", static_cast<void const*>(p));
    auto n = i; auto k = j;
    if (n)
    {
      ++n; ++k;
      CHECK(static_cast<bool>(n) == (k != m.end()) and (not n or *n == *k), "successor of lower_bound %p", static_cast<void const*>(p));
      CHECK(i != n and not (i == n), "a position equals its successor");
    }
    auto b = i;
    --b;
    CHECK(static_cast<bool>(b) == (j != m.begin()), "predecessor of lower_bound %p %s", static_cast<void const*>(p), b ? "exists" : "does not exist");
    if (b) { CHECK(*b == *std::prev(j), "predecessor of lower_bound %p is %p", static_cast<void const*>(p), static_cast<void const*>(*b)); }
  }
  return "";
}

template <typename T>
static std::vector<T> around(std::vector<T> const& as, int bits = 24) // neighbours, within the addresses the set is made for
{
  std::set<std::uintptr_t> r;
  for (auto a : as) for (std::ptrdiff_t d : {-8, 0, 8}) if (auto x = reinterpret_cast<std::uintptr_t>(a) + d; 8 <= x and not (x >> bits)) r.insert(x);
  std::vector<T> v; for (auto x : r) v.push_back(reinterpret_cast<T>(x)); return v;
}

template <typename S, typename T>
static void toggles(std::vector<T> const& addresses, std::vector<T> const& probes, int depth) // every sequence of insertions and removals up to the depth, each from the empty set
{
  std::vector<int> seq;
  std::size_t serial = 0;
  std::function<void()> visit = [&]()
  {
    if (seq.size() != 1 or seq[0] % workers == worker or workers == 1)
    {
      auto s = std::make_unique<S>(); std::set<T> m;
      for (auto i : seq) { auto a = addresses[i]; if (m.erase(a)) s->erase(a); else { s->insert(a); m.insert(a); } ++transitions; }
      ++states;
      if (auto w = differs(*s, m, probes); not w.empty()) violation(text(seq), w);
    }
    if (static_cast<int>(seq.size()) < depth)
    {
      for (int i = 0; i < static_cast<int>(addresses.size()); ++i)
      {
        if (seq.empty() and i % workers != worker) continue;
        seq.push_back(i); visit(); seq.pop_back();
      }
    }
  };
  visit();
}

template <typename T> static std::vector<T> grid(std::vector<unsigned long> const& is, std::vector<unsigned long> const& js, std::vector<unsigned long> const& ks, int jb, int kb)
{
  std::vector<T> r;
  for (auto i : is) for (auto j : js) for (auto k : ks) r.push_back(reinterpret_cast<T>((i << (jb + kb) | j << kb | k) << 3));
  return r;
}

using small_set = pointer_set<aligned8 const*, 10, 7, 7>; // 128 x 128 x 128
using real_set = pointer_set<pair const*, 15, 16, 16>; // as in the collector

static std::vector<pair const*> real_addresses()
{
  std::vector<pair const*> r;
  for (std::uintptr_t a : { 0x0000'0000'0000'0008ul, 0x0000'5555'5555'0000ul, 0x0000'5555'5555'0008ul, 0x0000'5555'5557'fff8ul, 0x0000'5555'5558'0000ul, 0x0000'5557'ffff'fff8ul, 0x0000'5558'0000'0000ul,
                            0x0000'7ff7'ffff'fff8ul, 0x0000'7ff8'0000'0000ul, 0x0000'7fff'f7ff'0008ul, 0x0000'7fff'ffff'fff0ul }) r.push_back(reinterpret_cast<pair const*>(a));
  return r;
}

static void exchanges(int depth) // two sets: every sequence of toggles in either and of exchanges
{
  auto as = grid<aligned8 const*>({1, 64}, {0, 127}, {0, 63, 64}, 7, 7); as.resize(6); as.push_back(reinterpret_cast<aligned8 const*>(((64ul << 14) | 127) << 3));
  auto ps = around(as);
  int const n = as.size();
  std::vector<int> seq;
  std::function<void()> visit = [&]()
  {
    small_set s[2]; std::set<aligned8 const*> m[2];
    for (auto i : seq)
    {
      ++transitions;
      if (i == 2 * n) { s[0].swap(s[1]); m[0].swap(m[1]); continue; }
      auto k = i / n; auto a = as[i % n];
      if (m[k].erase(a)) s[k].erase(a); else { s[k].insert(a); m[k].insert(a); }
    }
    ++states;
    for (auto k : {0, 1}) if (auto w = differs(s[k], m[k], ps); not w.empty()) violation(text(seq), w);
    if (static_cast<int>(seq.size()) < depth)
      for (int i = 0; i <= 2 * n; ++i)
      {
        if (seq.empty() and i % workers != worker) continue;
        seq.push_back(i); visit(); seq.pop_back();
      }
  };
  visit();
}

static void sweeps(int k) // every subset of k addresses: all removed while iterating; every other one removed while iterating
{
  auto as = grid<aligned8 const*>({0, 63, 64, 127}, {0, 127}, {0, 64}, 7, 7); as.resize(k);
  auto ps = around(as);
  for (unsigned long bits = worker; bits < 1ul << k; bits += workers)
    for (int variant : {0, 1, 2})
    {
      small_set s; std::set<aligned8 const*> m;
      for (int i = 0; i < k; ++i) if (bits >> i & 1) { s.insert(as[i]); m.insert(as[i]); }
      std::size_t seen = 0, all = m.size();
      auto keep = m;
      for (auto x : s)
      {
        if (seen++ % 2 == 0 or variant == 0) { s.erase(x); keep.erase(x); ++transitions; }
        else if (variant == 2) { s.erase(x); s.insert(x); ++transitions; }
        if (seen > all) break;
      }
      ++states;
      if (seen != all) violation("subset " + std::to_string(bits), "iteration with removal meets " + std::to_string(seen) + " of " + std::to_string(all));
      if (auto w = differs(s, keep, ps); not w.empty()) violation("subset " + std::to_string(bits), w);
    }
}

// ---------------------------------------------------------------- the allocator
template <std::size_t Size> struct cell { unsigned char data[Size]; };

template <std::size_t Size, std::size_t N>
static std::string cells(std::vector<int> const& seq)
{
  using A = segregated_storage_allocator<cell<Size>, N>;
  A a;
  std::vector<std::pair<unsigned char *, unsigned char>> live;
  unsigned char stamp = 1;
  auto intact = [&]() { for (auto [p, v] : live) for (std::size_t i = 0; i < Size; ++i) if (p[i] != v) return false; return true; };
  for (auto op : seq)
  {
    if (op == 0)
    {
      auto p = reinterpret_cast<unsigned char *>(a.allocate(1));
      for (auto [q, v] : live) if (p < q + Size and q < p + Size) return "a cell overlaps a live one";
      if (reinterpret_cast<std::uintptr_t>(p) % 8) return "a cell is misaligned";
      std::memset(p, stamp, Size); live.emplace_back(p, stamp++);
    }
    else
    {
      auto p = live[op - 1].first; live.erase(live.begin() + (op - 1));
      a.deallocate(reinterpret_cast<cell<Size> *>(p), 1);
    }
    if (not intact()) return "the contents of a live cell changed";
  }
  return "";
}

template <std::size_t Size, std::size_t N>
static void allocations(int depth, int most)
{
  std::vector<std::vector<int>> all;
  std::vector<int> seq; int live = 0;
  std::function<void()> visit = [&]()
  {
    if (static_cast<int>(seq.size()) == depth) { all.push_back(seq); return; } // prefixes are covered by their extensions
    if (live < most) { seq.push_back(0); ++live; visit(); --live; seq.pop_back(); }
    for (int i = 1; i <= live; ++i) { seq.push_back(i); --live; visit(); ++live; seq.pop_back(); }
  };
  visit();
  for (std::size_t k = worker; k < all.size(); k += workers)
  {
    // a process of its own: the free list and the blocks are static
    int fd[2]; if (pipe(fd)) std::exit(4);
    auto pid = fork();
    if (pid == 0) { auto w = cells<Size, N>(all[k]); if (::write(fd[1], w.data(), w.size()) < 0) {} _exit(0); }
    close(fd[1]);
    char b[200]; auto n = ::read(fd[0], b, sizeof b); close(fd[0]);
    int status = 0; waitpid(pid, &status, 0);
    ++states; transitions += depth; ++checks;
    std::string w(b, n > 0 ? n : 0);
    if (status) w = "the process ended abnormally";
    if (not w.empty()) violation(text(all[k]), w);
  }
}

// ---------------------------------------------------------------- the heap
// model: a few roots, nodes with fields; real: the same with objects. Garbage of the model is what the collector must reclaim.
struct node { int type; int f[3]; };
static int const fields_of[] = {2, 1, 3, 2}; // pair, box, syntactic closure, error
static int const R = 2;

struct model
{
  std::vector<node> nodes; int root[R] = {-1, -1};

  model canonical() const // reachable part, numbered in order of discovery
  {
    model m; std::vector<int> number(nodes.size(), -1), order;
    auto see = [&](int x) { if (x < 0) return -1; if (number[x] < 0) { number[x] = order.size(); order.push_back(x); } return number[x]; };
    for (int r = 0; r < R; ++r) m.root[r] = see(root[r]);
    for (std::size_t i = 0; i < order.size(); ++i) { auto n = nodes[order[i]]; for (int k = 0; k < fields_of[n.type]; ++k) n.f[k] = see(n.f[k]); m.nodes.push_back(n); }
    return m;
  }

  std::string key() const
  {
    std::string s; for (auto r : root) s += static_cast<char>('a' + r);
    for (auto const& n : nodes) { s += static_cast<char>('0' + n.type); for (int k = 0; k < fields_of[n.type]; ++k) s += static_cast<char>('a' + n.f[k]); }
    return s;
  }
};

struct op { enum kind { make_, set, get, move, clear, realloc_, self } k; int r, a, b, c, d; };

static std::string text(op const& o)
{
  char b[80]; static char const* n[] = {"new", "set", "get", "move", "clear", "realloc", "self"}; std::snprintf(b, sizeof b, "%s(%d,%d,%d,%d,%d)", n[o.k], o.r, o.a, o.b, o.c, o.d); return b;
}

static bool apply(model & m, op const& o)
{
  auto root = [&](int i) { return i < 0 ? -1 : m.root[i]; };
  switch (o.k)
  {
  case op::make_: m.nodes.push_back({o.a, {root(o.b), root(o.c), root(o.d)}}); m.root[o.r] = m.nodes.size() - 1; return true;
  case op::set: if (m.root[o.r] < 0 or fields_of[m.nodes[m.root[o.r]].type] <= o.a) return false; m.nodes[m.root[o.r]].f[o.a] = root(o.b); return true;
  case op::get: if (m.root[o.a] < 0 or fields_of[m.nodes[m.root[o.a]].type] <= o.b) return false; m.root[o.r] = m.nodes[m.root[o.a]].f[o.b]; return true;
  case op::move: m.root[o.r] = m.root[o.a]; return true;
  case op::clear: m.root[o.r] = -1; return true;
  default: return true;
  }
}

static object static_root;
static std::vector<object> vector_root(1);

static object & real_root(int i) { return i ? vector_root.back() : static_root; }

static int type_of(object const& x) { return x.is<pair>() ? 0 : x.is<box>() ? 1 : x.is<syntactic_closure>() ? 2 : x.is<error>() ? 3 : -1; }

static object & field(object & x, int k)
{
  switch (type_of(x))
  {
  case 2: { auto & s = x.as<syntactic_closure>(); return const_cast<object &>(k == 0 ? s.syntactic_environment : k == 1 ? s.free_names : s.form); }
  default: return k ? const_cast<object &>(cdr(x)) : const_cast<object &>(car(x));
  }
}

static void apply(op const& o)
{
  auto root = [&](int i) -> object { return i < 0 ? object() : real_root(i); };
  switch (o.k)
  {
  case op::make_:
    {
      object x = root(o.b), y = root(o.c), z = root(o.d);
      if (o.a == 0) real_root(o.r) = cons(x, y);
      else if (o.a == 1) real_root(o.r) = make<box>(x, unit);
      else if (o.a == 2) real_root(o.r) = make<syntactic_closure>(x, y, z);
      else real_root(o.r) = make<error>(x, y);
      return;
    }
  case op::set: field(real_root(o.r), o.a) = root(o.b); return;
  case op::get: real_root(o.r) = field(real_root(o.a), o.b); return;
  case op::move: real_root(o.r) = real_root(o.a); return;
  case op::clear: real_root(o.r) = nullptr; return;
  case op::realloc_: { std::vector<object> v; v.reserve(vector_root.size() + 3); for (auto const& x : vector_root) v.push_back(x); v.emplace_back(v[0]); v.erase(v.begin()); vector_root.swap(v); vector_root.shrink_to_fit(); return; }
  case op::self: { object & x = real_root(o.r); x = static_cast<object const&>(x); object y = x; { object z = y; y = nullptr; x = z; } return; }
  }
}

static model abstraction() // of the real heap, from the roots
{
  model m; std::map<void const*, int> number; std::vector<object *> order;
  auto see = [&](object & x) { if (not x.get()) return -1; auto [i, fresh] = number.emplace(x.get(), order.size()); if (fresh) order.push_back(&x); return i->second; };
  for (int r = 0; r < R; ++r) m.root[r] = see(real_root(r));
  for (std::size_t i = 0; i < order.size(); ++i)
  {
    auto t = type_of(*order[i]); node n { t < 0 ? 1 : t, {-1, -1, -1} };
    if (t < 0) { m.root[0] = -2; return m; }
    for (int k = 0; k < fields_of[t]; ++k) n.f[k] = see(field(*order[i], k));
    m.nodes.push_back(n);
  }
  return m;
}

static bool always() noexcept { return true; }

static void heaps(int depth, int most)
{
  std::vector<op> ops;
  for (int r = 0; r < R; ++r)
  {
    for (int t = 0; t < 4; ++t)
      for (int x = -1; x < R; ++x) for (int y = -1; y < R; ++y) for (int z = -1; z < R; ++z)
      {
        if (fields_of[t] < 2 and y != -1) continue;
        if (fields_of[t] < 3 and z != -1) continue;
        ops.push_back({op::make_, r, t, x, y, z});
      }
    for (int f = 0; f < 3; ++f) for (int v = -1; v < R; ++v) ops.push_back({op::set, r, f, v, 0, 0});
    for (int s = 0; s < R; ++s) for (int f = 0; f < 3; ++f) ops.push_back({op::get, r, s, f, 0, 0});
    ops.push_back({op::move, r, 1 - r, 0, 0, 0}); ops.push_back({op::clear, r, 0, 0, 0, 0}); ops.push_back({op::self, r, 0, 0, 0, 0});
  }
  ops.push_back({op::realloc_, 0, 0, 0, 0, 0});

  struct entry { model m; std::size_t parent; int by; int depth; };
  std::vector<entry> queue { { model(), 0, -1, 0 } };
  std::unordered_set<std::string> seen { model().key() };

  for (int i = 0; i < 3; ++i) collect();
  auto const base = count(); auto const roots = status().root_count; auto const inner = status().non_root_count;

  for (std::size_t at = 0; at < queue.size(); ++at)
  {
    auto const here = queue[at];
    if (here.depth == depth) continue;
    std::vector<int> path; for (auto i = at; queue[i].by >= 0; i = queue[i].parent) path.insert(path.begin(), queue[i].by);
    for (int o = 0; o < static_cast<int>(ops.size()); ++o)
    {
      model m = here.m;
      if (not apply(m, ops[o])) continue;
      m = m.canonical();
      if (static_cast<int>(m.nodes.size()) > most) continue;
      auto key = m.key();
      if (seen.insert(key).second) queue.push_back({m, at, o, here.depth + 1});
      if ((at * 31 + o) % workers != static_cast<std::size_t>(worker)) continue;
      ++transitions;
      for (int mode : {0, 1, 2}) // collect at the end only, after every operation, at every allocation
      {
        #ifdef MEEVAX_VERIFICATION
        schedule = mode == 2 ? always : nullptr;
        #endif
        auto step = [&](int i) { apply(ops[i]); if (mode == 1) collect(); };
        for (auto i : path) step(i);
        step(o);
        #ifdef MEEVAX_VERIFICATION
        schedule = nullptr;
        #endif
        collect();
        std::string why;
        std::size_t filled = 0, held = 0;
        for (auto const& n : m.nodes) for (int k = 0; k < fields_of[n.type]; ++k) filled += n.f[k] >= 0;
        for (auto r : m.root) held += r >= 0;
        checks += 4;
        if (auto real = abstraction().key(); real != key) why = "the heap is " + real + " and should be " + key;
        else if (count() != base + m.nodes.size()) why = std::to_string(count() - base) + " live objects, should be " + std::to_string(m.nodes.size());
        else { auto s = status(); if (s.root_count != roots + held) why = "roots"; else if (s.non_root_count != inner + filled) why = "fields"; }
        for (int r = 0; r < R; ++r) real_root(r) = nullptr;
        collect();
        if (why.empty() and count() != base) why = std::to_string(count() - base) + " objects left when nothing is reachable";
        if (not why.empty())
        {
          std::string s; for (auto i : path) s += text(ops[i]) + " "; s += text(ops[o]); static char const* n[] = {"collect at the end: ", "collect after every operation: ", "collect at every allocation: "};
          violation(n[mode] + s, why);
        }
      }
    }
  }
  states = queue.size();
}

int main(int argc, char ** argv)
{
  std::vector<std::string> a(argv + 1, argv + argc);
  auto num = [&](std::size_t i) { return std::stoi(a.at(i)); };
  worker = num(a.size() - 2); workers = num(a.size() - 1);
  if (a[0] == "small")
  {
    auto as = num(1) == 2 ? grid<aligned8 const*>({0, 127}, {63, 64}, {0, 127}, 7, 7) : num(1) == 3 ? grid<aligned8 const*>({0, 63, 127}, {0, 64, 127}, {0, 63, 127}, 7, 7) : grid<aligned8 const*>({0, 63, 64, 127}, {0, 63, 64, 127}, {0, 63, 64, 127}, 7, 7);
    toggles<small_set>(as, around(as), num(2));
  }
  else if (a[0] == "real") { auto as = real_addresses(); auto ps = around(as, 47); toggles<real_set>(as, ps, num(1)); }
  else if (a[0] == "swap") exchanges(num(1));
  else if (a[0] == "erase") sweeps(num(1));
  else if (a[0] == "alloc")
  {
    switch (num(1)) { case 1: allocations<8, 1>(num(2), num(3)); break; case 2: allocations<40, 2>(num(2), num(3)); break; case 3: allocations<48, 3>(num(2), num(3)); break; default: return 2; }
  }
  else if (a[0] == "heap") heaps(num(1), num(2));
  else return 2;
  std::printf("N\t%zu\t%zu\t%zu\t%zu\n", states, transitions, checks, bad);
  std::fflush(stdout);
  _exit(0);
}
