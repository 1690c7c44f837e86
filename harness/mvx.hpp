// Shared by the harnesses: canonical serialisation of meevax data, independent of meevax's own writer.
#pragma once
#include <cinttypes>
#include <cmath>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <unordered_map>
#include <meevax/kernel/boot.hpp>
#include <meevax/kernel/box.hpp>
#include <meevax/kernel/boolean.hpp>
#include <meevax/kernel/closure.hpp>
#include <meevax/kernel/comparator.hpp>
#include <meevax/kernel/configuration.hpp>
#include <meevax/kernel/continuation.hpp>
#include <meevax/kernel/environment.hpp>
#include <meevax/kernel/eof.hpp>
#include <meevax/kernel/homogeneous_vector.hpp>
#include <meevax/kernel/input_string_port.hpp>
#include <meevax/kernel/interaction_environment.hpp>
#include <meevax/kernel/library.hpp>
#include <meevax/kernel/number.hpp>
#include <meevax/kernel/port.hpp>
#include <meevax/kernel/procedure.hpp>
#include <meevax/kernel/proper_list.hpp>
#include <meevax/kernel/syntactic_closure.hpp>
#include <meevax/kernel/transformer.hpp>
#include <meevax/kernel/vector.hpp>

namespace mvx
{
  using namespace meevax;

  inline std::string hex(std::uint64_t v, int w)
  {
    char b[32]; std::snprintf(b, sizeof b, "%0*" PRIx64, w, v); return b;
  }

  inline void quoted(std::string & o, std::vector<character> const& cs, char q)
  {
    o += q;
    for (auto const& c : cs)
    {
      auto k = static_cast<std::uint32_t>(c.codepoint);
      if (k >= 0x20 and k < 0x7f and k != '"' and k != '|' and k != '\\') { o += static_cast<char>(k); }
      else { o += "\\x"; o += hex(k, 1); o += ";"; }
    }
    o += q;
  }

  inline std::vector<character> decode(std::string const& s)
  {
    std::vector<character> r;
    for (std::size_t i = 0; i < s.size();)
    {
      unsigned char c = s[i]; int n = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4; std::uint32_t v = n == 1 ? c : c & (0xff >> (n + 1));
      for (int k = 1; k < n and i + k < s.size(); ++k) v = v << 6 | (static_cast<unsigned char>(s[i + k]) & 0x3f);
      r.emplace_back(v); i += n;
    }
    return r;
  }

  struct serializer
  {
    bool shared; // label every shared pair/vector, not only cyclic ones
    std::unordered_map<void const*, int> state; // 1 on path / seen once, 2 needs label
    std::unordered_map<void const*, int> label;
    std::string o;
    int next = 0;
    std::size_t limit = 4000000;

    static bool compound(object const& x) { return x.is<pair>() or x.is<vector>(); }

    void scan(object const& x) // iterative DFS; detects cycles (on-path) or sharing
    {
      struct frame { object const* x; std::size_t i; };
      std::vector<frame> st;
      std::unordered_map<void const*, int> color;
      if (not compound(x)) return;
      color[x.get()] = 1; st.push_back({&x, 0});
      while (not st.empty())
      {
        auto & f = st.back();
        object const* child = nullptr;
        if (f.x->is<pair>()) { auto const& p = f.x->as<pair>(); if (f.i == 0) child = &p.first; else if (f.i == 1) child = &p.second; }
        else { auto & v = f.x->as<vector>().objects; if (f.i < v.size()) child = &v[f.i]; }
        if (not child) { color[f.x->get()] = 2; st.pop_back(); continue; }
        f.i++;
        if (compound(*child))
        {
          auto & c = color[child->get()];
          if (c == 0) { c = 1; st.push_back({child, 0}); }
          else if (c == 1 or shared) state[child->get()] = 2;
        }
      }
    }

    void atom(object const& x)
    {
      if (x.is<null>()) o += "()";
      else if (x.is<bool>()) o += x.as<bool>() ? "#t" : "#f";
      else if (x.is<small_integer>()) o += std::to_string(x.as<small_integer>());
      else if (x.is<large_integer>()) { char * s = mpz_get_str(nullptr, 10, x.as<large_integer>().value); o += s; std::free(s); }
      else if (x.is<ratio>()) { char * s = mpq_get_str(nullptr, 10, x.as<ratio>().value); o += "q:"; o += s; std::free(s); }
      else if (x.is<double>()) { double d = x.as<double>(); std::uint64_t b; std::memcpy(&b, &d, 8); if (std::isnan(d)) o += "f:nan"; else o += "f:" + hex(b, 16); }
      else if (x.is<float>()) { float d = x.as<float>(); std::uint32_t b; std::memcpy(&b, &d, 4); if (std::isnan(d)) o += "s:nan"; else o += "s:" + hex(b, 8); }
      else if (x.is<complex>()) { o += "z:("; atom(x.as<complex>().real()); o += " "; atom(x.as<complex>().imag()); o += ")"; }
      else if (x.is<character>()) o += "c:" + hex(static_cast<std::uint32_t>(x.as<character>().codepoint), 1);
      else if (x.is<string>()) quoted(o, x.as<string>().characters, '"');
      else if (x.is<symbol>()) symbol_(x.as<symbol>().name);
      else if (x.is<eof>()) o += "<eof>";
      else if (x.is_also<error>()) { o += x.is<read_error>() ? "<read-error " : x.is<file_error>() ? "<file-error " : "<error "; go(car(x)); o += " "; go(cdr(x)); o += ">"; }
      else if (x.is<closure>()) o += "<closure>";
      else if (x.is<continuation>()) o += "<continuation>";
      else if (x.is<procedure>()) o += "<procedure>";
      else if (x.is<box>()) { o += "<box "; go(x.as<box>().first); o += ">"; }
      else if (x.is_also<syntactic_closure>()) { o += "<sc>"; }
      else if (x.is_also<environment>()) o += "<environment>";
      else if (x.is_also<port>()) o += "<port>";
      #define HV(T) else if (x.is<T##vector>()) { o += "#" #T "("; bool first = true; for (auto v : x.as<T##vector>().values) { if (not first) o += " "; first = false; num(v); } o += ")"; }
      HV(s8) HV(s16) HV(s32) HV(s64) HV(u8) HV(u16) HV(u32) HV(u64) HV(f32) HV(f64)
      #undef HV
      else if (x == unspecified) o += "<unspecified>";
      else o += "<other>";
    }

    template <typename T> void num(T v)
    {
      if constexpr (std::is_same_v<T, double>) { std::uint64_t b; std::memcpy(&b, &v, 8); o += std::isnan(v) ? "f:nan" : "f:" + hex(b, 16); }
      else if constexpr (std::is_same_v<T, float>) { std::uint32_t b; std::memcpy(&b, &v, 4); o += std::isnan(v) ? "s:nan" : "s:" + hex(b, 8); }
      else o += std::to_string(v);
    }

    void symbol_(std::string const& n)
    {
      bool plain = not n.empty();
      for (unsigned char c : n) if (not (std::isalnum(c) or std::strchr("!$%&*/<=>?^_~+-.@", c)) or c == 0) plain = false;
      if (plain and not std::isdigit(static_cast<unsigned char>(n[0])) and n[0] != '+' and n[0] != '-' and n[0] != '.') o += n;
      else if (n == "+" or n == "-" or n == "...") o += n;
      else quoted(o, decode(n), '|');
    }

    bool labelled(object const& x) // emits #n# and returns true, or emits #n= when first met
    {
      if (auto it = state.find(x.get()); it != state.end() and it->second == 2)
      {
        if (auto l = label.find(x.get()); l != label.end()) { o += "#" + std::to_string(l->second) + "#"; return true; }
        label[x.get()] = next; o += "#" + std::to_string(next++) + "=";
      }
      return false;
    }

    void go(object const& x)
    {
      if (o.size() > limit) return;
      if (x.is<pair>())
      {
        if (labelled(x)) return;
        o += "(";
        object const* p = &x;
        for (;;)
        {
          go(p->as<pair>().first);
          object const& d = p->as<pair>().second;
          if (d.is<null>()) break;
          if (d.is<pair>() and not (state.count(d.get()) and state[d.get()] == 2)) { o += " "; p = &d; continue; }
          o += " . "; go(d); break;
        }
        o += ")";
      }
      else if (x.is<vector>())
      {
        if (labelled(x)) return;
        o += "#(";
        bool first = true;
        for (auto const& e : x.as<vector>().objects) { if (not first) o += " "; first = false; go(e); }
        o += ")";
      }
      else atom(x);
    }
  };

  inline std::string ser(object const& x, bool shared = false)
  {
    serializer s { shared, {}, {}, {} };
    s.scan(x);
    s.go(x);
    return s.o;
  }

  inline std::string & trace() { static std::string t; return t; }

  inline void escape(std::string & out, std::string const& s)
  {
    for (unsigned char c : s)
    {
      switch (c)
      {
      case '\n': out += "\\n"; break;
      case '\t': out += "\\t"; break;
      case '\\': out += "\\\\"; break;
      default: if (c < 0x20 or c == 0x7f) { char b[8]; std::snprintf(b, sizeof b, "\\x%02x", c); out += b; } else out += static_cast<char>(c);
      }
    }
  }

  // collection schedules: every n-th allocation point of the window, or exactly the k-th
  struct window { bool on = false; long every = 0, at = 0, seen = 0, limit = 0, done = 0; };
  inline window & gcw() { static window w; return w; }
  #ifdef MEEVAX_VERIFICATION
  inline auto due() noexcept -> bool
  {
    auto & w = gcw();
    if (not w.on) return false;
    auto k = w.seen++;
    bool r = (w.every and k % w.every == 0) or (w.at >= 0 and k == w.at);
    if (r) ++w.done;
    return r;
  }
  #endif

  inline auto & library_hook() { static std::vector<std::pair<char const*, procedure::signature>> extra; return extra; }

  inline void define_verif()
  {
    static std::vector<std::pair<char const*, procedure::signature>> const ps = []
    {
      std::vector<std::pair<char const*, procedure::signature>> v
      {
        { "ev",      [](let const& xs) -> object { bool first = true; for (let const& x : xs | as_proper_list) { trace() += first ? "" : " "; trace() += ser(x); first = false; } trace() += ";"; return car(xs); } },
        { "ser",     [](let const& xs) -> object { return make<string>(ser(car(xs))); } },
        { "ser/s",   [](let const& xs) -> object { return make<string>(ser(car(xs), true)); } },
        { "gc",      [](let const&) -> object { collect(); return unspecified; } },
        { "live",    [](let const&) -> object { auto n = count(); for (;;) { collect(); if (count() == n) break; n = count(); } return make<small_integer>(static_cast<small_integer>(n)); } },
        { "gc/every", [](let const& xs) -> object { gcw() = window { true, car(xs).as<small_integer>(), -1 }; return unspecified; } },
        { "gc/at",   [](let const& xs) -> object { gcw() = window { true, 0, car(xs).as<small_integer>() }; return unspecified; } },
        { "gc/off",  [](let const&) -> object { gcw().on = false; return make<small_integer>(static_cast<small_integer>(gcw().seen)); } },
        { "int32?",  [](let const& xs) -> object { return make<bool>(car(xs).is<small_integer>()); } },
      };
      for (auto const& e : library_hook()) v.push_back(e);
      return v;
    }();
    libraries().emplace("(verif)", make<library>([](auto define)
    {
      let xs = unit;
      for (auto const& [name, f] : ps) { xs = cons(define(make_symbol(name), make<procedure>(name, f)), xs); }
      return xs;
    }));
  }

  struct outcome { char status; std::string value; };

  // Evaluates every form of `text` in `e`; the value is that of the last form.
  inline outcome run(environment & e, std::string const& text, bool shared = false)
  {
    try
    {
      let result = unspecified;
      auto port = input_string_port(text);
      for (;;)
      {
        let const form = port.read();
        if (form.is<eof>()) break;
        result = e.evaluate(form);
      }
      return { 'v', ser(result, shared) };
    }
    catch (int status) { return { 'x', std::to_string(status) }; }
    catch (error const& x) { return { 'e', (dynamic_cast<read_error const*>(&x) ? "<read-error " : dynamic_cast<file_error const*>(&x) ? "<file-error " : "<error ") + ser(x.message()) + " " + ser(x.irritants()) + ">" }; }
    catch (object const& x) { return { 'o', ser(x) }; }
    catch (std::exception const& x) { std::string s; escape(s, x.what()); return { 'c', s }; }
  }
}
