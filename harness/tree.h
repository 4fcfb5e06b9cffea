// Reference model of structured data: a plain value tree, generators for it,
// and the comparison of a real datagram with it through the public API only.
#ifndef VF_TREE_H
#define VF_TREE_H

#include <cmath>
#include <limits>

#include "common.h"

#include <lamppost/messages/Datagram.h>

namespace vf
{
  using lp::messages::Datagram;
  using lp::messages::RawDatagram;
  using lp::messages::RawDatagramType;

  enum Kind { EMPTY, LIST, DICT, STR, INT, DBL, BOOL };

  struct Tree
  {
    Kind kind = EMPTY;
    std::string s;
    int i = 0;
    double d = 0;
    bool b = false;
    std::vector<Tree> list;
    std::map<std::string, Tree> dict;

    static Tree str(const std::string& v) { Tree t; t.kind = STR; t.s = v; return t; }
    static Tree num(int v) { Tree t; t.kind = INT; t.i = v; return t; }
    static Tree dbl(double v) { Tree t; t.kind = DBL; t.d = v; return t; }
    static Tree boolean(bool v) { Tree t; t.kind = BOOL; t.b = v; return t; }
    static Tree of(Kind k) { Tree t; t.kind = k; return t; }
  };

  struct TreeOpts
  {
    int depth = 4;
    int width = 5;
    bool jsonSafe = false;    // valid UTF-8 strings, finite doubles
    bool plainKeys = false;   // keys usable in lookup paths: no '/', not empty
    bool bigStrings = false;
    bool noNan = false;
    int wideIn = 0;           // one in how many trees is a list or dictionary of thousands of elements
  };

  inline std::string randomUtf8(Rng& r, size_t n)
  {
    std::string s;
    for(size_t i = 0; i < n; ++i)
    {
      switch(r.below(8))
      {
        case 0: s += "\xc3\xa4"; break;
        case 1: s += "\xe2\x82\xac"; break;
        case 2: s += "\xf0\x9f\x98\x80"; break;
        case 3: s += "\"\\/\b\f\n\r\t"[r.below(8)]; break;
        case 4: s += (char)(1 + r.below(31)); break;
        default: s += (char)(32 + r.below(95)); break;
      }
    }
    return s;
  }

  inline std::string randomString(Rng& r, bool jsonSafe, bool big = false)
  {
    static const char* const fixed[] = {
      "", "a", "0", "/", "null", "true", "Empty", " ", "type", "invocationId", "A", "the quick brown fox",
      "sixteen bytes...", "fifteen bytes..", "%s%n%d", "\"", "{}", "[]", "a/b", "//"};
    switch(r.below(8))
    {
      case 0: case 1: case 2: return fixed[r.below(sizeof fixed / sizeof *fixed)];
      case 3:
      {
        std::string s;
        size_t n = r.below(20);
        for(size_t i = 0; i < n; ++i) s += jsonSafe ? (char)(32 + r.below(95)) : (char)r.below(256);
        return s;
      }
      case 4: return jsonSafe ? randomUtf8(r, r.below(12)) : std::string("nul\0inside", 10);
      case 5:
      {
        static const size_t sizes[] = {127, 128, 255, 256, 257, 1000, 4095, 4096};
        size_t n = sizes[r.below(8)];
        if(big && r.chance(1, 4)) n = 65536 + r.below(70000);
        else if(!big && r.chance(3, 4)) n = 30;
        std::string s(n, 'x');
        for(size_t i = 0; i < n; i += 7) s[i] = (char)('a' + r.below(26));
        return s;
      }
      default: return randomUtf8(r, 1 + r.below(8));
    }
  }

  inline int randomInt(Rng& r)
  {
    static const int special[] = {
      0, 1, -1, 2, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, 16777215, 16777217,
      2147483647, (-2147483647 - 1), 2147483646, -2147483647, 1000000007, 6967, 6968};
    return r.chance(1, 2) ? special[r.below(sizeof special / sizeof *special)] : (int)(uint32_t)r.next();
  }

  inline double randomDouble(Rng& r, bool finite)
  {
    static const double special[] = {
      0.0, 1.0, -1.0, 0.5, 1.5, 1e-300, 1e300, 5e-324, 2147483648.0, 4294967296.0, 9007199254740993.0, 0.1, -0.1,
      3.141592653589793, 16777217.0, 1.7976931348623157e308, 2.2250738585072014e-308, -2147483649.0, 100.0};
    if(!finite && r.chance(1, 12)) return r.chance(1, 2) ? std::numeric_limits<double>::infinity() : -std::numeric_limits<double>::infinity();
    if(!finite && r.chance(1, 40)) return std::nan("");
    if(r.chance(1, 3)) return special[r.below(sizeof special / sizeof *special)];
    if(r.chance(1, 2))
    {
      // whole numbers and halves, in and around the ranges of the integer types
      switch(r.below(4))
      {
        case 0: return (double)(int32_t)(uint32_t)r.next();
        case 1: return (double)(int64_t)r.next();
        case 2: return std::ldexp(r.chance(1, 2) ? 1.0 : -1.0, (int)r.below(64)) + (double)((int)r.below(3) - 1);
        default: return ((double)(int64_t)(r.next() >> 28) - 34359738368.0) / 2;
      }
    }
    for(;;)
    {
      uint64_t bits = r.next();
      double d;
      memcpy(&d, &bits, sizeof d);
      if(std::isfinite(d) && d != 0) return d;
    }
  }

  inline Tree randomScalar(Rng& r, const TreeOpts& o)
  {
    switch(r.below(5))
    {
      case 0: return Tree::num(randomInt(r));
      case 1: { double d = randomDouble(r, o.jsonSafe || o.noNan); return Tree::dbl(d); }
      case 2: return Tree::boolean(r.chance(1, 2));
      case 3: return Tree::of(EMPTY);
      default: return Tree::str(randomString(r, o.jsonSafe, o.bigStrings));
    }
  }

  inline std::string randomKey(Rng& r, const TreeOpts& o)
  {
    for(;;)
    {
      std::string k = r.chance(1, 2) ? std::string(1, (char)('a' + r.below(5))) : randomString(r, o.jsonSafe, false);
      if(o.jsonSafe && k.find('\0') != std::string::npos) continue;
      if(o.plainKeys && (k.empty() || k.find('/') != std::string::npos)) continue;
      return k;
    }
  }

  inline Tree randomTree(Rng& r, const TreeOpts& o, int depth)
  {
    if(depth <= 0 || r.chance(1, 5)) return randomScalar(r, o);
    Tree t;
    size_t n = r.chance(1, 8) ? 0 : 1 + r.below(o.width);
    if(r.chance(1, 60)) n = 30 + r.below(40);
    if(r.chance(1, 2))
    {
      t.kind = LIST;
      for(size_t i = 0; i < n; ++i) t.list.push_back(randomTree(r, o, n > 20 ? 0 : depth - 1));
    }
    else
    {
      t.kind = DICT;
      for(size_t i = 0; i < n; ++i) t.dict[randomKey(r, o)] = randomTree(r, o, n > 20 ? 0 : depth - 1);
    }
    return t;
  }
  inline Tree randomTree(Rng& r, const TreeOpts& o)
  {
    if(o.wideIn == 0 || !r.chance(1, (uint64_t)o.wideIn)) return randomTree(r, o, o.depth);
    Tree t = Tree::of(r.chance(2, 3) ? LIST : DICT);
    static const size_t around[] = {255, 256, 257, 1000, 1024, 4096, 8192};
    size_t n = around[r.below(7)] + r.below(3);
    if(r.chance(1, 3)) n += r.below(3000);
    for(size_t i = 0; i < n; ++i)
    {
      Tree x = i % 5 == 0 ? Tree::str("e" + std::to_string(i)) : i % 7 == 0 ? Tree::of(EMPTY) : Tree::num((int)i);
      if(t.kind == LIST) t.list.push_back(x);
      else t.dict["k" + std::to_string(i)] = x;
    }
    if(r.chance(1, 2)) return t;
    Tree outer = Tree::of(r.chance(1, 2) ? LIST : DICT);
    if(outer.kind == LIST) { outer.list.push_back(t); outer.list.push_back(Tree::num(1)); }
    else { outer.dict["a"] = t; outer.dict["b"] = Tree::num(1); }
    return outer;
  }

  inline size_t nodes(const Tree& t)
  {
    size_t n = 1;
    for(auto& x : t.list) n += nodes(x);
    for(auto& x : t.dict) n += nodes(x.second);
    return n;
  }
  inline size_t depthOf(const Tree& t)
  {
    size_t n = 0;
    for(auto& x : t.list) n = std::max(n, depthOf(x));
    for(auto& x : t.dict) n = std::max(n, depthOf(x.second));
    return n + 1;
  }

  inline bool sameDouble(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
  inline bool hasNan(const Tree& t)
  {
    if(t.kind == DBL && std::isnan(t.d)) return true;
    for(auto& x : t.list) if(hasNan(x)) return true;
    for(auto& x : t.dict) if(hasNan(x.second)) return true;
    return false;
  }

  inline bool same(const Tree& a, const Tree& b)
  {
    if(a.kind != b.kind) return false;
    switch(a.kind)
    {
      case EMPTY: return true;
      case STR: return a.s == b.s;
      case INT: return a.i == b.i;
      case DBL: return sameDouble(a.d, b.d);
      case BOOL: return a.b == b.b;
      case LIST:
        if(a.list.size() != b.list.size()) return false;
        for(size_t i = 0; i < a.list.size(); ++i) if(!same(a.list[i], b.list[i])) return false;
        return true;
      case DICT:
        if(a.dict.size() != b.dict.size()) return false;
        for(auto& p : a.dict)
        {
          auto it = b.dict.find(p.first);
          if(it == b.dict.end() || !same(p.second, it->second)) return false;
        }
        return true;
    }
    return false;
  }

  inline std::string show(const Tree& t)
  {
    std::ostringstream o;
    switch(t.kind)
    {
      case EMPTY: return "empty";
      case STR: return "\"" + printable(t.s, 60) + "\"";
      case INT: return std::to_string(t.i);
      case DBL: o.precision(17); o << t.d << "d"; return o.str();
      case BOOL: return t.b ? "true" : "false";
      case LIST: { o << "["; size_t n = 0; for(auto& x : t.list) { if(++n > 6) { o << "..+" << t.list.size() - 6; break; } o << (n > 1 ? ", " : "") << show(x); } o << "]"; return o.str(); }
      case DICT: { o << "{"; size_t n = 0; for(auto& x : t.dict) { if(++n > 6) { o << "..+" << t.dict.size() - 6; break; } o << (n > 1 ? ", " : "") << "\"" << printable(x.first, 40) << "\": " << show(x.second); } o << "}"; return o.str(); }
    }
    return "?";
  }

  inline uint64_t hashTree(const Tree& t)
  {
    uint64_t h = t.kind + 17;
    switch(t.kind)
    {
      case EMPTY: break;
      case STR: h = mix(h, hashStr(t.s)); break;
      case INT: h = mix(h, (uint64_t)t.i); break;
      case DBL: { uint64_t bits; memcpy(&bits, &t.d, 8); h = mix(h, bits); } break;
      case BOOL: h = mix(h, t.b); break;
      case LIST: for(auto& x : t.list) h = mix(h, hashTree(x)); break;
      case DICT: for(auto& x : t.dict) h = mix(mix(h, hashStr(x.first)), hashTree(x.second)); break;
    }
    return h;
  }

  // ------------------------------------------------ real objects from a tree
  inline std::shared_ptr<RawDatagram> toRaw(const Tree& t)
  {
    std::shared_ptr<RawDatagram> r = std::make_shared<RawDatagram>();
    switch(t.kind)
    {
      case EMPTY: break;
      case STR: *r = t.s; break;
      case INT: *r = t.i; break;
      case DBL: *r = t.d; break;
      case BOOL: *r = t.b; break;
      case LIST:
        r = std::make_shared<RawDatagram>(RawDatagramType::List);
        for(auto& x : t.list) r->Add(toRaw(x));
        break;
      case DICT:
        r = std::make_shared<RawDatagram>(RawDatagramType::Dictionary);
        for(auto& x : t.dict) (*r)[x.first] = toRaw(x.second);
        break;
    }
    return r;
  }

  inline Datagram toDatagram(const Tree& t) { return Datagram(toRaw(t)); }

  // ------------------------------------------------ comparison, via the API
  // Empty string: equal. Otherwise where and how they differ. Never modifies
  // the datagram (indexes only what exists).
  inline std::string differs(Datagram& d, const Tree& t, const std::string& at = "$")
  {
    try
    {
      switch(t.kind)
      {
        case EMPTY:
          if(d.GetType() != RawDatagramType::Empty || !d.IsEmpty()) return at + ": expected empty";
          return "";
        case STR:
          if(d.GetType() != RawDatagramType::Value) return at + ": expected a string value";
          { std::string v = d.Get<std::string>(); if(v != t.s) return at + ": string is '" + printable(v, 80) + "', expected '" + printable(t.s, 80) + "'"; }
          return "";
        case INT:
          if(d.GetType() != RawDatagramType::Value) return at + ": expected an integer value";
          { int v = d.Get<int>(); if(v != t.i) return at + ": integer is " + std::to_string(v) + ", expected " + std::to_string(t.i); }
          return "";
        case DBL:
          if(d.GetType() != RawDatagramType::Value) return at + ": expected a double value";
          { double v = d.Get<double>(); if(!sameDouble(v, t.d)) { std::ostringstream o; o.precision(17); o << at << ": double is " << v << ", expected " << t.d; return o.str(); } }
          return "";
        case BOOL:
          if(d.GetType() != RawDatagramType::Value) return at + ": expected a boolean value";
          { bool v = d.Get<bool>(); if(v != t.b) return at + ": boolean is " + std::to_string(v) + ", expected " + std::to_string(t.b); }
          return "";
        case LIST:
          if(d.GetType() != RawDatagramType::List) return at + ": expected a list";
          if(d.GetCount() != t.list.size()) return at + ": list has " + std::to_string(d.GetCount()) + " items, expected " + std::to_string(t.list.size());
          for(size_t i = 0; i < t.list.size(); ++i)
          {
            if(t.list.size() > 2000 && i > 100 && i + 100 < t.list.size() && i % 997 != 0) continue;
            Datagram child = d[(unsigned int)i];
            std::string r = differs(child, t.list[i], at + "[" + std::to_string(i) + "]");
            if(!r.empty()) return r;
          }
          return "";
        case DICT:
          if(d.GetType() != RawDatagramType::Dictionary) return at + ": expected a dictionary";
          if(d.GetCount() != t.dict.size()) return at + ": dictionary has " + std::to_string(d.GetCount()) + " keys, expected " + std::to_string(t.dict.size());
          for(auto& p : t.dict)
          {
            if(!d.KeyExists(p.first)) return at + ": key '" + printable(p.first, 60) + "' missing";
            Datagram child = d[p.first];
            std::string r = differs(child, p.second, at + "." + printable(p.first, 30));
            if(!r.empty()) return r;
          }
          return "";
      }
    }
    catch(std::exception& e)
    {
      return at + ": reading a " + show(t).substr(0, 60) + " threw " + e.what();
    }
    return at + ": ?";
  }

  // Overwrites every leaf of the datagram in place.
  inline void vandalize(Datagram&& d, const Tree& t)
  {
    switch(t.kind)
    {
      case LIST: for(size_t i = 0; i < t.list.size(); ++i) vandalize(d[(unsigned int)i], t.list[i]); break;
      case DICT: for(auto& p : t.dict) vandalize(d[p.first], p.second); break;
      case STR: d = std::string("vandalized"); break;
      default: d = -4711; break;
    }
  }
  inline void vandalize(Datagram& d, const Tree& t) { vandalize(std::move(d), t); }

  // ------------------------------------------------ mutation of trees
  inline Tree* randomNode(Rng& r, Tree& t)
  {
    Tree* at = &t;
    for(;;)
    {
      if(r.chance(1, 4)) return at;
      if(at->kind == LIST && !at->list.empty()) at = &at->list[r.below(at->list.size())];
      else if(at->kind == DICT && !at->dict.empty())
      {
        auto it = at->dict.begin();
        std::advance(it, r.below(at->dict.size()));
        at = &it->second;
      }
      else return at;
    }
  }

  // Changes exactly one thing, so that the result differs from the original.
  inline void mutateTree(Rng& r, Tree& root, const TreeOpts& o)
  {
    Tree before = root;
    do
    {
      Tree* n = randomNode(r, root);
      switch(r.below(6))
      {
        case 0: *n = randomScalar(r, o); break;
        case 1: if(n->kind == LIST && !n->list.empty()) n->list.erase(n->list.begin() + r.below(n->list.size())); break;
        case 2: if(n->kind == LIST) n->list.insert(n->list.begin() + r.below(n->list.size() + 1), randomScalar(r, o)); break;
        case 3: if(n->kind == DICT && !n->dict.empty()) { auto it = n->dict.begin(); std::advance(it, r.below(n->dict.size())); n->dict.erase(it); } break;
        case 4: if(n->kind == DICT) n->dict[randomKey(r, o)] = randomScalar(r, o); break;
        case 5:
          switch(n->kind)
          {
            case INT: n->i ^= 1 << r.below(32); break;
            case BOOL: n->b = !n->b; break;
            case STR:
              if(n->s.empty()) n->s = "x";
              else n->s[r.below(n->s.size())] ^= 1 + r.below(o.jsonSafe ? 1 : 127);
              break;
            case DBL: n->d = n->d + 1 == n->d ? n->d / 2 : n->d + 1; break;
            case LIST: if(n->list.size() > 1) std::swap(n->list[0], n->list[r.below(n->list.size())]); break;
            default: break;
          }
          break;
      }
    } while(same(before, root));
  }
}

#endif
