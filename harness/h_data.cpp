// D01..D08: structured data, its text and wire forms, byte buffers, sender
// routes. Deciding monitors: reference models compared after every step, plus
// AddressSanitizer and UndefinedBehaviorSanitizer underneath.
#include "json_out.h"
#include "tree.h"

#include <type_traits>

#include <lamppost/data/RawBytes.h>
#include <lamppost/exceptions/Exception.h>
#include <lamppost/messages/Message.h>

using namespace vf;
using lp::data::RawBytes;
using lp::messages::Data;
using lp::messages::DataBase;
using lp::messages::Message;
namespace ex = lp::exceptions;

namespace
{
  // ====================================================== D01: operation model
  struct Node;
  typedef std::shared_ptr<Node> NP;
  struct Node
  {
    Tree leaf;                       // for scalar kinds
    Kind kind = EMPTY;
    std::vector<NP> list;
    std::map<std::string, NP> dict;
    bool foreign = false;            // holds a value of a type outside the four
  };
  NP fromTree(const Tree& t)
  {
    NP n = std::make_shared<Node>();
    n->kind = t.kind;
    if(t.kind == LIST) for(auto& x : t.list) n->list.push_back(fromTree(x));
    else if(t.kind == DICT) for(auto& x : t.dict) n->dict[x.first] = fromTree(x.second);
    else n->leaf = t;
    return n;
  }
  Tree toTree(const NP& n)
  {
    if(n->kind == LIST) { Tree t = Tree::of(LIST); for(auto& x : n->list) t.list.push_back(toTree(x)); return t; }
    if(n->kind == DICT) { Tree t = Tree::of(DICT); for(auto& x : n->dict) t.dict[x.first] = toTree(x.second); return t; }
    Tree t = n->leaf;
    t.kind = n->kind;
    return t;
  }
  size_t sizeOf(const NP& n)
  {
    size_t s = 1;
    for(auto& x : n->list) s += sizeOf(x);
    for(auto& x : n->dict) s += sizeOf(x.second);
    return s;
  }
  // in place: whoever refers to n sees the new content; its old children are let go
  void become(const NP& n, const NP& other)
  {
    NP keepAlive = other;
    Node copy = *other;
    *n = copy;
  }

  struct Handle
  {
    std::shared_ptr<Datagram> d;
    NP n;
  };

  // Expected outcome of an operation that may be refused.
  template<class F> std::string outcome(F f)
  {
    try { f(); return "ok"; }
    catch(ex::KeyNotFoundException& e) { return "key:" + e.GetKey(); }
    catch(ex::IndexOutOfBoundsException& e) { return "index:" + std::to_string(e.GetIndex()); }
    catch(ex::InvalidOperationException&) { return "invalid"; }
    catch(ex::Exception& e) { return std::string("library-exception:") + e.what(); }
    catch(std::exception& e) { return std::string("foreign-exception:") + e.what(); }
  }

  const char* const LITERALS[] = {"literal", "", "true", "0", "some longer literal text that does not fit a small string"};

  void caseD01(Case& c)
  {
    Rng& r = c.rng;
    TreeOpts o;
    o.depth = 3;
    o.width = 4;
    std::vector<Handle> hs;
    std::vector<std::shared_ptr<RawDatagram>> raws;   // of the roots
    std::string trace;
    uint64_t sig = 7;

    auto addRoot = [&](const Tree& t)
      {
        std::shared_ptr<RawDatagram> raw = toRaw(t);
        Handle h;
        h.d = std::make_shared<Datagram>(raw);
        h.n = fromTree(t);
        hs.push_back(h);
        raws.push_back(raw);
      };
    addRoot(Tree::of(EMPTY));
    addRoot(randomTree(r, o));

    // the three declared starting kinds
    {
      Datagram l(RawDatagramType::List), d(RawDatagramType::Dictionary), e;
      c.require(l.GetType() == RawDatagramType::List && l.GetCount() == 0, "initial", "a new list is not an empty list");
      c.require(d.GetType() == RawDatagramType::Dictionary && d.GetCount() == 0, "initial", "a new dictionary is not an empty dictionary");
      c.require(e.IsEmpty(), "initial", "a new datagram is not empty");
      const char* literal = LITERALS[r.below(5)];
      int i = randomInt(r);
      Datagram fromText(literal), fromString{std::string(literal)}, fromInt(i), fromBool(i % 2 == 0), fromDouble((double)i);
      std::string diff;
      for(const std::string& x : {differs(fromText, Tree::str(literal)), differs(fromString, Tree::str(literal)), differs(fromInt, Tree::num(i)),
                                  differs(fromBool, Tree::boolean(i % 2 == 0)), differs(fromDouble, Tree::dbl(i))})
        if(!x.empty() && diff.empty()) diff = x;
      c.require(diff.empty(), "initial-value", "a datagram made from a value does not hold it: " + diff);
      // from values made beforehand, over whatever there was
      Datagram zero(RawDatagramType::Value);
      RawDatagram fromData(std::shared_ptr<lp::messages::DataBase>(std::make_shared<lp::messages::Data<std::string>>(literal)));
      std::shared_ptr<RawDatagram> over = toRaw(randomTree(r, o));
      *over = std::shared_ptr<lp::messages::DataBase>(std::make_shared<lp::messages::Data<int>>(i));
      Datagram overAll(over), holding(std::make_shared<RawDatagram>(fromData));
      for(const std::string& x : {differs(zero, Tree::num(0)), differs(holding, Tree::str(literal)), differs(overAll, Tree::num(i))})
        c.require(x.empty(), "initial-value", "a datagram given a value does not hold just that: " + x);
      c.require(!over->KeyExists("a"), "initial-value", "a datagram given a value has keys");
    }

    auto check = [&](const Handle& h, const std::string& what)
      {
        std::string diff = differs(*h.d, toTree(h.n));
        c.count("states_compared");
        if(!diff.empty()) c.fail("model-mismatch:" + what, "after " + what + ": " + diff + " | history: " + trace);
      };

    size_t steps = 10 + r.below(c.thorough ? 120 : 60);
    for(size_t step = 0; step < steps && !c.failed(); ++step)
    {
      size_t hi = r.below(hs.size());
      Handle h = hs[hi];
      NP n = h.n;
      if(sizeOf(n) > 4000) { become(n, fromTree(Tree::of(EMPTY))); *h.d = Datagram(); continue; }
      std::string key = randomKey(r, o);
      if(n->kind == DICT && !n->dict.empty() && r.chance(2, 3)) { auto it = n->dict.begin(); std::advance(it, r.below(n->dict.size())); key = it->first; }
      unsigned int index = n->kind == LIST && r.chance(5, 6) ? (unsigned)r.below(n->list.size() + 1) : (r.chance(1, 5) ? 0xffffffffu : (unsigned)r.below(4));
      unsigned op = (unsigned)r.below(22);
      std::string what = "op" + std::to_string(op);
      sig = mix(mix(sig, op), hi);
      c.count("operations");
      auto expect = [&](const std::string& got, const std::string& want)
        {
          c.count("outcomes_checked");
          if(want != "ok") c.count("refusals_checked");
          if(got != want) c.fail("outcome:" + what, what + " gave '" + got + "', expected '" + want + "' on " + show(toTree(n)) + " | history: " + trace);
        };
      switch(op)
      {
        case 0: { what = "assign-int"; int v = randomInt(r); *h.d = v; become(n, fromTree(Tree::num(v))); } break;
        case 1: { what = "assign-double"; double v = randomDouble(r, false); *h.d = v; become(n, fromTree(Tree::dbl(v))); } break;
        case 2: { what = "assign-bool"; bool v = r.chance(1, 2); *h.d = v; become(n, fromTree(Tree::boolean(v))); } break;
        case 3: { what = "assign-string"; std::string v = randomString(r, false); *h.d = v; become(n, fromTree(Tree::str(v))); } break;
        case 4: { what = "assign-literal"; const char* v = LITERALS[r.below(5)]; *h.d = v; become(n, fromTree(Tree::str(v))); } break;
        case 5: case 6:
        {
          what = "set-key";
          Tree v = randomScalar(r, o);
          if(n->kind != DICT) { become(n, fromTree(Tree::of(DICT))); }
          NP& slot = n->dict[key];
          if(!slot) slot = std::make_shared<Node>();
          become(slot, fromTree(v));
          switch(v.kind)
          {
            case STR: (*h.d)[key] = v.s; break;
            case INT: (*h.d)[key] = v.i; break;
            case DBL: (*h.d)[key] = v.d; break;
            case BOOL: (*h.d)[key] = v.b; break;
            default: (*h.d)[key] = Datagram(); break;
          }
        } break;
        case 7:
        {
          what = "set-nested-key";
          std::string key2 = randomKey(r, o);
          int v = randomInt(r);
          if(n->kind != DICT) become(n, fromTree(Tree::of(DICT)));
          NP& slot = n->dict[key];
          if(!slot) slot = std::make_shared<Node>();
          if(slot->kind != DICT) become(slot, fromTree(Tree::of(DICT)));
          slot->dict[key2] = slot->dict.count(key2) ? slot->dict[key2] : std::make_shared<Node>();
          become(slot->dict[key2], fromTree(Tree::num(v)));
          (*h.d)[key][key2] = v;
        } break;
        case 8:
        {
          what = "assign-datagram";
          Handle other = hs[r.below(hs.size())];
          if(sizeOf(other.n) + sizeOf(n) > 2000) break;
          NP copy = fromTree(toTree(other.n));
          if(r.chance(1, 2)) *h.d = *other.d;
          else { Datagram temporary(*other.d); *h.d = temporary; }
          become(n, copy);
        } break;
        case 9:
        {
          what = "assign-to-key";
          Handle other = hs[r.below(hs.size())];
          if(sizeOf(other.n) + sizeOf(n) > 2000) break;
          // the subscript is evaluated first: it may create the key
          if(n->kind != DICT) become(n, fromTree(Tree::of(DICT)));
          NP& slot = n->dict[key];
          if(!slot) slot = std::make_shared<Node>();
          Datagram place = (*h.d)[key];
          NP copy = fromTree(toTree(other.n));
          place = *other.d;
          NP target = slot;
          become(target, copy);
        } break;
        case 10: case 11:
        {
          what = "add-item";
          Tree v = randomTree(r, o, 1);
          if(n->kind != LIST) become(n, fromTree(Tree::of(LIST)));
          n->list.push_back(fromTree(v));
          h.d->Add(toRaw(v));
        } break;
        case 12:
        {
          what = "remove-key";
          std::string want = n->kind != DICT ? "invalid" : n->dict.count(key) ? "ok" : "key:" + key;
          std::string got = outcome([&] { h.d->Remove(key); });
          expect(got, want);
          if(want == "ok") n->dict.erase(key);
        } break;
        case 13:
        {
          what = "remove-index";
          std::string want = n->kind != LIST ? "invalid" : index < n->list.size() ? "ok" : "index:" + std::to_string((int)index);
          std::string got = outcome([&] { h.d->Remove(index); });
          expect(got, want);
          if(want == "ok") n->list.erase(n->list.begin() + index);
        } break;
        case 14:
        {
          what = "clear";
          if(!r.chance(1, 3)) break;
          std::string want = n->kind == LIST || n->kind == DICT ? "ok" : "invalid";
          std::string got = outcome([&] { h.d->Clear(); });
          expect(got, want);
          if(want == "ok") { n->list.clear(); n->dict.clear(); }
        } break;
        case 15:
        {
          what = "count";
          unsigned got = 0;
          std::string want = n->kind == LIST || n->kind == DICT ? "ok" : "invalid";
          expect(outcome([&] { got = h.d->GetCount(); }), want);
          size_t size = n->kind == LIST ? n->list.size() : n->dict.size();
          if(want == "ok" && got != size) c.fail("count", "count is " + std::to_string(got) + ", expected " + std::to_string(size));
        } break;
        case 16:
        {
          what = "key-exists";
          bool want = n->kind == DICT && n->dict.count(key);
          bool got = h.d->KeyExists(key);
          if(got != want) c.fail("key-exists", std::string("key reported ") + (got ? "present" : "absent") + " wrongly | history: " + trace);
        } break;
        case 17:
        {
          what = "take-element";
          if(n->kind == DICT || (n->kind != LIST && r.chance(1, 3)))
          {
            if(n->kind != DICT) become(n, fromTree(Tree::of(DICT)));
            NP& slot = n->dict[key];
            if(!slot) slot = std::make_shared<Node>();
            Handle e;
            e.n = slot;
            Datagram element = (*h.d)[key];
            // a second way to the same element, by storage rather than by copy
            e.d = std::shared_ptr<Datagram>(new Datagram((*h.d)[key]));
            hs.push_back(e);
          }
          else
          {
            bool wasList = n->kind == LIST;
            std::shared_ptr<Datagram> got;
            std::string want = wasList && index < n->list.size() ? "ok" : "index:" + std::to_string((int)index);
            std::string res = outcome([&] { got = std::shared_ptr<Datagram>(new Datagram((*h.d)[index])); });
            expect(res, want);
            if(want == "ok" && res == "ok")
            {
              Handle e;
              e.n = n->list[index];
              e.d = got;
              hs.push_back(e);
            }
            else if(!wasList)
            {
              // Reading an index of something that is no list is refused; what
              // is left behind (the old content or an empty list) is not
              // specified, so the model follows.
              if(h.d->GetType() == RawDatagramType::List && h.d->GetCount() == 0) become(n, fromTree(Tree::of(LIST)));
            }
          }
        } break;
        case 18:
        {
          what = "typed-read";
          std::string want[6];
          for(auto& w : want) w = "invalid";
          if(n->kind == INT) want[0] = "ok";
          if(n->kind == DBL) want[1] = "ok";
          if(n->kind == BOOL) want[2] = "ok";
          if(n->kind == STR) want[3] = "ok";
          int iv = 0; double dv = 0; bool bv = false; std::string sv;
          expect(outcome([&] { iv = h.d->Get<int>(); }), want[0]);
          expect(outcome([&] { dv = h.d->Get<double>(); }), want[1]);
          expect(outcome([&] { bv = h.d->Get<bool>(); }), want[2]);
          expect(outcome([&] { sv = h.d->Get<std::string>(); }), want[3]);
          expect(outcome([&] { h.d->Get<unsigned int>(); }), "invalid");
          expect(outcome([&] { h.d->Get<long>(); }), "invalid");
          bool okv = true;
          if(n->kind == INT) okv = iv == n->leaf.i;
          if(n->kind == DBL) okv = sameDouble(dv, n->leaf.d);
          if(n->kind == BOOL) okv = bv == n->leaf.b;
          if(n->kind == STR) okv = sv == n->leaf.s;
          if(!okv) c.fail("typed-read", "value read differs from value stored | history: " + trace);
        } break;
        case 19:
        {
          what = "copy-to-new-root";
          if(sizeOf(n) > 500) break;
          Handle e;
          e.d = std::make_shared<Datagram>(*h.d);
          e.n = fromTree(toTree(n));
          hs.push_back(e);
        } break;
        case 20:
        {
          what = "compare";
          Handle other = hs[r.below(hs.size())];
          Tree a = toTree(n), b = toTree(other.n);
          if(!hasNan(a) && !hasNan(b))
          {
            bool want = same(a, b);
            if((*h.d == *other.d) != want || (*other.d == *h.d) != want)
              c.fail("compare", "equality reported wrongly between " + show(a) + " and " + show(b));
          }
        } break;
        case 21:
        {
          what = "print";
          std::ostringstream out;
          out << *h.d;
          if(out.str().empty() && n->kind != STR) c.fail("print", "nothing printed");
        } break;
      }
      if(trace.size() < 3000) trace += (trace.empty() ? "" : " ") + what + "#" + std::to_string(hi);
      check(h, what);
      if(step % 8 == 7) for(auto& x : hs) check(x, what + "(elsewhere)");
      if(hs.size() > 12) { hs.erase(hs.begin() + 2 + r.below(hs.size() - 2)); }
    }
    for(auto& x : hs) check(x, "end");
    // replacing an element by pointer, on the raw interface
    if(!c.failed())
    {
      std::shared_ptr<RawDatagram> raw = raws[1];
      *raw = std::string("x");
      (*raw)["k"] = toRaw(Tree::num(4));
      Datagram top(raw);
      c.require(top.GetCount() == 1 && top["k"].Get<int>() == 4, "raw-replace", "element put by pointer is not the one read back");
    }
    c.sig(sig);
    c.sample(trace.substr(0, 300));
  }

  // ================================================= D02: copies and equality
  Datagram byValue(Datagram d) { return d; }

  void caseD02(Case& c)
  {
    Rng& r = c.rng;
    TreeOpts o;
    o.depth = 1 + (int)r.below(5);
    o.noNan = true;
    Tree t = randomTree(r, o);
    if(r.chance(1, 30))
    {
      t = Tree::of(r.chance(1, 2) ? LIST : DICT);
      size_t n = 200 + r.below(r.chance(1, 4) ? 5000 : 800);
      for(size_t i = 0; i < n; ++i) { if(t.kind == LIST) t.list.push_back(Tree::num((int)i)); else t.dict["k" + std::to_string(i)] = Tree::num((int)i); }
    }
    Datagram original = toDatagram(t);
    c.maxOf("nodes", nodes(t));
    c.sig(hashTree(t));
    c.sample(show(t).substr(0, 200));

    auto checkIs = [&](Datagram& d, const Tree& want, const std::string& what)
      {
        std::string diff = differs(d, want);
        c.count("comparisons");
        if(!diff.empty()) c.fail("content:" + what, what + ": " + diff + " (tree " + show(want).substr(0, 300) + ")");
      };
    auto checkEq = [&](const Datagram& a, const Tree& ta, const Datagram& b, const Tree& tb, const std::string& what)
      {
        bool want = same(ta, tb);
        c.count("equalities");
        if((a == b) != want || (b == a) != want)
          c.fail("equality:" + what, what + ": reported " + ((a == b) ? "equal" : "unequal") + "/" + ((b == a) ? "equal" : "unequal") + " for " + show(ta).substr(0, 300) + " and " + show(tb).substr(0, 300));
      };

    checkIs(original, t, "built");
    checkEq(original, t, original, t, "reflexive");

    // all the ways of copying
    std::vector<std::pair<std::string, std::shared_ptr<Datagram>>> copies;
    copies.push_back({"copy-construct", std::make_shared<Datagram>(original)});
    { const Datagram& cr = original; copies.push_back({"copy-construct-const", std::make_shared<Datagram>(cr)}); }
    { auto d = std::make_shared<Datagram>(); *d = original; copies.push_back({"assign", d}); }
    { auto d = std::make_shared<Datagram>(toRaw(randomTree(r, o))); *d = original; copies.push_back({"assign-over", d}); }
    copies.push_back({"by-value", std::make_shared<Datagram>(byValue(original))});
    { Datagram holder; holder["k"] = original; auto d = std::make_shared<Datagram>(); *d = holder["k"]; copies.push_back({"through-key", d}); }
    copies.push_back({"raw-copy", std::make_shared<Datagram>(toRaw(t)->Copy())});
    { Message m("s", "/t", original); copies.push_back({"through-message", std::make_shared<Datagram>(m.GetDatagram())}); Message m2(m); copies.push_back({"through-message-copy", std::make_shared<Datagram>(m2.GetDatagram())}); }

    for(auto& p : copies)
    {
      checkIs(*p.second, t, p.first);
      checkEq(*p.second, t, original, t, p.first);
    }
    // transitivity over the copies
    checkEq(*copies[0].second, t, *copies.back().second, t, "between-copies");

    // Independence: change each copy through its own elements (reached by
    // subscript, so at any depth), and look at all the others.
    for(size_t k = 0; k < copies.size() && !c.failed(); ++k)
    {
      Tree changed = t;
      // walk down to a random node, in both worlds, and overwrite it in place
      Tree* at = &changed;
      std::shared_ptr<Datagram> place = copies[k].second;
      for(;;)
      {
        if(at->kind == LIST && !at->list.empty() && r.chance(4, 5))
        {
          size_t i = r.below(at->list.size());
          at = &at->list[i];
          place = std::shared_ptr<Datagram>(new Datagram((*place)[(unsigned)i]));
        }
        else if(at->kind == DICT && !at->dict.empty() && r.chance(4, 5))
        {
          auto it = at->dict.begin();
          std::advance(it, r.below(at->dict.size()));
          at = &it->second;
          place = std::shared_ptr<Datagram>(new Datagram((*place)[it->first]));
        }
        else break;
      }
      switch(r.below(3))
      {
        case 0: *at = Tree::str("changed"); *place = std::string("changed"); break;
        case 1: if(at->kind != DICT) *at = Tree::of(DICT); at->dict["new"] = Tree::num(1); (*place)["new"] = 1; break;
        case 2: if(at->kind != LIST) *at = Tree::of(LIST); at->list.push_back(Tree::num(2)); place->Add(std::make_shared<RawDatagram>(2)); break;
      }
      checkIs(*copies[k].second, changed, copies[k].first + "-changed");
      checkIs(original, t, "original-after-" + copies[k].first);
      for(size_t m = k + 1; m < copies.size(); ++m) checkIs(*copies[m].second, t, copies[m].first + "-after-" + copies[k].first);
      checkEq(*copies[k].second, changed, original, t, copies[k].first + "-changed");
      c.count("independence_checks");
      c.alive();
    }

    // near misses: one mutation apart, and unrelated ones
    for(int k = 0; k < 6 && !c.failed(); ++k)
    {
      Tree m = t;
      mutateTree(r, m, o);
      Datagram dm = toDatagram(m);
      checkEq(original, t, dm, m, "one-mutation");
      Tree u = randomTree(r, o);
      Datagram du = toDatagram(u);
      checkEq(original, t, du, u, "unrelated");
      checkEq(dm, m, du, u, "unrelated2");
    }

    // values of different type are never equal, same type by value
    {
      std::vector<std::shared_ptr<DataBase>> vs;
      int i = randomInt(r);
      vs.push_back(std::make_shared<Data<int>>(i));
      vs.push_back(std::make_shared<Data<double>>((double)i));
      vs.push_back(std::make_shared<Data<bool>>(i != 0));
      vs.push_back(std::make_shared<Data<std::string>>(std::to_string(i)));
      vs.push_back(std::make_shared<Data<unsigned int>>((unsigned)i));
      for(size_t a = 0; a < vs.size(); ++a)
        for(size_t b = 0; b < vs.size(); ++b)
        {
          std::shared_ptr<DataBase> copy = vs[b]->Copy();
          if(vs[a]->Equals(copy) != (a == b)) c.fail("value-equality", "values of types " + std::to_string(a) + "," + std::to_string(b) + " compare wrongly");
          c.count("value_equalities");
        }
    }
  }

  // ========================================================= D03: path lookup
  const Tree* resolve(const Tree& t, const std::vector<std::string>& path)
  {
    const Tree* at = &t;
    for(auto& seg : path)
    {
      if(at->kind != DICT) return nullptr;
      auto it = at->dict.find(seg);
      if(it == at->dict.end()) return nullptr;
      at = &it->second;
    }
    return at;
  }

  void caseD03(Case& c)
  {
    Rng& r = c.rng;
    TreeOpts o;
    o.depth = 2 + (int)r.below(4);
    o.plainKeys = true;
    o.noNan = true;
    Tree t = randomTree(r, o);
    if(t.kind != DICT && r.chance(5, 6)) { Tree d = Tree::of(DICT); d.dict["a"] = t; d.dict["b"] = randomScalar(r, o); t = d; }
    // Keys a path may and may not get to: no name at all, and names with a slash.
    for(int i = (int)r.below(4); i > 0; --i)
    {
      Tree* at = &t;
      while(at->kind == DICT && !at->dict.empty() && r.chance(1, 2)) { auto it = at->dict.begin(); std::advance(it, r.below(at->dict.size())); at = &it->second; }
      if(at->kind != DICT) continue;
      static const char* const special[] = {"", "", "/", "/a", "a/b", "a/", "//", "b/c/d"};
      std::string key = special[r.below(8)];
      Tree under = randomTree(r, o);
      if(!at->dict.count(key)) at->dict[key] = under;
      c.count("special_keys");
    }
    Datagram d = toDatagram(t);
    c.sig(hashTree(t));
    for(int k = 0; k < 40 && !c.failed(); ++k)
    {
      std::vector<std::string> path;
      const Tree* at = &t;
      while(path.size() < 8)
      {
        if(at != nullptr && at->kind == DICT && !at->dict.empty() && r.chance(7, 8))
        {
          auto it = at->dict.begin();
          std::advance(it, r.below(at->dict.size()));
          if(it->first.find('/') != std::string::npos)
          {
            // looked up as what it is not: a way down
            std::string rest = it->first;
            for(size_t slash; (slash = rest.find('/')) != std::string::npos; rest = rest.substr(slash + 1)) path.push_back(rest.substr(0, slash));
            path.push_back(rest);
            at = resolve(t, path);
          }
          else
          {
            path.push_back(it->first);
            at = &it->second;
          }
        }
        else if(r.chance(1, 4)) { path.push_back(randomKey(r, o)); at = resolve(t, path); }
        else break;
      }
      if(!path.empty() && r.chance(1, 10)) path.back() += "x";
      if(!path.empty() && r.chance(1, 10) && path.back().size() > 1) path.back() = path.back().substr(0, path.back().size() - 1);
      if(r.chance(1, 12)) path.push_back("0");
      // a component without a name, in front or in between; at the end it is left open
      if(!path.empty() && r.chance(1, 5)) { path.insert(path.begin() + (r.chance(1, 2) ? 0 : r.below(path.size())), r.chance(1, 5) ? 2 : 1, ""); c.count("nameless_components"); }
      while(!path.empty() && path.back().empty()) path.pop_back();
      std::string text;
      for(size_t i = 0; i < path.size(); ++i) text += (i ? "/" : "") + path[i];
      const Tree* want = resolve(t, path);
      std::string diff;
      int iv = d.Get<int>(text, -77);
      if(iv != (want && want->kind == INT ? want->i : -77)) diff = "int " + std::to_string(iv);
      double dv = d.Get<double>(text, -0.77);
      if(dv != (want && want->kind == DBL ? want->d : -0.77)) diff = "double " + std::to_string(dv);
      bool bt = d.Get<bool>(text, true), bf = d.Get<bool>(text, false);
      bool wt = want && want->kind == BOOL ? want->b : true, wf = want && want->kind == BOOL ? want->b : false;
      if(bt != wt || bf != wf) diff = "bool";
      std::string sv = d.Get<std::string>(text, std::string("dflt"));
      if(sv != (want && want->kind == STR ? want->s : "dflt")) diff = "string '" + printable(sv) + "'";
      if(d.Get<int>(text) != (want && want->kind == INT ? want->i : 0)) diff = "int without default";
      if(!d.Get<std::string>(text).empty() != (want && want->kind == STR && !want->s.empty())) diff = "string without default";
      c.count("lookups", 6);
      if(want && want->kind >= STR) c.count("lookups_hit");
      if(want && (want->kind == LIST || want->kind == DICT)) c.count("lookups_inner_node");
      if(!want) c.count("lookups_missing");
      if(!diff.empty()) c.fail("lookup", "path '" + printable(text) + "' gave " + diff + " in " + show(t));
      c.maxOf("path_length", path.size());
    }
    // malformed paths: anything but a crash; and no lookup changed anything
    static const char* const odd[] = {"", "/", "//", "/a", "a/", "a//b", "///a", "a/b/", " ", "."};
    for(auto p : odd) { d.Get<int>(p, 1); d.Get<std::string>(p, std::string("x")); c.count("odd_paths"); }
    std::string diff = differs(d, t);
    if(!diff.empty()) c.fail("lookup-modifies", "content changed by lookups: " + diff);
    c.sample(show(t).substr(0, 200));
  }

  // ========================================================= D04: JSON reading
  // Whatever came out must be an ordinary, usable datagram.
  void exercise(Datagram& d)
  {
    Datagram copy(d);
    std::ostringstream o;
    o << d << copy;
    (void)(copy == d);
    Message m("a", "b", d);
    Message::Deserialize(m.SerializeToBytes());
  }

  void caseD04(Case& c)
  {
    Rng& r = c.rng;
    TreeOpts o;
    o.jsonSafe = true;
    o.depth = 1 + (int)r.below(6);
    o.bigStrings = r.chance(1, 20);
    o.wideIn = 60;
    Tree t = randomTree(r, o);
    if(t.kind != LIST && t.kind != DICT)
    {
      Tree w = Tree::of(r.chance(1, 2) ? LIST : DICT);
      if(r.chance(7, 8)) { if(w.kind == LIST) w.list.push_back(t); else w.dict[randomKey(r, o)] = t; }
      t = w;
    }
    if(r.chance(1, 25))     // deep
    {
      size_t n = 50 + r.below(800);
      Tree deep = Tree::num(5);
      for(size_t i = 0; i < n; ++i) { Tree w = Tree::of(r.chance(1, 2) ? LIST : DICT); if(w.kind == LIST) w.list.push_back(deep); else w.dict["d"] = deep; deep = w; }
      t = deep;
    }
    if(r.chance(1, 40))     // wide
    {
      t = Tree::of(r.chance(1, 2) ? LIST : DICT);
      size_t n = 300 + r.below(c.thorough ? 70000 : 6000);
      for(size_t i = 0; i < n; ++i) { if(t.kind == LIST) t.list.push_back(Tree::num((int)i)); else t.dict["k" + std::to_string(i)] = Tree::num((int)i); }
    }
    if(r.chance(1, 10))     // strings with an escaped NUL inside
    {
      Tree n = Tree::str(std::string("before\0after", 12));
      if(t.kind == LIST) t.list.push_back(n); else t.dict["nul"] = n;
    }
    JsonOut j;
    if(r.chance(1, 5)) blank(r, j);
    emit(r, t, j);
    c.sig(hashTree(t));
    c.maxOf("depth", depthOf(t));
    c.maxOf("text_bytes", j.text.size());
    c.maxOf("nodes", nodes(t));
    c.count("documents");
    c.sample(printable(j.text, 200));

    Datagram d = Datagram::DeserializeFromJson(j.text);
    std::string diff = differs(d, t);
    if(!diff.empty()) c.fail("content", "document " + printable(j.text, 300) + " read wrongly: " + diff);
    if(nodes(t) < 2000) exercise(d);

    // cut short: every proper prefix is malformed
    size_t last = j.closers.back();
    for(int k = 0; k < 12 && !c.failed(); ++k)
    {
      size_t n = k == 0 ? last : r.below(last + 1);
      if(j.text.size() > 20000 && k > 1) break;
      Datagram p = Datagram::DeserializeFromJson(j.text.substr(0, n));
      c.count("truncations");
      if(!p.IsEmpty()) c.fail("truncated-accepted", "the first " + std::to_string(n) + " bytes of " + printable(j.text, 200) + " gave a non-empty result");
    }
    // a wrong closing bracket
    for(int k = 0; k < 3 && !c.failed(); ++k)
    {
      size_t at = j.closers[r.below(j.closers.size())];
      std::string bad = j.text;
      bad[at] = bad[at] == ']' ? '}' : ']';
      Datagram p = Datagram::DeserializeFromJson(bad);
      c.count("mismatched_brackets");
      if(!p.IsEmpty()) c.fail("malformed-accepted", "mismatched brackets gave a non-empty result: " + printable(bad, 200));
    }
    // arbitrary damage: only has to leave something usable behind
    for(int k = 0; k < 8; ++k)
    {
      std::string bad = j.text.substr(0, 3000);
      size_t edits = 1 + r.below(6);
      for(size_t e = 0; e < edits && !bad.empty(); ++e)
      {
        size_t at = r.below(bad.size());
        static const char* const tokens[] = {"null", "true", "-", "1e999", "99999999999999999999", "\\u0000", "\\ud800", "[", "]", "{", "}", "\"", ",", ":", "NaN", "/*", "'", "\xff", "\xc3"};
        switch(r.below(4))
        {
          case 0: bad[at] = (char)r.below(256); break;
          case 1: bad.erase(at, 1 + r.below(4)); break;
          case 2: bad.insert(at, tokens[r.below(sizeof tokens / sizeof *tokens)]); break;
          case 3: bad += bad.substr(at, r.below(50)); break;
        }
      }
      Datagram p = Datagram::DeserializeFromJson(bad);
      exercise(p);
      c.count("damaged_documents");
      if(!p.IsEmpty()) c.count("damaged_still_accepted");
    }
  }

  // ====================================================== D05: wire round trip
  void caseD05(Case& c)
  {
    Rng& r = c.rng;
    TreeOpts o;
    o.depth = 1 + (int)r.below(5);
    o.bigStrings = r.chance(1, 20);
    o.wideIn = 60;
    Tree t = randomTree(r, o);
    if(r.chance(1, 25))
    {
      size_t n = 30 + r.below(470);
      Tree deep = randomScalar(r, o);
      for(size_t i = 0; i < n; ++i) { Tree w = Tree::of(r.chance(1, 2) ? LIST : DICT); if(w.kind == LIST) w.list.push_back(deep); else w.dict["d"] = deep; deep = w; }
      t = deep;
    }
    if(r.chance(1, 40))
    {
      t = Tree::of(r.chance(1, 2) ? LIST : DICT);
      size_t n = 300 + r.below(c.thorough ? 70000 : 5000);
      for(size_t i = 0; i < n; ++i) { if(t.kind == LIST) t.list.push_back(Tree::num((int)i)); else t.dict["k" + std::to_string(i)] = r.chance(1, 3) ? Tree::boolean(true) : Tree::num((int)i); }
    }
    if(c.thorough && c.index % 500 == 3)
    {
      // more nodes than any default table limit of the wire library
      t = Tree::of(LIST);
      for(int i = 0; i < 1100; ++i) { Tree row = Tree::of(LIST); for(int k = 0; k < 1000; ++k) row.list.push_back(Tree::num(k)); t.list.push_back(row); }
    }
    std::string sender = randomString(r, false, r.chance(1, 30)), topic = randomString(r, false, r.chance(1, 30));
    bool big = nodes(t) > 100000;
    Datagram d = toDatagram(t);
    Message m(sender, topic, d);
    c.sig(mix(hashTree(t), mix(hashStr(sender), hashStr(topic))));
    c.maxOf("nodes", nodes(t));
    c.maxOf("depth", depthOf(t));
    c.sample(printable(sender, 20) + " -> " + printable(topic, 20) + ": " + show(t).substr(0, 150));
    std::shared_ptr<RawBytes> bytes = m.SerializeToBytes();
    c.maxOf("wire_bytes", bytes->GetSize());
    // a receiver owns its own copy of the bytes, at an allocation of just that size
    std::shared_ptr<RawBytes> received = std::make_shared<RawBytes>();
    if(r.chance(1, 2)) received->Append(bytes->GetContent(), bytes->GetSize());
    else
    {
      size_t k = r.below(bytes->GetSize() + 1);
      received->Append(bytes->GetContent(), k);
      received->Append(static_cast<const char*>(bytes->GetContent()) + k, bytes->GetSize() - k);
    }
    bytes = nullptr;
    Message back = Message::Deserialize(received);
    received = nullptr;
    c.count("round_trips");
    c.alive();
    if(back.GetSender() != sender) c.fail("sender", "sender '" + printable(sender) + "' came back as '" + printable(back.GetSender()) + "'");
    if(back.GetTopic() != topic) c.fail("topic", "topic '" + printable(topic) + "' came back as '" + printable(back.GetTopic()) + "'");
    Datagram bd = back.GetDatagram();
    std::string diff = big ? "" : differs(bd, t);
    if(big && (bd.GetCount() != t.list.size() || bd[1099u].GetCount() != 1000 || bd[1099u][999u].Get<int>() != 999)) diff = "large list damaged";
    if(!diff.empty()) c.fail("content", diff + " after a round trip of " + show(t).substr(0, 400));
    if(!hasNan(t) && !big && (!(back == m) || !(m == back))) c.fail("equality", "message does not equal its own round trip: " + show(t).substr(0, 400));
    // the original is untouched, and goes through again
    if(!big)
    {
      diff = differs(d, t);
      if(!diff.empty()) c.fail("encoding-modifies", diff);
      Message again = Message::Deserialize(back.SerializeToBytes());
      Datagram ad = again.GetDatagram();
      diff = differs(ad, t);
      if(!diff.empty()) c.fail("second-trip", diff);
    }
    // messages that differ in one place stay different
    if(nodes(t) < 500 && !hasNan(t))
    {
      TreeOpts o2 = o; o2.noNan = true;
      Tree t2 = t; mutateTree(r, t2, o2);
      Message other(sender, topic, toDatagram(t2));
      Message otherBack = Message::Deserialize(other.SerializeToBytes());
      if(otherBack == back) c.fail("confused", "two different messages became equal on the wire: " + show(t) + " / " + show(t2));
      c.count("pairs_kept_apart");
    }
  }

  // ====================================================== D06: hostile bytes
  namespace fb = flatbuffers;
  namespace sc = lp::schemas;

  fb::Offset<sc::FBDatagram> craft(Rng& r, fb::FlatBufferBuilder& b, int depth)
  {
    // a structurally valid table whose fields may be missing or contradictory
    fb::Offset<fb::String> str = r.chance(1, 2) ? b.CreateString(randomString(r, false)) : fb::Offset<fb::String>();
    fb::Offset<fb::Vector<fb::Offset<sc::FBDatagram>>> list, values;
    fb::Offset<fb::Vector<fb::Offset<fb::String>>> keys;
    if(r.chance(1, 2))
    {
      std::vector<fb::Offset<sc::FBDatagram>> v;
      size_t n = depth > 0 ? r.below(4) : 0;
      for(size_t i = 0; i < n; ++i) v.push_back(craft(r, b, depth - 1));
      list = b.CreateVector(v);
    }
    if(r.chance(1, 2))
    {
      std::vector<fb::Offset<sc::FBDatagram>> v;
      size_t n = depth > 0 ? r.below(4) : 0;
      for(size_t i = 0; i < n; ++i) v.push_back(craft(r, b, depth - 1));
      values = b.CreateVector(v);
    }
    if(r.chance(1, 2))
    {
      std::vector<fb::Offset<fb::String>> v;
      size_t n = r.below(4);
      for(size_t i = 0; i < n; ++i) v.push_back(b.CreateString(randomString(r, false)));
      keys = b.CreateVector(v);
    }
    return sc::CreateFBDatagram(b, static_cast<sc::DatagramType>(r.chance(1, 10) ? (int)r.below(256) - 128 : (int)r.below(4)),
      static_cast<sc::ValueType>(r.chance(1, 10) ? (int)r.below(256) - 128 : (int)r.below(4)), str, randomInt(r), randomDouble(r, false),
      r.chance(1, 2), list, keys, values);
  }

  std::string bytesOf(const std::shared_ptr<RawBytes>& b) { return std::string(static_cast<const char*>(b->GetContent()), b->GetSize()); }

  void feed(Case& c, const std::string& bytes, const std::string& what)
  {
    std::shared_ptr<RawBytes> raw = std::make_shared<RawBytes>();
    raw->Append(bytes.data(), bytes.size());
    c.count("buffers");
    c.count("buffers_" + what);
    c.alive();
    try
    {
      Message m = Message::Deserialize(raw);
      raw = nullptr;
      c.count("accepted");
      c.count("accepted_" + what);
      std::ostringstream o;
      o << m;
      Datagram d = m.GetDatagram();
      Datagram copy(d);
      (void)(copy == d);
      Message back = Message::Deserialize(m.SerializeToBytes());
      if(back.GetSender() != m.GetSender() || back.GetTopic() != m.GetTopic()) c.fail("unstable", "an accepted message changes when encoded and decoded again");
    }
    catch(ex::Exception&) { c.count("refused"); c.count("refused_" + what); }
    catch(std::bad_alloc& e) { c.fail("foreign-exception", "decoding " + what + " bytes ran out of memory"); }
    catch(std::exception& e) { c.fail("foreign-exception", "decoding " + what + " bytes threw " + std::string(e.what())); }
  }

  void caseD06(Case& c)
  {
    Rng& r = c.rng;
    TreeOpts o;
    o.depth = 1 + (int)r.below(4);
    Tree t = randomTree(r, o);
    Message m(randomString(r, false), randomString(r, false), toDatagram(t));
    std::string good = bytesOf(m.SerializeToBytes());
    c.sig(hashStr(good));
    c.sample("valid buffer of " + std::to_string(good.size()) + " bytes, damaged in many ways");

    // the valid buffer still goes through
    {
      std::shared_ptr<RawBytes> raw = std::make_shared<RawBytes>();
      raw->Append(good.data(), good.size());
      Message back = Message::Deserialize(raw);
      Datagram bd = back.GetDatagram();
      std::string diff = differs(bd, t);
      if(!diff.empty()) c.fail("valid-refused", diff);
    }
    for(int k = 0; k < 30 && !c.failed(); ++k)
    {
      std::string bad = good;
      switch(r.below(7))
      {
        case 0: bad.resize(r.below(bad.size())); feed(c, bad, "truncated"); break;
        case 1:
        {
          size_t n = 1 + r.below(4);
          for(size_t i = 0; i < n; ++i) bad[r.below(bad.size())] ^= (char)(1 << r.below(8));
          feed(c, bad, "bitflip");
        } break;
        case 2:
        {
          // offsets and lengths are 32 bit words
          static const uint32_t words[] = {0, 1, 4, 0x7fffffff, 0x80000000u, 0xffffffffu, 0xfffffffcu, 0xfffffff0u, 0x10000, 0x7ffffffc, 8, 64};
          size_t n = 1 + r.below(3);
          for(size_t i = 0; i < n && bad.size() >= 4; ++i)
          {
            uint32_t w = r.chance(1, 3) ? (uint32_t)r.below(bad.size() * 2) : words[r.below(12)];
            memcpy(&bad[(r.below(bad.size() - 3)) & ~(size_t)(r.chance(3, 4) ? 3 : 0)], &w, 4);
          }
          feed(c, bad, "words");
        } break;
        case 3:
        {
          std::string random(r.below(200), '\0');
          for(auto& ch : random) ch = (char)r.below(256);
          feed(c, random, "random");
        } break;
        case 4:
        {
          size_t at = r.below(bad.size());
          if(r.chance(1, 2)) bad.insert(at, std::string(1 + r.below(16), (char)r.below(256)));
          else bad.erase(at, 1 + r.below(16));
          feed(c, bad, "spliced");
        } break;
        case 5:
        {
          for(size_t i = 0; i + 2 <= bad.size() && i < 400; i += 2) if(r.chance(1, 30)) { uint16_t w = (uint16_t)r.below(64); memcpy(&bad[i], &w, 2); }
          feed(c, bad, "vtable");
        } break;
        case 6:
        {
          fb::FlatBufferBuilder b;
          fb::Offset<fb::String> s, tp;
          if(r.chance(3, 4)) s = b.CreateString(randomString(r, false));
          if(r.chance(3, 4)) tp = b.CreateString(randomString(r, false));
          fb::Offset<sc::FBDatagram> dg;
          if(r.chance(7, 8)) dg = craft(r, b, 3);
          b.Finish(sc::CreateFBMessage(b, s, tp, dg));
          feed(c, std::string(reinterpret_cast<const char*>(b.GetBufferPointer()), b.GetSize()), "crafted");
        } break;
      }
    }
    feed(c, std::string(), "empty");
    if(r.chance(1, 20))
    {
      // few bytes, exponentially many nodes: every level refers twice to the next
      fb::FlatBufferBuilder b;
      fb::Offset<fb::String> s = b.CreateString("s"), tp = b.CreateString("t");
      fb::Offset<sc::FBDatagram> at = sc::CreateFBDatagram(b, sc::DatagramType_Value, sc::ValueType_Integer, 0, 1);
      size_t levels = 30 + r.below(25);
      for(size_t i = 0; i < levels; ++i)
      {
        std::vector<fb::Offset<sc::FBDatagram>> v(2, at);
        auto vec = b.CreateVector(v);
        at = sc::CreateFBDatagram(b, sc::DatagramType_List, sc::ValueType_String, 0, 0, 0, false, vec);
      }
      b.Finish(sc::CreateFBMessage(b, s, tp, at));
      feed(c, std::string(reinterpret_cast<const char*>(b.GetBufferPointer()), b.GetSize()), "amplified");
    }
    if(r.chance(1, 20))
    {
      // a chain deeper than a stack can follow
      fb::FlatBufferBuilder b;
      fb::Offset<fb::String> s = b.CreateString("s"), tp = b.CreateString("t");
      fb::Offset<sc::FBDatagram> at = sc::CreateFBDatagram(b, sc::DatagramType_Value, sc::ValueType_Integer, 0, 1);
      size_t levels = 50000 + r.below(200000);
      for(size_t i = 0; i < levels; ++i)
      {
        auto vec = b.CreateVector(&at, 1);
        at = sc::CreateFBDatagram(b, sc::DatagramType_List, sc::ValueType_String, 0, 0, 0, false, vec);
      }
      b.Finish(sc::CreateFBMessage(b, s, tp, at));
      feed(c, std::string(reinterpret_cast<const char*>(b.GetBufferPointer()), b.GetSize()), "bottomless");
    }
  }

  // ====================================================== D07: byte buffers
  template<class T> typename std::enable_if<std::is_copy_constructible<T>::value, bool>::type copyBuffer(T& from, std::unique_ptr<T>& to)
  {
    to.reset(new T(from));
    return true;
  }
  template<class T> typename std::enable_if<!std::is_copy_constructible<T>::value, bool>::type copyBuffer(T&, std::unique_ptr<T>&) { return false; }
  template<class T> typename std::enable_if<std::is_copy_assignable<T>::value, bool>::type assignBuffer(T& from, T& to) { to = from; return true; }
  template<class T> typename std::enable_if<!std::is_copy_assignable<T>::value, bool>::type assignBuffer(T&, T&) { return false; }

  void caseD07(Case& c)
  {
    Rng& r = c.rng;
    uint64_t sig = 3;
    struct Buf { std::unique_ptr<RawBytes> real; std::string model; };
    std::vector<Buf> bufs;
    auto chunk = [&]
      {
        static const size_t sizes[] = {0, 1, 2, 7, 8, 15, 16, 17, 255, 256, 257, 4096, 65535, 65536};
        size_t n = r.chance(1, 2) ? sizes[r.below(c.thorough ? 14 : 12)] : r.below(64);
        std::string s(n, '\0');
        for(auto& ch : s) ch = (char)r.below(256);
        return s;
      };
    auto check = [&](const std::string& what)
      {
        for(auto& b : bufs)
        {
          c.count("states_compared");
          size_t size = b.real->GetSize();
          const void* p = b.real->GetContent();
          if(size != b.model.size()) { c.fail("size:" + what, "size " + std::to_string(size) + ", expected " + std::to_string(b.model.size())); return; }
          if(size > 0 && (p == nullptr || memcmp(p, b.model.data(), size) != 0)) { c.fail("content:" + what, "content differs after " + what); return; }
        }
      };
    size_t steps = 5 + r.below(25);
    for(size_t i = 0; i < steps && !c.failed(); ++i)
    {
      unsigned op = (unsigned)r.below(9);
      if(bufs.empty()) op = (unsigned)r.below(2);
      sig = mix(sig, op);
      c.count("operations");
      std::string what = "op" + std::to_string(op);
      switch(op)
      {
        case 0: { Buf b; b.real.reset(new RawBytes()); bufs.push_back(std::move(b)); what = "construct-empty"; } break;
        case 1:
        {
          what = "construct";
          std::string s = chunk();
          // heap copy of exactly this size, freed afterwards: the buffer must own its bytes
          char* p = new char[s.size()];
          memcpy(p, s.data(), s.size());
          Buf b;
          b.real.reset(new RawBytes(p, s.size()));
          memset(p, 0x5a, s.size());
          delete[] p;
          b.model = s;
          bufs.push_back(std::move(b));
        } break;
        case 2: case 3: case 4:
        {
          what = "append";
          std::string s = chunk();
          Buf& b = bufs[r.below(bufs.size())];
          if(b.model.size() > 300000) break;
          char* p = new char[s.size()];
          memcpy(p, s.data(), s.size());
          b.real->Append(p, s.size());
          delete[] p;
          b.model += s;
          sig = mix(sig, s.size());
        } break;
        case 5:
        {
          what = "append-own-content";
          Buf& b = bufs[r.below(bufs.size())];
          if(b.model.empty() || b.model.size() > 100000) break;
          size_t at = r.below(b.model.size()), n = r.below(b.model.size() - at + 1);
          b.real->Append(static_cast<const char*>(b.real->GetContent()) + at, n);
          b.model += b.model.substr(at, n);
        } break;
        case 6:
        {
          what = "copy";
          Buf b;
          Buf& from = bufs[r.below(bufs.size())];
          if(copyBuffer(*from.real, b.real)) { b.model = from.model; bufs.push_back(std::move(b)); c.count("copies"); }
          if(bufs.size() > 1)
          {
            size_t x = r.below(bufs.size()), y = r.below(bufs.size());
            if(x != y && assignBuffer(*bufs[x].real, *bufs[y].real)) { bufs[y].model = bufs[x].model; c.count("copies"); }
          }
        } break;
        case 8:
        {
          // the content of another buffer, which may be an empty one
          what = "append-other-content";
          Buf& from = bufs[r.below(bufs.size())];
          Buf& b = bufs[r.below(bufs.size())];
          if(&from == &b || b.model.size() > 100000) break;
          b.real->Append(from.real->GetContent(), from.real->GetSize());
          b.model += from.model;
        } break;
        case 7:
          what = "destroy";
          if(bufs.size() > 1) bufs.erase(bufs.begin() + r.below(bufs.size()));
          break;
      }
      check(what);
      if(bufs.size() > 6) bufs.erase(bufs.begin());
    }
    bool refused = false;
    try { RawBytes bad(nullptr, r.below(10)); }
    catch(ex::ArgumentNullException&) { refused = true; }
    c.require(refused, "null-accepted", "a buffer was made of no content");
    c.sig(sig);
    c.sample(std::to_string(steps) + " operations on up to 6 buffers");
  }

  // ====================================================== D08: sender routes
  void caseD08(Case& c)
  {
    Rng& r = c.rng;
    TreeOpts o;
    o.depth = 2;
    static const std::vector<std::string> simple = {"Link0", "Link1", "Link10", "Link", "L", "SysInfo0", "root", "link0", "Link0 ", "a", "aa", "ab"};
    static const std::vector<std::string> composed = {"a", "a/b", "a/b/c", "b", "b/a", "Link0/SysInfo0", "Link0", "aa/b", "a/bb", "x y/z", std::string("a\0/b", 4), std::string("a\0", 2)};
    // Names of several parts: then what counts is the text itself, up to the separator behind the name.
    const bool parts = r.chance(1, 4);
    std::vector<std::string> names = parts ? composed : simple;
    if(r.chance(1, 8))
      for(int i = 0; i < 3; ++i) { std::string n = longName(r, std::min<size_t>(nameLength(r), 4096)).substr(1); if(parts || n.find('/') == std::string::npos) names.push_back(n); }
    bool far = r.chance(1, 12);   // a message that has come a long way
    std::string model;
    std::string origin = r.chance(1, 6) ? "" : r.pick(names);
    Tree t = randomTree(r, o);
    std::string topic = randomString(r, false);
    Message m(origin, topic, toDatagram(t));
    std::vector<std::string> route;   // innermost first
    model = origin;
    auto begins = [&](const std::string& n) { return model.size() > n.size() && model.compare(0, n.size(), n) == 0 && model[n.size()] == '/'; };
    auto text = [&] { if(parts) return model; std::string s = origin; for(auto& n : route) s = n + "/" + s; return s; };
    uint64_t sig = 5;
    std::string trace;
    size_t steps = 3 + r.below(20);
    if(far) { steps = 50 + r.below(150); c.count("long_routes"); }
    for(size_t i = 0; i < steps && !c.failed(); ++i)
    {
      bool onwards = far && i < steps * 2 / 3;
      std::string name = !onwards && !route.empty() && r.chance(1, 2) ? route.back() : r.pick(names);
      unsigned op = onwards ? 0 : (unsigned)r.below(4);
      sig = mix(mix(sig, op), hashStr(name));
      trace += " " + std::to_string(op) + ":" + name;
      switch(op)
      {
        case 0: case 1: m.PrependSender(name); route.push_back(name); model = name + "/" + model; c.count(parts ? "prepends_of_several_parts" : "prepends"); break;
        case 2:
          m.RemoveSender(name);
          c.count("removals");
          if(parts) { if(begins(name)) { model.erase(0, name.size() + 1); if(!route.empty()) route.pop_back(); c.count("removals_of_several_parts"); } }
          else if(!route.empty() && route.back() == name) { route.pop_back(); c.count("removals_effective"); }
          break;
        case 3:
          if(r.chance(1, 3)) { m = Message::Deserialize(m.SerializeToBytes()); c.count("wire_hops"); }
          break;
      }
      if(m.GetSender() != text()) c.fail("route", "sender is '" + m.GetSender() + "', expected '" + text() + "' after" + trace);
      for(auto& n : names)
      {
        bool want = parts ? begins(n) : !route.empty() && route.back() == n;
        c.count("queries");
        if(m.WasSentBySender(n) != want) c.fail("came-through", "'" + m.GetSender() + "' reported " + (want ? "not " : "") + "to come through '" + n + "' after" + trace);
      }
    }
    if(m.GetTopic() != topic) c.fail("topic", "topic changed");
    Datagram d = m.GetDatagram();
    std::string diff = differs(d, t);
    if(!hasNan(t) && !diff.empty()) c.fail("content", diff);
    c.sig(sig);
    c.maxOf("route_bytes", m.GetSender().size());
    c.sample((origin + trace).substr(0, 300));
  }
}

// ====================================================== D09: printed content
namespace
{
  std::string numberText(double d, int precision)
  {
    char buf[400];
    snprintf(buf, sizeof buf, "%.*g", precision, d);
    return buf;
  }
  void printed(const Tree& t, int precision, std::string& out)
  {
    switch(t.kind)
    {
      case EMPTY: out += "null"; break;
      case STR: out += "\"" + t.s + "\""; break;
      case INT: out += std::to_string(t.i); break;
      case DBL: out += numberText(t.d, precision); break;
      case BOOL: out += t.b ? "1" : "0"; break;
      case LIST:
      {
        out += "[";
        for(size_t i = 0; i < t.list.size(); ++i) { if(i > 0) out += ", "; printed(t.list[i], precision, out); }
        out += "]";
      } break;
      case DICT:
      {
        out += "{";
        bool first = true;
        for(auto& p : t.dict) { if(!first) out += ", "; first = false; out += p.first + ": "; printed(p.second, precision, out); }
        out += "}";
      } break;
    }
  }
  void caseD09(Case& c)
  {
    Rng& r = c.rng;
    TreeOpts o;
    o.depth = (int)r.below(7);
    o.width = 1 + (int)r.below(8);
    o.bigStrings = r.chance(1, 20);
    o.wideIn = 60;
    Tree t = randomTree(r, o);
    if(r.chance(1, 30))
    {
      size_t n = 50 + r.below(600);
      for(size_t i = 0; i < n; ++i) { Tree w = Tree::of(r.chance(1, 2) ? LIST : DICT); if(w.kind == LIST) w.list.push_back(t); else w.dict[randomKey(r, o)] = t; t = w; }
    }
    Datagram d = toDatagram(t);
    if(r.chance(1, 3)) d = Message::Deserialize(Message("a", "b", d).SerializeToBytes()).GetDatagram();
    int precision = r.chance(1, 2) ? 6 : 1 + (int)r.below(18);
    std::string want;
    printed(t, precision, want);
    std::ostringstream out;
    out.precision(precision);
    std::string before = randomString(r, false), sender = randomString(r, false), topic = randomString(r, false);
    out << before << d << '|' << 1.0 / 3 << '|' << 255 << '|' << true;
    std::string all = before + want + "|" + numberText(1.0 / 3, precision) + "|255|1";
    if(out.str() != all)
    {
      std::string got = out.str();
      size_t at = 0;
      while(at < got.size() && at < all.size() && got[at] == all[at]) ++at;
      c.fail("print", "printing " + show(t).substr(0, 300) + " differs from its content at byte " + std::to_string(at) + ": '" + printable(got.substr(at, 60)) + "' instead of '" + printable(all.substr(at, 60)) + "'");
    }
    if(out.width() != 0 || out.precision() != precision || !out.good()) c.fail("stream", "printing left the stream in another state");
    Message m(sender, topic, d);
    std::ostringstream two;
    two.precision(precision);
    two << m;
    if(two.str() != "[" + sender + " to " + topic + "]: " + want) c.fail("print-message", "a message is printed as '" + printable(two.str(), 200) + "'");
    std::string diff = differs(d, t);
    if(!diff.empty()) c.fail("print-modifies", "printing changed the datagram: " + diff);
    c.count("texts", 2);
    c.count("values_printed", nodes(t));
    c.maxOf("text_bytes", want.size());
    c.maxOf("elements", std::max(t.list.size(), t.dict.size()));
    c.maxOf("depth", depthOf(t));
    c.sig(mix(hashTree(t), (uint64_t)precision));
    c.sample(printable(want, 200));
  }
}

int main(int argc, char** argv)
{
  return vf::run(argc, argv, {{"D01", caseD01}, {"D02", caseD02}, {"D03", caseD03}, {"D04", caseD04},
    {"D05", caseD05}, {"D06", caseD06}, {"D07", caseD07}, {"D08", caseD08}, {"D09", caseD09}});
}
