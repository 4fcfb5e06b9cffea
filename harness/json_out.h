// Writes a value tree as JSON text, in one of the many ways there are.
#ifndef VF_JSON_OUT_H
#define VF_JSON_OUT_H

#include "tree.h"

namespace vf
{
  struct JsonOut
  {
    std::string text;
    std::vector<size_t> closers;   // positions of ] and } outside strings
  };
  inline void blank(Rng& r, JsonOut& j)
  {
    if(r.chance(1, 6)) { size_t n = 1 + r.below(3); for(size_t i = 0; i < n; ++i) j.text += " \t\n\r"[r.below(4)]; }
  }
  inline void emitString(Rng& r, const std::string& s, JsonOut& j)
  {
    j.text += '"';
    char buf[16];
    for(size_t i = 0; i < s.size(); ++i)
    {
      unsigned char ch = s[i];
      if(ch == '"') j.text += "\\\"";
      else if(ch == '\\') j.text += "\\\\";
      else if(ch == '\n' && r.chance(1, 2)) j.text += "\\n";
      else if(ch == '\t' && r.chance(1, 2)) j.text += "\\t";
      else if(ch == '\r' && r.chance(1, 2)) j.text += "\\r";
      else if(ch == '\b' && r.chance(1, 2)) j.text += "\\b";
      else if(ch == '\f' && r.chance(1, 2)) j.text += "\\f";
      else if(ch == '/' && r.chance(1, 2)) j.text += "\\/";
      else if(ch < 0x20 || (ch < 0x80 && r.chance(1, 20))) { snprintf(buf, sizeof buf, r.chance(1, 2) ? "\\u%04x" : "\\u%04X", ch); j.text += buf; }
      else if(ch == 0xc3 && i + 1 < s.size() && r.chance(1, 2)) { snprintf(buf, sizeof buf, "\\u%04x", ((ch & 0x1f) << 6) | (s[i + 1] & 0x3f)); j.text += buf; i += 1; }
      else if(ch == 0xe2 && i + 2 < s.size() && r.chance(1, 2)) { snprintf(buf, sizeof buf, "\\u%04x", ((ch & 0xf) << 12) | ((s[i + 1] & 0x3f) << 6) | (s[i + 2] & 0x3f)); j.text += buf; i += 2; }
      else if(ch == 0xf0 && i + 3 < s.size() && r.chance(1, 2))
      {
        unsigned cp = ((ch & 7) << 18) | ((s[i + 1] & 0x3f) << 12) | ((s[i + 2] & 0x3f) << 6) | (s[i + 3] & 0x3f);
        cp -= 0x10000;
        snprintf(buf, sizeof buf, "\\u%04x\\u%04x", 0xd800 + (cp >> 10), 0xdc00 + (cp & 0x3ff));
        j.text += buf;
        i += 3;
      }
      else j.text += (char)ch;
    }
    j.text += '"';
  }
  inline void emit(Rng& r, const Tree& t, JsonOut& j)
  {
    char buf[64];
    switch(t.kind)
    {
      case EMPTY: j.text += "null"; break;
      case BOOL: j.text += t.b ? "true" : "false"; break;
      case INT: j.text += std::to_string(t.i); break;
      case DBL:
        snprintf(buf, sizeof buf, "%.17g", t.d);
        if(strpbrk(buf, ".e") == nullptr) strcat(buf, ".0");
        j.text += buf;
        break;
      case STR: emitString(r, t.s, j); break;
      case LIST:
      {
        j.text += '['; blank(r, j);
        bool first = true;
        for(auto& x : t.list) { if(!first) { j.text += ','; blank(r, j); } first = false; emit(r, x, j); blank(r, j); }
        j.closers.push_back(j.text.size());
        j.text += ']';
      } break;
      case DICT:
      {
        j.text += '{'; blank(r, j);
        std::vector<const std::pair<const std::string, Tree>*> items;
        for(auto& x : t.dict) items.push_back(&x);
        for(size_t i = items.size(); i > 1; --i) std::swap(items[i - 1], items[r.below(i)]);
        bool first = true;
        for(auto p : items)
        {
          if(!first) { j.text += ','; blank(r, j); }
          first = false;
          emitString(r, p->first, j); blank(r, j); j.text += ':'; blank(r, j); emit(r, p->second, j); blank(r, j);
        }
        j.closers.push_back(j.text.size());
        j.text += '}';
      } break;
    }
  }
}

#endif
