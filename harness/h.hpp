// Helpers of the harnesses: hex in, JSON out.
#ifndef H_HPP
#define H_HPP
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
typedef std::vector<unsigned char> Bytes;

inline Bytes unhex(const std::string &s) {
  Bytes b;
  if (s == "-") return b;
  for (size_t i = 0; i + 1 < s.size(); i += 2)
    b.push_back((unsigned char)strtoul(s.substr(i, 2).c_str(), 0, 16));
  return b;
}

class Json {
  std::string s;
  bool first;
 public:
  Json() : s("{"), first(true) {}
  Json &key(const char *k) {
    if (!first) s += ",";
    first = false;
    s += "\""; s += k; s += "\":";
    return *this;
  }
  Json &num(const char *k, long long v) { key(k); s += std::to_string(v); return *this; }
  Json &str(const char *k, const std::string &v) { key(k); s += "\"" + v + "\""; return *this; }
  template <typename It> Json &seq(const char *k, It b, It e) {
    key(k); s += "[";
    for (It i = b; i != e; ++i) {
      if (i != b) s += ",";
      s += std::to_string((long long)*i);
    }
    s += "]";
    return *this;
  }
  template <typename V> Json &seq(const char *k, const V &v) { return seq(k, v.begin(), v.end()); }
  Json &raw(const char *k, const std::string &v) { key(k); s += v; return *this; }
  std::string text() const { return s + "}"; }
  void print() { puts((s + "}").c_str()); fflush(stdout); }
};
#endif
