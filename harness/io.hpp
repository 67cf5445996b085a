// Line protocol of the harness drivers: a call per line "op na a1..an nl (len v1..vlen)*"; results as one JSON line each.
#pragma once
#include <cmath>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
typedef std::vector<long> Ints;
typedef std::vector<Ints> Lists;
struct Call { std::string op; Ints a; Lists L; };
inline bool readCall(std::istream& in, Call& c) {
    if (!(in >> c.op)) return false;
    size_t n, m; in >> n; c.a.assign(n, 0); for (auto& x : c.a) in >> x;
    in >> n; c.L.assign(n, {});
    for (auto& l : c.L) { in >> m; l.assign(m, 0); for (auto& x : l) in >> x; }
    return true;
}
const long NOT_AN_INT = 777777777;
// exact integers pass, everything else (fractions, overflow, nan) becomes a value no specification yields
inline long toInt(double x, double scale = 1, double tol = 1e-6) {
    x *= scale;
    if (!(std::fabs(x) < 7e8)) return NOT_AN_INT;
    double r = std::nearbyint(x);
    return std::fabs(x - r) <= tol ? (long) r : NOT_AN_INT;
}
inline std::string js(const Ints& v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + std::to_string(v[i]); return s + "]"; }
inline std::string js(const Lists& v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + js(v[i]); return s + "]"; }
inline std::string js(const std::string& t) {
    std::string s = "\"";
    for (unsigned char ch : t) {
        if (ch == '"' || ch == '\\') { s += '\\'; s += ch; }
        else if (ch < 32) { char b[8]; snprintf(b, 8, "\\u%04x", ch); s += b; }
        else s += ch;
    }
    return s + "\"";
}
