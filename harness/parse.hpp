// Reads the text that a multivector is written as: sums and products of numbers, function calls and basis blades.  Nothing
// here uses GATL.
#ifndef VT_PARSE_HPP
#define VT_PARSE_HPP
#include "vt.hpp"
#include <cctype>
#include <cmath>
#include <cstdlib>
#include <string>
#include <vector>

namespace parse {

using ref::MV;
using ref::R;

struct Parser {
    std::string const &s;
    int const n;
    std::vector<std::string> const &names;
    std::size_t at = 0;

    [[noreturn]] void bad(std::string const &why) const { throw vt::Fail{"the text \"" + s + "\" cannot be read: " + why + " at position " + std::to_string(at)}; }
    void skip() { while (at < s.size() && s[at] == ' ') ++at; }
    bool take(char c) { skip(); if (at < s.size() && s[at] == c) { ++at; return true; } return false; }
    void need(char c) { if (!take(c)) bad(std::string("expected ") + c); }

    MV sum() {
        MV r = product();
        while (take('+')) r = r + product();
        return r;
    }
    static MV times(MV const &a, MV const &b) {
        // One of the factors is a number.
        for (std::size_t i = 1; i < a.c.size(); ++i) if (a.c[i] != 0) return b[0] * a;
        return a[0] * b;
    }
    MV product() {
        MV r = factor();
        while (take('*')) r = times(r, factor());
        return r;
    }
    bool name(unsigned &bit) {
        skip();
        std::size_t best = 0;
        for (std::size_t i = 0; i < names.size(); ++i) if (names[i].size() > best && s.compare(at, names[i].size(), names[i]) == 0) { best = names[i].size(); bit = unsigned(i); }
        at += best;
        return best != 0;
    }
    MV blade() {
        unsigned b = 0, bit = 0, last = 0;
        do {
            if (!name(bit)) bad("expected the name of a basis vector");
            if (bit >= unsigned(n)) bad("a basis vector outside the space");
            if (b >> bit & 1 || (b && bit < last)) bad("basis vectors out of order");
            b |= 1u << bit;
            last = bit;
        } while (take('^'));
        return MV(n).add(b, 1);
    }
    MV number() {
        char *end = nullptr;
        R const v = std::strtold(s.c_str() + at, &end);
        if (end == s.c_str() + at) bad("expected a number");
        at = std::size_t(end - s.c_str());
        return ref::scalar(n, v);
    }
    R scalar() {
        MV const m = sum();
        for (std::size_t i = 1; i < m.c.size(); ++i) if (m.c[i] != 0) bad("expected a scalar argument");
        return m[0];
    }
    MV factor() {
        skip();
        if (at >= s.size()) bad("the text ends early");
        char const c = s[at];
        if (c == '(') { ++at; MV const r = sum(); need(')'); return r; }
        if (c == '<') {
            ++at;
            skip();
            MV const r = at < s.size() && (std::isdigit((unsigned char)s[at]) || s[at] == '-') ? number() : blade();
            need('>');
            return r;
        }
        if (std::isdigit((unsigned char)c) || c == '-' || c == '.') return number();
        static char const *const functions[] = {"pow(", "abs(", "exp(", "log(", "cosh(", "sinh(", "tanh(", "cos(", "sin(", "tan("};
        for (char const *f : functions) if (s.compare(at, std::string(f).size(), f) == 0) {
            std::string const w = f;
            at += w.size();
            R const x = scalar();
            R v;
            if (w == "pow(") { need(','); v = std::pow(x, scalar()); }
            else v = w == "abs(" ? std::fabs(x) : w == "exp(" ? std::exp(x) : w == "log(" ? std::log(x) : w == "cos(" ? std::cos(x) : w == "sin(" ? std::sin(x) : w == "tan(" ? std::tan(x) : w == "cosh(" ? std::cosh(x) : w == "sinh(" ? std::sinh(x) : std::tanh(x);
            need(')');
            return ref::scalar(n, v);
        }
        return blade();
    }
};

// The multivector that a text stands for.
inline MV read(int n, std::string const &text, std::vector<std::string> const &names) {
    Parser p{text, n, names};
    MV const r = p.sum();
    p.skip();
    if (p.at != text.size()) p.bad("unexpected text");
    return r;
}

}

#endif
