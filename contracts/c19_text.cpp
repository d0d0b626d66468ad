// C19, bounded: text utilities against a reference reader, for all short texts and many random longer ones
// trials every_short_list: 1 1
// trials every_short_braces: 1 1
// trials every_short_flags: 1 1
// trials *: 20000 1000000
#include "vf.hpp"
#ifndef VF_SYM
#include <algorithm>
#include <climits>
#include <sstream>
#include "util/global_config.hpp"
#include "util/string_utils.hpp"
namespace {
// every exception prints a stack trace
bool quiet = std::freopen("/dev/null", "w", stderr) != nullptr;
bool blank(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f' || c == '\v'; }
bool digit(char c) { return c >= '0' && c <= '9'; }
std::vector<std::string> words(const std::string &s)
{
    std::vector<std::string> w;
    bool in = false;
    for (char c : s) {
        if (blank(c)) in = false;
        else {
            if (!in) w.push_back("");
            in = true;
            w.back() += c;
        }
    }
    return w;
}
bool as_int(const std::string &w, long &v)
{
    size_t i = 0;
    bool neg = false;
    if (i < w.size() && (w[i] == '-' || w[i] == '+')) neg = w[i++] == '-';
    if (i == w.size() || w.size() - i > 15) return false;
    for (v = 0; i < w.size(); i++) {
        if (!digit(w[i])) return false;
        v = v * 10 + (w[i] - '0');
    }
    if (neg) v = -v;
    return v >= INT_MIN && v <= INT_MAX;
}
bool as_real(const std::string &w, double &v)
{
    size_t i = 0, n = 0;
    if (i < w.size() && (w[i] == '-' || w[i] == '+')) i++;
    while (i < w.size() && digit(w[i])) i++, n++;
    if (i < w.size() && w[i] == '.') {
        i++;
        while (i < w.size() && digit(w[i])) i++, n++;
    }
    if (n == 0) return false;
    if (i < w.size() && (w[i] == 'e' || w[i] == 'E')) {
        size_t k = 0;
        i++;
        if (i < w.size() && (w[i] == '-' || w[i] == '+')) i++;
        while (i < w.size() && digit(w[i])) i++, k++;
        if (k == 0) return false;
    }
    if (i != w.size()) return false;
    v = std::strtod(w.c_str(), nullptr);
    return true;
}
bool list(const std::string &s, std::vector<int> &out)
{
    for (auto &w : words(s)) {
        long v;
        if (!as_int(w, v)) return false;
        out.push_back(v);
    }
    return true;
}
bool braces(const std::string &s, std::vector<std::vector<int>> &out)
{
    std::string cur;
    bool in = false;
    for (char c : s + "{") {
        if (!blank(c) && !digit(c) && c != '{' && c != '}') return false;
        if (c != '{' && c != '}') {
            cur += c;
            continue;
        }
        std::vector<int> l;
        if (!list(cur, l)) return false;
        cur.clear();
        if (c == '{') {
            if (in) return false;
            for (int v : l) out.push_back(std::vector<int>(1, v));
            in = true;
        } else {
            if (!in || l.empty()) return false;
            out.push_back(l);
            in = false;
        }
    }
    return true;
}
template <class F, class T> bool rejected(const F &f, T &out)
{
    try {
        out = f();
        return false;
    } catch (std::exception &) {
        return true;
    }
}
void one_list(const std::string &s)
{
    std::vector<int> want, got;
    bool ok = list(s, want), no = rejected([&] { return explode_string<int>(s); }, got);
    vf::check(no == !ok, ok ? "a list of integers is accepted" : "text that is no list of integers is rejected");
    if (ok) vf::check(got == want, "exactly the integers written, in order");
}
void one_braces(const std::string &s)
{
    std::vector<std::vector<int>> want, got;
    bool ok = braces(s, want), no = rejected([&] { return explode_braces(s); }, got);
    vf::check(no == !ok, ok ? "a list with braces is accepted" : "text that is no list with braces is rejected");
    if (ok) vf::check(got == want, "exactly the lists written, in order");
}
void one_flags(const std::vector<bool> &b)
{
    std::string want;
    for (size_t i = 0; i < b.size(); i++) {
        if (!b[i] || (i && b[i - 1])) continue;
        size_t j = i;
        while (j + 1 < b.size() && b[j + 1]) j++;
        want += (want.empty() ? "" : ", ") + std::to_string(i) + (j > i ? "-" + std::to_string(j) : "");
    }
    vf::check(print_range(b) == want, "exactly the flags set, as ascending ranges");
}
template <class F> void every(const std::string &alphabet, int len, const F &f)
{
    for (int n = 0; n <= len; n++) {
        std::vector<int> d(n, 0);
        std::string s(n, alphabet[0]);
        while (true) {
            f(s);
            int i = 0;
            while (i < n && ++d[i] == (int)alphabet.size()) d[i] = 0, s[i] = alphabet[0], i++;
            if (i == n) break;
            s[i] = alphabet[d[i]];
        }
    }
}
std::string any_text(const std::string &alphabet, long most)
{
    std::string s;
    long n = vf::range("length", 0, most);
    for (long i = 0; i < n; i++) s += alphabet[vf::range("c", 0, alphabet.size() - 1)];
    return s;
}
std::string gap(bool need)
{
    static const char *b = " \t\n\r\f\v";
    std::string s;
    long n = vf::range("gap", need ? 1 : 0, 3);
    for (long i = 0; i < n; i++) s += b[vf::range("b", 0, 5)];
    return s;
}
}
VF_HARNESS(every_short_list) { every(" 12-.x\n", 6, one_list); }
VF_HARNESS(every_short_braces) { every(" 12{}x", 6, one_braces); }
VF_HARNESS(every_short_flags)
{
    every("01", 14, [](const std::string &s) {
        std::vector<bool> b;
        for (char c : s) b.push_back(c == '1');
        one_flags(b);
    });
}
VF_HARNESS(lists)
{
    std::string s = gap(false);
    long n = vf::range("n", 0, 8);
    for (long i = 0; i < n; i++) {
        if (vf::boolean("big")) s += std::to_string(vf::range("v", -3000000000l, 3000000000l));
        else s += std::to_string(vf::range("w", -20, 20));
        s += gap(i + 1 < n && vf::range("joined", 0, 20) > 0);
    }
    one_list(s);
}
VF_HARNESS(reals)
{
    std::string s = gap(false);
    long n = vf::range("n", 0, 6);
    for (long i = 0; i < n; i++) {
        std::ostringstream o;
        o.precision(vf::range("digits", 1, 17));
        o << vf::real("v", -100, 100) * std::pow(10.0, (double)vf::range("e", -8, 8));
        s += vf::range("odd", 0, 9) == 0 ? any_text("0123456789.-+eEx", 6) : o.str();
        s += gap(i + 1 < n && vf::range("joined", 0, 20) > 0);
    }
    std::vector<double> want, got;
    bool ok = true;
    for (auto &w : words(s)) {
        double v = 0;
        ok = ok && as_real(w, v) && std::abs(v) < 1e300 && (v == 0 || std::abs(v) > 1e-300);
        want.push_back(v);
    }
    // exponents beyond the range of a double are left open
    for (auto &w : words(s)) {
        size_t e = w.find_first_of("eE");
        if (e != std::string::npos && w.size() - e > 3) return;
    }
    bool no = rejected([&] { return explode_string<mocc::real_t>(s); }, got);
    vf::check(no == !ok, ok ? "a list of numbers is accepted" : "text that is no list of numbers is rejected");
    if (ok) vf::check(got == want, "exactly the numbers written, in order");
}
VF_HARNESS(brace_lists)
{
    std::string s = gap(false);
    long n = vf::range("n", 0, 6);
    for (long i = 0; i < n; i++) {
        if (vf::boolean("group")) {
            s += "{" + gap(false);
            long m = vf::range("m", vf::range("empty", 0, 20) == 0 ? 0 : 1, 4);
            for (long k = 0; k < m; k++) s += std::to_string(vf::range("v", 0, 120)) + gap(k + 1 < m);
            s += "}" + gap(false);
        } else
            s += std::to_string(vf::range("w", 0, 120)) + (vf::boolean("tight") ? "" : gap(true));
        if (vf::range("noise", 0, 30) == 0) s += any_text("{}-x,. ", 2);
    }
    one_braces(s);
}
VF_HARNESS(garbage)
{
    one_list(any_text("0123456789 \t\n{}-+.abc,;", 12));
    one_braces(any_text("0123456789 \t\n{}-+.abc,;", 12));
    one_braces(any_text("01234 {}", 16));
}
VF_HARNESS(trimming)
{
    std::string s = any_text(" \t\n\r\f\vaZ{0.", 10), l = s, r = s;
    while (!l.empty() && blank(l[0])) l.erase(0, 1);
    while (!r.empty() && blank(r.back())) r.pop_back();
    std::string b = l;
    while (!b.empty() && blank(b.back())) b.pop_back();
    vf::check(ltrim_copy(s) == l && rtrim_copy(s) == r && trim_copy(s) == b, "copies with the blanks removed");
    std::string x = s, y = s, z = s, w = s;
    vf::check(&ltrim(x) == &x && x == l, "leading blanks removed");
    vf::check(&rtrim(y) == &y && y == r, "trailing blanks removed");
    vf::check(&trim(z) == &z && z == b, "blanks removed at both ends");
    for (char &c : b)
        if (c >= 'A' && c <= 'Z') c += 'a' - 'A';
    vf::check(&sanitize(w) == &w && w == b, "lower case without blanks around");
}
VF_HARNESS(flags)
{
    std::vector<bool> b;
    long n = vf::range("n", 0, 200);
    for (long i = 0; i < n; i++) b.push_back(vf::range("f", 0, 9) < 8 ? (i && b[i - 1]) : vf::boolean("set"));
    one_flags(b);
}
#endif
