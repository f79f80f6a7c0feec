// Reference JSON reader, written from RFC 8259 and from the documented options, independently of the program.
// It also tells whether an incomplete input can still become a document (viable), where it became impossible
// (dead), and where the program has documented or tolerated extra freedom (don't care).
#pragma once
#include <string>
#include <vector>
#include <utility>
#include <cstdlib>
#include <cmath>
#include <cstring>
#include <cctype>
#include <algorithm>

namespace ref {

struct Val
{
    enum Type { NUL, BOOL, NUM, STR, ARR, OBJ } t = NUL;
    bool b = false;
    std::string s; // number: source text; string: decoded UTF-8
    std::string raw; // string: source text between quotes
    std::vector<Val> arr;
    std::vector<std::pair<std::string, Val>> obj; // decoded keys, document order
    std::vector<std::string> rawKeys;
};

struct Opts
{
    bool lenient = false; // -W
    bool ascii = false;   // --ascii
};

struct Result
{
    enum Status { OK, INCOMPLETE, DEAD } status = INCOMPLETE;
    bool dontCare = false;     // the program may accept or reject
    bool surrogate = false;    // don't care is (only) about an unpaired surrogate
    size_t dead = 0;           // length of the longest viable prefix
    size_t tokenEnd = 0;       // end of the token in which the input died
    bool duplicate = false;    // died because of a duplicate key
    Val v;
    size_t end = 0;            // end of the root value
    bool openNumber = false;   // root is a number that ends with the input
    unsigned warnings = 0;     // leniencies that were used (-W)
};

inline void putUtf8(std::string &o, unsigned c)
{
    if (c < 0x80) o += (char) c;
    else if (c < 0x800) { o += (char) (0xC0 | c >> 6); o += (char) (0x80 | (c & 63)); }
    else if (c < 0x10000) { o += (char) (0xE0 | c >> 12); o += (char) (0x80 | (c >> 6 & 63)); o += (char) (0x80 | (c & 63)); }
    else { o += (char) (0xF0 | c >> 18); o += (char) (0x80 | (c >> 12 & 63)); o += (char) (0x80 | (c >> 6 & 63)); o += (char) (0x80 | (c & 63)); }
}

class Parser
{
    const std::string &in;
    Opts o;
    Result &r;
    size_t p = 0;
    struct Eof {};
    struct Dead { size_t at, tokenEnd; };

    bool eof() const { return p >= in.size(); }
    unsigned char cur() const { return in[p]; }

    void ws()
    {
        while (!eof())
        {
            unsigned char c = cur();
            if (c == ' ' || c == '\t' || c == '\n' || c == '\r')
                ++p;
            else if (c < 32 || c >= 127) // not white space for the RFC; ignored by the program
            {
                r.dontCare = true;
                ++p;
            }
            else
                break;
        }
    }

    static bool numChar(unsigned char c)
    { return (c >= '0' && c <= '9') || c == '.' || c == '-' || c == '+' || c == 'e' || c == 'E'; }

    // End of the (possibly invalid) token starting at `start`
    size_t lexEnd(size_t start) const
    {
        if (start >= in.size())
            return in.size();
        unsigned char c = in[start];
        size_t q = start + 1;
        if (c == '"')
        {
            while (q < in.size() && in[q] != '"')
                q += in[q] == '\\' ? 2 : 1;
            return std::min(q + 1, in.size());
        }
        if (numChar(c))
        {
            while (q < in.size() && numChar(in[q]))
                ++q;
            return q;
        }
        if (isalpha(c))
        {
            while (q < in.size() && q < start + 4)
                ++q;
            while (q < in.size() && isalpha((unsigned char) in[q]))
                ++q;
            return q;
        }
        return q;
    }

    [[noreturn]] void die(size_t at, size_t tokenStart)
    { throw Dead{at, std::max(at + 1, lexEnd(tokenStart))}; }

    void literal(const char *text, Val &v)
    {
        size_t start = p;
        bool folded = false;
        for (const char *t = text; *t; ++t)
        {
            if (eof()) throw Eof();
            if (cur() == (unsigned char) *t) ;
            else if (tolower(cur()) == *t)
            {
                if (!o.lenient)
                    die(p, start);
                folded = true;
            }
            else
                die(p, start);
            ++p;
        }
        if (folded)
            r.warnings++;
        (void) v;
    }

    void number(Val &v)
    {
        size_t start = p;
        // Longest prefix for the tolerated grammar: -?[0-9]*(\.[0-9]*)?([eE][+-]?[0-9]+)?
        bool digits = false, rfc = true;
        if (cur() == '-') ++p;
        size_t intStart = p;
        while (!eof() && isdigit(cur())) { ++p; digits = true; }
        if (p == intStart) rfc = false;
        if (p - intStart > 1 && in[intStart] == '0') rfc = false;
        if (!eof() && cur() == '.')
        {
            size_t frac = ++p;
            while (!eof() && isdigit(cur())) { ++p; digits = true; }
            if (p == frac) rfc = false;
        }
        if (eof() && !digits)
            throw Eof();
        if (!digits)
            die(p, start);
        if (!eof() && (cur() == 'e' || cur() == 'E'))
        {
            ++p;
            if (!eof() && (cur() == '+' || cur() == '-')) ++p;
            if (eof()) throw Eof();
            if (!isdigit(cur())) die(p, start);
            while (!eof() && isdigit(cur())) ++p;
        }
        if (!rfc)
            r.dontCare = true;
        v.t = Val::NUM;
        v.s = in.substr(start, p - start);
        if (!eof() && numChar(cur())) // eg. 1.2.3 or 1-2: two values without separator
            numTail = start;
    }
    size_t numTail = (size_t) -1;

    int hex4(size_t start)
    {
        int n = 0;
        for (int i = 0; i < 4; ++i, ++p)
        {
            if (eof()) throw Eof();
            if (!isxdigit(cur()))
                throw Dead{p, std::min(in.size(), std::max(lexEnd(start), escStart + 12))};
            n = n * 16 + (isdigit(cur()) ? cur() - '0' : (tolower(cur()) - 'a' + 10));
        }
        return n;
    }
    size_t escStart = 0;

    void string(std::string &out, std::string &raw)
    {
        size_t start = p++;
        while (true)
        {
            if (eof()) throw Eof();
            unsigned char c = cur();
            if (c == '"')
            {
                raw = in.substr(start + 1, p - start - 1);
                ++p;
                return;
            }
            if (c < 32)
                r.dontCare = true;
            if (c != '\\')
            {
                out += (char) c;
                ++p;
                continue;
            }
            escStart = p;
            ++p;
            if (eof()) throw Eof();
            c = cur();
            const char *from = "\"\\/bfnrt", *to = "\"\\/\b\f\n\r\t";
            const char *f = c ? strchr(from, c) : nullptr;
            if (f)
            {
                out += to[f - from];
                ++p;
            }
            else if (c == 'u')
            {
                ++p;
                if (o.ascii)
                {
                    // kept as is
                    size_t save = p;
                    bool bad = false;
                    unsigned n = 0;
                    for (int i = 0; i < 4 && !bad; ++i, ++p)
                    {
                        if (eof() || !isxdigit(cur())) { bad = true; break; }
                        n = n * 16 + (isdigit(cur()) ? cur() - '0' : (tolower(cur()) - 'a' + 10));
                    }
                    if (bad)
                    {
                        p = save;
                        r.dontCare = true;
                        out += "\\u";
                        continue;
                    }
                    if (n >= 0xD800 && n < 0xE000)
                    {
                        // a pair denotes one character, whatever the way it is shown
                        unsigned low = 0;
                        bool pair = n < 0xDC00 && in.size() >= p + 6 && in[p] == '\\' && in[p + 1] == 'u';
                        for (int i = 2; i < 6 && pair; ++i)
                        {
                            if (!isxdigit((unsigned char) in[p + i])) pair = false;
                            else low = low * 16 + (isdigit((unsigned char) in[p + i]) ? in[p + i] - '0' : (tolower(in[p + i]) - 'a' + 10));
                        }
                        if (pair && low >= 0xDC00 && low < 0xE000)
                        {
                            putUtf8(out, 0x10000 + ((n - 0xD800) << 10) + (low - 0xDC00));
                            p += 6;
                        }
                        else
                        {
                            r.dontCare = r.surrogate = true;
                            out += "?";
                        }
                    }
                    else
                        putUtf8(out, n);
                    continue;
                }
                unsigned n = hex4(start);
                if (n >= 0xD800 && n < 0xE000)
                {
                    bool pair = false;
                    unsigned low = 0;
                    if (n < 0xDC00)
                    {
                        if (eof()) throw Eof();
                        if (cur() == '\\')
                        {
                            if (p + 1 >= in.size()) throw Eof();
                            if (in[p + 1] == 'u')
                            {
                                p += 2;
                                low = hex4(start);
                                pair = low >= 0xDC00 && low < 0xE000;
                            }
                        }
                    }
                    if (pair)
                        putUtf8(out, 0x10000 + ((n - 0xD800) << 10) + (low - 0xDC00));
                    else
                    {
                        r.dontCare = r.surrogate = true; // unpaired
                        out += "?";
                    }
                }
                else
                    putUtf8(out, n);
            }
            else if (o.lenient)
            {
                r.warnings++;
                out += '\\';
                out += (char) c;
                ++p;
                if (c < 32) r.dontCare = true;
            }
            else
                die(p, start);
        }
    }

    void value(Val &v)
    {
        ws();
        if (eof()) throw Eof();
        unsigned char c = cur();
        if (c == '{') object(v);
        else if (c == '[') array(v);
        else if (c == '"') { v.t = Val::STR; string(v.s, v.raw); }
        else if (c == 't' || (o.lenient && c == 'T')) { v.t = Val::BOOL; v.b = true; literal("true", v); }
        else if (c == 'f' || (o.lenient && c == 'F')) { v.t = Val::BOOL; v.b = false; literal("false", v); }
        else if (c == 'n' || (o.lenient && c == 'N')) { v.t = Val::NUL; literal("null", v); }
        else if (c == '-' || isdigit(c) || c == '.') number(v);
        else die(p, p);
    }

    void separator()
    {
        // A value directly followed by number characters: the token goes on
        if (numTail != (size_t) -1)
        {
            size_t s = numTail;
            numTail = (size_t) -1;
            if (!eof() && numChar(cur()))
                die(p, s);
        }
        ws();
        if (eof()) throw Eof();
    }

    void array(Val &v)
    {
        v.t = Val::ARR;
        ++p;
        ws();
        if (eof()) throw Eof();
        if (cur() == ']') { ++p; return; }
        while (true)
        {
            v.arr.emplace_back();
            value(v.arr.back());
            separator();
            if (cur() == ',') ++p;
            else if (cur() == ']') { ++p; return; }
            else die(p, p);
        }
    }

    void object(Val &v)
    {
        v.t = Val::OBJ;
        ++p;
        ws();
        if (eof()) throw Eof();
        if (cur() == '}') { ++p; return; }
        while (true)
        {
            ws();
            if (eof()) throw Eof();
            if (cur() != '"') die(p, p);
            std::string key, raw;
            string(key, raw);
            size_t keyEnd = p;
            ws();
            if (eof()) throw Eof();
            if (cur() != ':') die(p, p);
            ++p;
            for (size_t i = 0; i < v.obj.size(); ++i)
                if (v.obj[i].first == key)
                {
                    if (!o.lenient)
                    {
                        r.duplicate = true;
                        throw Dead{keyEnd - 1, p};
                    }
                    r.warnings++;
                    v.obj.erase(v.obj.begin() + i);
                    v.rawKeys.erase(v.rawKeys.begin() + i);
                    break;
                }
            Val child;
            value(child);
            v.obj.emplace_back(key, child);
            v.rawKeys.push_back(raw);
            separator();
            if (cur() == ',') ++p;
            else if (cur() == '}') { ++p; return; }
            else die(p, p);
        }
    }

public:
    Parser(const std::string &i, Opts opts, Result &res): in(i), o(opts), r(res) {}
    void run()
    {
        try
        {
            value(r.v);
            r.status = Result::OK;
            r.end = p;
            r.openNumber = r.v.t == Val::NUM && p == in.size();
            for (; p < in.size() && !r.dontCare; ++p)
                r.dontCare = !strchr(" \t\r\n", in[p]) || !in[p]; // more than one value
        }
        catch (Eof &)
        {
            r.status = Result::INCOMPLETE;
            r.dead = r.tokenEnd = in.size();
        }
        catch (Dead &d)
        {
            r.status = Result::DEAD;
            r.dead = d.at;
            r.tokenEnd = std::min(d.tokenEnd, in.size());
        }
    }
};

inline Result parse(const std::string &in, Opts o = Opts())
{
    Result r;
    Parser p(in, o, r);
    p.run();
    return r;
}

// Exact comparison of decimal numbers (no rounding)
inline std::string numNorm(const std::string &t)
{
    bool neg = false;
    std::string digits;
    long long exp = 0;
    size_t i = 0;
    bool dot = false;
    if (i < t.size() && t[i] == '-') { neg = true; ++i; }
    for (; i < t.size() && (isdigit((unsigned char) t[i]) || t[i] == '.'); ++i)
    {
        if (t[i] == '.') { if (dot) return "?" + t; dot = true; continue; }
        digits += t[i];
        if (dot) --exp;
    }
    if (digits.empty()) return "?" + t;
    if (i < t.size() && (t[i] == 'e' || t[i] == 'E'))
    {
        char *e = nullptr;
        exp += strtoll(t.c_str() + i + 1, &e, 10);
        i = e - t.c_str();
    }
    if (i != t.size()) return "?" + t;
    while (!digits.empty() && digits[0] == '0') digits.erase(0, 1);
    while (!digits.empty() && digits.back() == '0') { digits.pop_back(); ++exp; }
    if (digits.empty()) return "0";
    return (neg ? "-" : "") + digits + "e" + std::to_string(exp);
}

inline bool numEq(const std::string &a, const std::string &b)
{ return a == b || numNorm(a) == numNorm(b); }

inline bool eq(const Val &a, const Val &b, bool ordered = true)
{
    if (a.t != b.t) return false;
    switch (a.t)
    {
        case Val::NUL: return true;
        case Val::BOOL: return a.b == b.b;
        case Val::NUM: return numEq(a.s, b.s);
        case Val::STR: return a.s == b.s;
        case Val::ARR:
            if (a.arr.size() != b.arr.size()) return false;
            for (size_t i = 0; i < a.arr.size(); ++i)
                if (!eq(a.arr[i], b.arr[i], ordered)) return false;
            return true;
        case Val::OBJ:
            if (a.obj.size() != b.obj.size()) return false;
            for (size_t i = 0; i < a.obj.size(); ++i)
            {
                if (ordered)
                {
                    if (a.obj[i].first != b.obj[i].first || !eq(a.obj[i].second, b.obj[i].second, ordered))
                        return false;
                    continue;
                }
                bool found = false;
                for (size_t j = 0; j < b.obj.size() && !found; ++j)
                    if (b.obj[j].first == a.obj[i].first)
                    {
                        if (!eq(a.obj[i].second, b.obj[j].second, ordered)) return false;
                        found = true;
                    }
                if (!found) return false;
            }
            return true;
    }
    return false;
}

// What a stored string (escapes kept, except \" \/ and decoded unicode) denotes
inline std::string decodeStored(const std::string &s)
{
    std::string out;
    for (size_t i = 0; i < s.size(); ++i)
    {
        if (s[i] != '\\' || i + 1 >= s.size()) { out += s[i]; continue; }
        char c = s[++i];
        const char *from = "\\bfnrt\"/", *to = "\\\b\f\n\r\t\"/";
        const char *f = strchr(from, c);
        if (c && f) { out += to[f - from]; continue; }
        if (c == 'u' && i + 4 < s.size() + 0)
        {
            unsigned n = 0;
            bool ok = true;
            for (int k = 1; k <= 4; ++k)
            {
                if (!isxdigit((unsigned char) s[i + k])) { ok = false; break; }
                n = n * 16 + (isdigit((unsigned char) s[i + k]) ? s[i + k] - '0' : (tolower(s[i + k]) - 'a' + 10));
            }
            if (ok)
            {
                i += 4;
                if (n >= 0xD800 && n < 0xDC00 && i + 6 < s.size() + 0 && s[i + 1] == '\\' && s[i + 2] == 'u')
                {
                    unsigned low = strtoul(s.substr(i + 3, 4).c_str(), nullptr, 16);
                    if (low >= 0xDC00 && low < 0xE000)
                    {
                        putUtf8(out, 0x10000 + ((n - 0xD800) << 10) + (low - 0xDC00));
                        i += 6;
                        continue;
                    }
                }
                putUtf8(out, n);
                continue;
            }
        }
        out += '\\';
        out += c;
    }
    return out;
}

inline std::string show(const Val &v)
{
    switch (v.t)
    {
        case Val::NUL: return "null";
        case Val::BOOL: return v.b ? "true" : "false";
        case Val::NUM: return v.s;
        case Val::STR: return "\"" + v.s + "\"";
        case Val::ARR: { std::string r = "["; for (auto &x : v.arr) r += show(x) + ","; return r + "]"; }
        case Val::OBJ: { std::string r = "{"; for (auto &x : v.obj) r += "\"" + x.first + "\":" + show(x.second) + ","; return r + "}"; }
    }
    return "";
}

} // namespace ref
