// Search patterns: every input typed at the search prompt, up to a length, is evaluated against every text of a list
// and every kind of element, and compared with a reference interpretation.
#include "common.hh"
#include "jsonObject.hh"
#include "jsonArray.hh"
#include "jsonObjectEntry.hh"
#include "jsonPrimitive.hh"
#include "searchPattern.hh"
#include <algorithm>
#include <locale.h>
#include <memory>
#include <regex>

using mc::prop;
using mc::tier;
typedef std::string S;

static bool thorough() { return tier == "thorough"; }

// ---------------------------------------------------------------- elements

enum Kind { STR, KEY, NUM, BOOL, NUL };
struct Elem { Kind kind; S text; std::unique_ptr<JSonElement> e; };

static void add(std::vector<Elem> &v, Kind k, const S &t, JSonElement *e)
{
    v.emplace_back();
    v.back().kind = k;
    v.back().text = t;
    v.back().e.reset(e);
}

// list 0: many texts; 1: a few of them; 2: texts for regular expressions; 3: numbers and literals
static const std::vector<Elem> &elems(int list)
{
    static std::vector<Elem> v[4];
    std::vector<Elem> &r = v[list];
    if (!r.empty()) return r;
    std::vector<S> texts;
    if (list == 0)
    {
        texts = {""};
        for (size_t from = 0, len = 1; len <= (thorough() ? 5 : 4); ++len)
        {
            const size_t to = texts.size();
            for (size_t i = from; i < to; ++i)
                for (const char *c : {"a", "B", " "}) texts.push_back(texts[i] + c);
            from = to;
        }
        for (const char *t : {"\t", "a\tB", "\ta", "aB\t", "a/B", "/", "A b", "AB", "ab", "b", "A", "\xc3\xa9", "a\xc3\xa9", "\xc3\x89", "a\\nB", "\\n", "\\\\", "a  B a", "aBaB aB", "aaB aB", "1", "null", "true"}) texts.push_back(t);
    }
    else if (list == 1) texts = {"", "a", "A", "a a", "aa", "aaa", " a", "a ", "a\ta", "a/a", "/", "i", "s", "a i", "\\a", "\\\\", "e", "w", "fa", "1", "1a"};
    else if (list == 3)
    {
        texts = {"1", "-12", "true", "null", "1.5e1", "lu", "11", "-1 1", "11111111111"};
        for (int i : {0, -1, 2, 15, 2147483647, -2147483647 - 1}) add(r, NUM, std::to_string(i), new JSonPrimitive<int>(nullptr, i));
        for (long long i : {-11111111111LL, 2147483648LL, -2147483649LL, 9223372036854775807LL}) add(r, NUM, std::to_string(i), new JSonPrimitive<long long>(nullptr, i));
        for (const char *d : {"-1.5", "1E-1", "0.12", "111111111111111111111", "-1e400", "1."}) add(r, NUM, d, new JSonPrimitive<double>(nullptr, strtod(d, nullptr), d));
    }
    else texts = {"", "a", "B", "b", "A", "ab", "aB", "ba", "aa", "a.", ".", "*", "a b", "1", "a1", "\\", "/", "a/b", "^", "(a)", "[a]", "aab", "|", "\n", "a\xc3\xa9"};
    for (const S &t : texts) add(r, STR, t, new JSonPrimitive<std::string>(nullptr, t));
    for (const S &t : texts) add(r, KEY, t, new JSonObjectEntry(nullptr, t, new JSonPrimitive<Null>(nullptr, Null())));
    add(r, NUM, "1", new JSonPrimitive<int>(nullptr, 1));
    add(r, NUM, "-12", new JSonPrimitive<int>(nullptr, -12));
    add(r, NUM, "11111111111", new JSonPrimitive<long long>(nullptr, 11111111111LL));
    add(r, NUM, "1.5e1", new JSonPrimitive<double>(nullptr, 15., "1.5e1"));
    add(r, BOOL, "true", new JSonPrimitive<bool>(nullptr, true));
    add(r, BOOL, "false", new JSonPrimitive<bool>(nullptr, false));
    add(r, NUL, "null", new JSonPrimitive<Null>(nullptr, Null()));
    return r;
}

// ---------------------------------------------------------------- reference

struct Ref
{
    S pattern;
    bool ci = false, word = false, whole = false, regex = false, invalid = false, unspecified = false;
    char type = 0;
    std::regex re;

    explicit Ref(const S &in)
    {
        size_t i = in.find_first_not_of(" \t");
        bool flags = false;
        for (; i < in.size(); ++i)
        {
            if (in[i] == '\\')
            {
                if (i + 1 == in.size()) { unspecified = true; break; } // nothing is escaped
                if (in[i + 1] == '/') pattern += '/';
                else (pattern += '\\') += in[i + 1];
                ++i;
            }
            else if (in[i] == '/') { flags = true; ++i; break; }
            else pattern += in[i];
        }
        if (flags)
            for (; i < in.size(); ++i)
                switch (in[i])
                {
                case 'i': ci = true; break;
                case 'w': word = true; break;
                case 'f': whole = true; break;
                case 'e': regex = true; break;
                case 'b': case 'n': case 's': case 'o': type = in[i]; break;
                default: break;
                }
        if (pattern.find('\t') != S::npos) unspecified = true;
        if (regex && (word || whole)) unspecified = true;
        if (regex && pattern.find("**") != S::npos) unspecified = true; // std::regex may not end
        if (regex)
            try { re = std::regex(pattern, ci ? std::regex::ECMAScript | std::regex::icase : std::regex::ECMAScript); }
            catch (std::regex_error &) { invalid = true; }
    }

    static char fold(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
    bool same(char t, char p) const
    {
        if (t == '\t') t = ' ';
        return ci ? fold(t) == fold(p) : t == p;
    }
    bool match(Kind k, const S &text) const
    {
        if ((type == 'b' && k != BOOL) || (type == 'n' && k != NUM) || (type == 's' && k != STR) || (type == 'o' && k != KEY)) return false;
        if (regex) return std::regex_search(text, re);
        if (whole && text.size() != pattern.size()) return false;
        for (size_t at = 0; at + pattern.size() <= text.size(); ++at)
        {
            size_t j = 0;
            while (j < pattern.size() && same(text[at + j], pattern[j])) ++j;
            if (j < pattern.size()) continue;
            const size_t end = at + j;
            if (word && !((at == 0 || text[at - 1] == ' ' || text[at - 1] == '\t') && (end == text.size() || text[end] == ' ' || text[end] == '\t'))) continue;
            return true;
        }
        return false;
    }
};

// ---------------------------------------------------------------- P18

static void check(int list, const S &in)
{
    const S c = std::to_string(list) + in;
    const Ref r(in);
    if (r.unspecified) return;
    mc::begin(c);
    mc::distinct(c);
    std::unique_ptr<SearchPattern> p;
    bool invalid = false;
    try { p.reset(new SearchPattern(in)); }
    catch (std::regex_error &) { invalid = true; }
    if (invalid != r.invalid) { mc::violation(c, "invalid", (invalid ? "pattern refused: " : "invalid pattern accepted: ") + in); return; }
    if (invalid) return;
    if (p->isEmpty() != r.pattern.empty()) { mc::violation(c, "empty", "pattern " + in + (r.pattern.empty() ? " is not seen as empty" : " is seen as empty")); return; }
    if (r.pattern.empty()) return; // not searched
    S all;
    for (const Elem &e : elems(list))
    {
        const bool got = e.e->match(*p), want = r.match(e.kind, e.text);
        all += got ? '1' : '0';
        if (got != want)
        {
            mc::violation(c, "match", "search for " + in + (got ? " matches " : " does not match ") + (e.kind == KEY ? "key \"" : e.kind == STR ? "string \"" : "\"") + e.text + "\"");
            return;
        }
    }
    mc::sh->transitions = mc::sh->transitions + elems(list).size();
    mc::outcome(all);
    mc::sample(in + " matches " + std::to_string(std::count(all.begin(), all.end(), '1')) + " of " + std::to_string(all.size()));
}

static const std::vector<S> &tokens(int space)
{
    static const std::vector<std::vector<S>> t = {
        {"a", "A", "B", " ", "\\/", "\\n", "\xc3\xa9", "b"},
        {"a", " ", "/", "\\", "i", "w", "f", "e", "s", "n", "z"},
        {"a", "B", ".", "*", "^", "$", "[", "]", "\\", "d", "(", ")", "|", "\\/"},
        {"1", "2", "5", "-", ".", "e", "E", "t", "r", "u", "l", "n", " "}};
    return t[space];
}

static std::vector<S> flags()
{
    std::vector<S> r = {""};
    for (int set = 0; set < 16; ++set)
        for (const char *type : {"", "b", "n", "s", "o", "bs", "so"})
        {
            S f = "/";
            for (int i = 0; i < 4; ++i) if (set & (1 << i)) f += "iwfe"[i];
            r.push_back(f + type);
            if ((set == 5 || set == 8 || thorough()) && *type) r.push_back(S("/") + type + f.substr(1) + "z");
        }
    return r;
}

static void explore(int space, const S &in, unsigned depth)
{
    if (space == 0)
        for (const S &f : flags())
        {
            check(0, in + f);
            if (f.size() < 3 || thorough()) check(0, " \t" + in + f);
        }
    else if (space == 1) check(1, in);
    else if (space == 3) for (const S &f : flags()) check(3, in + f);
    else for (const char *f : {"/e", "/ei", "/ie", "/es"}) check(2, in + f);
    if (!depth) return;
    for (const S &t : tokens(space)) explore(space, in + t, depth - 1);
}

static std::vector<S> units()
{
    std::vector<S> r;
    for (int s = 0; s < 4; ++s)
    {
        r.push_back(std::to_string(s));
        for (size_t i = 0; i < tokens(s).size(); ++i)
            for (size_t j = 0; j < tokens(s).size(); ++j)
                r.push_back(std::to_string(s) + (char) ('A' + i) + (char) ('A' + j));
    }
    return r;
}

static void runUnit(const S &u)
{
    const int s = u[0] - '0';
    static const unsigned quick[] = {1, 3, 2, 1}, deep[] = {2, 4, 3, 3};
    if (u.size() == 1) { explore(s, "", 1); return; }
    explore(s, tokens(s)[u[1] - 'A'] + tokens(s)[u[2] - 'A'], thorough() ? deep[s] : quick[s]);
}

int main(int argc, char **argv)
{
    setlocale(LC_ALL, "");
    mc::Harness h;
    h.units = units;
    h.run = runUnit;
    h.replay = [](const S &c) { check(c[0] - '0', c.substr(1)); };
    return mc::harnessMain(argc, argv, h);
}
