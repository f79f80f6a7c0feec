// Exhaustive exploration of bounded input spaces of the reader, against the reference reader.
#include <algorithm>
#include "common.hh"
#include "repo.hh"

using mc::prop;
using mc::tier;
typedef std::string S;

static bool thorough() { return tier == "thorough"; }

// ---------------------------------------------------------------- one case

static impl::Config config(char mode)
{
    impl::Config c;
    c.strict = !(mode == 'l' || mode == 'b' || mode == 'K');
    c.ascii = mode == 'a' || mode == 'b';
    c.sorted = !(mode == 'k' || mode == 'K');
    return c;
}

static void sortVal(ref::Val &v, bool lenient)
{
    (void) lenient;
    for (auto &x : v.arr) sortVal(x, lenient);
    for (auto &x : v.obj) sortVal(x.second, lenient);
}

// keys of every object in ascending order of their text
static bool keysSorted(const ref::Val &v, S &where)
{
    for (size_t i = 0; i + 1 < v.rawKeys.size(); ++i)
        if (!(v.rawKeys[i] < v.rawKeys[i + 1]))
        {
            where = v.rawKeys[i] + " before " + v.rawKeys[i + 1];
            return false;
        }
    for (auto &x : v.arr) if (!keysSorted(x, where)) return false;
    for (auto &x : v.obj) if (!keysSorted(x.second, where)) return false;
    return true;
}

static bool checkLinks(const JSonElement *e, const JSonElement *parent, unsigned depth, S &err)
{
    if (e->getParent() != parent) { err = "wrong parent of " + e->stringify(); return false; }
    if (e->getLevel() != depth) { err = "wrong level of " + e->stringify(); return false; }
    if (const JSonObjectEntry *ent = dynamic_cast<const JSonObjectEntry *>(e))
        return checkLinks(**ent, e, depth + 1, err);
    if (const JSonContainer *c = dynamic_cast<const JSonContainer *>(e))
    {
        const JSonElement *prev = nullptr;
        for (const JSonElement *i : *c)
        {
            if (!checkLinks(i, e, depth + 1, err)) return false;
            if (i->findPrev() != prev) { err = "wrong previous element of " + i->stringify(); return false; }
            if (prev && prev->findNext() != i) { err = "wrong next element of " + prev->stringify(); return false; }
            prev = i;
        }
        if (prev)
        {
            // After the last one comes what follows its container
            const JSonElement *follow = nullptr;
            for (const JSonElement *up = e; up && !follow; up = up->getParent())
            {
                const JSonContainer *pc = dynamic_cast<const JSonContainer *>(up->getParent());
                if (!pc) continue;
                bool found = false;
                for (const JSonElement *s : *pc)
                {
                    if (found) { follow = s; break; }
                    if (s == up) found = true;
                }
            }
            if (prev->findNext() != follow) { err = "wrong element after the last one of a container: " + prev->stringify(); return false; }
        }
        if (c->firstChild() != (c->empty() ? nullptr : dynamic_cast<const JSonObjectEntry *>(c->front()) ? **(const JSonObjectEntry *) c->front() : c->front()))
        { err = "wrong first child"; return false; }
    }
    return true;
}

static S print(const JSonElement *root, bool compressed)
{
    static char *avPretty[] = {(char *) "jsonstroll", nullptr}, *avCompress[] = {(char *) "jsonstroll", (char *) "--compress", nullptr};
    static Params *pretty = nullptr, *compress = nullptr;
    if (!pretty)
    {
        (pretty = new Params(avPretty))->read();
        (compress = new Params(avCompress))->read();
    }
    std::ostringstream out;
    SimpleOutput::display(out, root, compressed ? *compress : *pretty);
    return out.str();
}

// Without the white space outside of strings
static S strip(const S &s)
{
    S r;
    bool str = false;
    for (size_t i = 0; i < s.size(); ++i)
    {
        if (str && s[i] == '\\' && i + 1 < s.size()) { r += s[i++]; r += s[i]; continue; }
        if (s[i] == '"') str = !str;
        if (!str && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r')) continue;
        r += s[i];
    }
    return r;
}

// Each line: indentation of 4 spaces per level, then an element, a key, a bracket
static bool layout(const S &text, S &err)
{
    size_t pos = 0;
    int depth = 0;
    if (text.empty() || text.back() != '\n') { err = "no new line at the end"; return false; }
    while (pos < text.size())
    {
        const size_t nl = text.find('\n', pos);
        S line = text.substr(pos, nl - pos);
        pos = nl + 1;
        const size_t spaces = line.find_first_not_of(' ');
        if (spaces == S::npos) { err = "empty line"; return false; }
        S t = line.substr(spaces);
        // tokens of the line, without separators
        S kinds;
        bool close = false;
        int change = 0;
        for (size_t i = 0; i < t.size(); ++i)
        {
            const char c = t[i];
            if (c == ',' || c == ':' || c == ' ') continue;
            if (c == '{' || c == '[') { kinds += c; change++; }
            else if (c == '}' || c == ']') { kinds += c; close = true; change--; }
            else if (c == '"')
            {
                for (++i; i < t.size() && t[i] != '"'; ++i)
                    if (t[i] == '\\') ++i;
                const size_t after = t.find_first_not_of(' ', i + 1);
                kinds += after != S::npos && t[after] == ':' ? 'k' : 'v';
            }
            else
            {
                while (i + 1 < t.size() && !strchr(",:]}[{ ", t[i + 1])) ++i;
                kinds += 'v';
            }
        }
        const int level = close ? depth - 1 : depth;
        if ((int) spaces != 4 * level) { err = "indentation of " + std::to_string(spaces) + " at level " + std::to_string(level) + ": " + line; return false; }
        if (kinds != "v" && kinds != "k" && kinds != "kv" && kinds != "{" && kinds != "[" && kinds != "}" && kinds != "]")
        { err = "line with more than one element: " + line; return false; }
        depth += change;
    }
    return true;
}

static void checkPrint(const S &c, const S &in, const impl::Config &cfg, const impl::Outcome &o, const ref::Val &got)
{
    const S pretty = print(o.root, false), comp = print(o.root, true);
    S err;
    if (prop == "P12")
    {
        if (!layout(pretty, err))
            return mc::violation(c, "layout", err + "\n" + pretty + " printing " + in);
        if (strip(comp) != comp)
            return mc::violation(c, "compress", "white space in compressed output " + comp + " of " + in);
        if (strip(pretty) != comp)
            return mc::violation(c, "differ", "compressed output " + comp + " differs from pretty output " + pretty + " of " + in);
        return;
    }
    for (const S *out : {&pretty, &comp})
    {
        ref::Opts ro;
        ro.ascii = cfg.ascii;
        const ref::Result back = ref::parse(*out, ro);
        if (back.status != ref::Result::OK || back.dontCare)
            return mc::violation(c, "invalid", "output is not a JSON document: " + *out + " printing " + in);
        if (!ref::eq(got, back.v, true))
            return mc::violation(c, "differs", "output " + *out + " is not the document " + in);
        impl::Outcome again;
        impl::read(*out, &cfg, again);
        if (again.kind != impl::Outcome::TREE)
            return mc::violation(c, "refused", "output " + *out + " is refused when read again, printing " + in);
        if (print(again.root, out == &comp) != *out)
            return mc::violation(c, "fixpoint", "output " + *out + " is printed differently when read again, printing " + in);
    }
}

static S nameOfCase; // if the input is too long to be the case

static void checkCase(char mode, const S &in)
{
    const S c = S(1, mode) + (nameOfCase.empty() ? in : nameOfCase);
    mc::begin(c);
    const impl::Config cfg = config(mode);
    impl::Outcome o;
    impl::read(in, &cfg, o);
    mc::sh->transitions = mc::sh->transitions + in.size() + 1;
    mc::distinct(c);

    // Whatever the property: only the documented kinds of outcome
    if (o.kind == impl::Outcome::OTHER)
        return mc::violation(c, "exception", "unexpected exception " + o.what + " reading " + in);

    ref::Opts ro;
    ro.lenient = !cfg.strict;
    ro.ascii = cfg.ascii;
    const ref::Result r = ref::parse(in, ro);
    const bool ok = r.status == ref::Result::OK;
    const bool accepted = o.kind == impl::Outcome::TREE;
    mc::outcome(std::to_string((int) o.kind) + (accepted ? "" : o.what) + std::to_string(o.line) + "," + std::to_string(o.col) + "," + std::to_string(o.warnings.size()) + o.excerpt);
    if (ok && !r.dontCare && in.size() < 200) mc::sample(in + " -> " + ref::show(r.v));

    if (prop == "P03" || (r.dontCare && prop != "P04"))
        return;

    ref::Val got;
    S err;
    if (accepted && !impl::extract(o.root, got, err))
        return mc::violation(c, "tree", err + " reading " + in);

    if (prop == "P02") // nothing malformed is accepted
    {
        if (!ok && accepted)
            mc::violation(c, "accepted", "malformed input accepted as " + ref::show(got) + ": " + in);
        return;
    }
    if (prop == "P04")
    {
        if (o.kind != impl::Outcome::JSON_ERROR && o.warnings.empty())
            return;
        if (o.kind == impl::Outcome::JSON_ERROR)
        {
            const size_t from = r.dontCare || ok ? 0 : std::min(r.dead, in.size());
            const size_t to = r.dontCare || ok ? in.size() : std::min(r.tokenEnd + 1, in.size());
            bool found = false;
            if (!r.dontCare && !ok && o.consumed >= from && o.consumed <= to)
                found = impl::position(in, o.consumed).is(o.line, o.col, o.excerpt);
            else
            {
                impl::Walker w(in);
                while (w.p < from) w.next();
                while (!(found = w.is(o.line, o.col, o.excerpt)) && w.p < to) w.next();
            }
            if (!found)
            {
                const impl::Pos want = impl::position(in, r.dead);
                mc::violation(c, "position", "error reported at line " + std::to_string(o.line) + " col " + std::to_string(o.col) + " [" + o.excerpt +
                        "], input died after " + std::to_string(r.dead) + " bytes (line " + std::to_string(want.line) + " col " + std::to_string(want.col) + "): " + in);
            }
        }
        // warnings: positions are those of increasing prefixes of the input
        impl::Walker at(in);
        for (const impl::Outcome::Warn &w : o.warnings)
        {
            while (at.p < in.size() && !at.is(w.line, w.col, w.excerpt))
                at.next();
            if (!at.is(w.line, w.col, w.excerpt))
                return mc::violation(c, "warning position", "warning at line " + std::to_string(w.line) + " col " + std::to_string(w.col) + " [" + w.excerpt + "]: " + in);
        }
        return;
    }
    if (prop == "P08")
    {
        if (!ok && r.duplicate)
        {
            if (accepted)
                mc::violation(c, "duplicate accepted", "duplicate key accepted: " + in);
            else if (o.what.find("double key") == S::npos)
                mc::violation(c, "duplicate message", "duplicate key reported as " + o.what + ": " + in);
            return;
        }
        if (!ok && accepted)
            return mc::violation(c, "accepted", "malformed input accepted: " + in);
        if (accepted && o.warnings.size() != r.warnings)
            return mc::violation(c, "warnings", std::to_string(o.warnings.size()) + " warning(s) instead of " + std::to_string(r.warnings) + ": " + in);
    }
    if (prop == "P09")
    {
        if (ok != accepted)
            return mc::violation(c, ok ? "refused" : "accepted", S(ok ? "refused: " : "accepted: ") + in + " (" + o.what + ")");
        if (accepted && o.warnings.size() != r.warnings)
            return mc::violation(c, "warnings", std::to_string(o.warnings.size()) + " warning(s) instead of " + std::to_string(r.warnings) + ": " + in);
    }
    if (!ok)
        return;
    if (!accepted)
        return mc::violation(c, "refused", "document refused (" + o.what + "): " + in);

    if (prop == "P11" || prop == "P12")
    {
        if (!ref::eq(r.v, got, !cfg.sorted))
            return mc::violation(c, "tree", "read as " + ref::show(got) + " instead of " + ref::show(r.v) + ": " + in);
        return checkPrint(c, in, cfg, o, got);
    }
    if (prop == "P10")
    {
        if (!checkLinks(o.root, nullptr, 1, err))
            mc::violation(c, "links", err + " in " + in);
        return;
    }
    if (!ref::eq(r.v, got, !cfg.sorted))
        return mc::violation(c, "tree", "read as " + ref::show(got) + " instead of " + ref::show(r.v) + ": " + in);
    if (cfg.sorted && !keysSorted(got, err))
        return mc::violation(c, "order", "keys are not sorted (" + err + "): " + in);
    if (!o.warnings.empty() && cfg.strict)
        return mc::violation(c, "warnings", "warning without -W: " + in);

    if (prop == "P05" || prop == "P06")
    {
        // What is shown of a string: characters instead of \u escapes (P05), or the escapes (P06)
        std::function<bool(const ref::Val &, const ref::Val &)> shown = [&](const ref::Val &w, const ref::Val &g)
        {
            if (w.t == ref::Val::STR)
            {
                size_t at = 0; // in what is shown
                const auto is = [&](const S &x) { if (g.raw.compare(at, x.size(), x)) return false; at += x.size(); return true; };
                for (size_t i = 0; i < w.raw.size(); ++i)
                {
                    if (w.raw[i] != '\\') { if (!is(S(1, w.raw[i]))) return false; continue; }
                    const char n = w.raw[++i];
                    if (n == '"' || n == '/') { if (!is(S(1, n))) return false; }
                    else if (n != 'u') { if (!is(S("\\") + n)) return false; }
                    else if (cfg.ascii) { if (!is("\\u")) return false; }
                    else
                    {
                        unsigned u = strtoul(w.raw.substr(i + 1, 4).c_str(), nullptr, 16);
                        i += 4;
                        if (u >= 0xD800 && u < 0xDC00)
                        {
                            u = 0x10000 + ((u - 0xD800) << 10) + (strtoul(w.raw.substr(i + 3, 4).c_str(), nullptr, 16) - 0xDC00);
                            i += 6;
                        }
                        S utf;
                        ref::putUtf8(utf, u);
                        if (u >= 0x20 && u != '\\') { if (!is(utf)) return false; continue; }
                        // shown as an escape, in any of the JSON ways
                        static const S letters = "\\btnfr", denoted = "\\\b\t\n\f\r";
                        if (!is("\\") || at >= g.raw.size()) return false;
                        const size_t l = letters.find(g.raw[at++]);
                        if (l != S::npos) { if ((unsigned char) denoted[l] != u) return false; continue; }
                        const S hex = g.raw.substr(at, 4);
                        if (g.raw[at - 1] != 'u' || hex.size() < 4 || hex.find_first_not_of("0123456789abcdefABCDEF") != S::npos || strtoul(hex.c_str(), nullptr, 16) != u) return false;
                        at += 4;
                    }
                }
                return at == g.raw.size();
            }
            for (size_t i = 0; i < w.arr.size(); ++i)
                if (!shown(w.arr[i], g.arr[i])) return false;
            return true;
        };
        if ((r.v.t == ref::Val::STR || r.v.t == ref::Val::ARR) && !shown(r.v, got))
            return mc::violation(c, "shown", "string shown as " + got.raw + ": " + in);
    }
}

// ---------------------------------------------------------------- input spaces

struct Alphabet
{
    const char *name;
    S prefix;
    std::vector<S> tokens;
    int quick, deep;
    std::vector<S> suffixes; // also run with each of them appended
};

static std::vector<S> bytes(const S &s)
{
    std::vector<S> r;
    for (char c : s) r.push_back(S(1, c));
    return r;
}

static const std::vector<Alphabet> &alphabets()
{
    static const std::vector<Alphabet> a = {
        {"tokens", "", {"{", "}", "[", "]", ",", ":", "\"a\"", "\"b\"", "1", "true", "null", " "}, 6, 8, {}},
        {"bytes", "", bytes("{}[],:\"a1 \n"), 6, 8, {}},
        {"string", "[\"", {"\"", "\\", "/", "b", "n", "u", "0", "d", "8", "C", "\xc3\xa9", "\x01", "]"}, 4, 5, {"\"]", "0061\"]"}},
        {"hex", "[\"\\u", bytes("0158acdCDFg\"\\u"), 4, 6, {"\"]"}},
        {"surrogate", "[\"\\ud83", bytes("0dc\\uDC8\"bx"), 5, 7, {"\"]", "e00\"]"}},
        {"number", "[", bytes("-+.eE0179,]"), 4, 6, {"]", " ]", "\n]", ",1]"}},
        {"rootnumber", "", bytes("-+.eE0179 "), 4, 6, {}},
        {"literal", "[", bytes("trufalsnTRULE], "), 5, 8, {"]", ",1]"}},
        {"rootliteral", "", bytes("trufalsnTRULE "), 5, 8, {}},
        {"objects", "{", {"\"a\":", "\"b\":", "\"c\":", "\"a\"", "1", "{", "}", "[", "]", ","}, 6, 8, {}},
        {"keys", "{", {"\"a\":1", "\"b\":2", "\"B\":3", "\"ab\":4", "\"\":5", "\"\\u0061\":6", "\"\xc3\xa9\":7", "\"1\":8", "\"\\n\":9", "\"a\\\"\":10", ",", "}"}, 7, 9, {}},
        {"dupes", "{", {"\"a\":1", "\"b\":2", "\"\\u0061\":3", "\"a\":{\"a\":1}", "\"b\":[{\"a\":1,\"a\":2}]", "\"a\" :\"x\"", ",", "}"}, 7, 9, {}},
        {"lenient", "[", {"True", "FALSE", "nULL", "true", "null", "\"\\q\"", "\"\\'a\\q\"", "{\"a\":1,\"a\":2}", "\"\\n\"", "\"\\u00g1\"", ",", "]", "-", "tRue1"}, 5, 7, {}},
        {"escapes", "[\"", {"\\\"", "\\\\", "\\/", "\\b", "\\f", "\\n", "\\r", "\\t", "\\u0041", "\\u00e9", "\\u20AC", "\\ud83d\\ude00", "\\u0000", "\\u001f", "\\u005c", "\\u0022", "u0041", "x", "\xe2\x82\xac", "\""}, 3, 4, {"\"]"}},
        {"lines", "", {"\n", "\r", "\r\n", "[", "]", "1", ",", "\"x\"", "true", "x", "{", "  "}, 5, 7, {}},
        {"nested", "", {"{\"k\":", "[", "1", "\"s\"", "}", "]", ",", ",\"l\":", "{}", "[]"}, 7, 9, {}},
    };
    return a;
}

// Which alphabets and modes decide which property
static std::vector<std::pair<S, char>> spaces()
{
    std::vector<std::pair<S, char>> r;
    auto add = [&](const S &names, const S &modes)
    {
        size_t p = 0;
        while (p < names.size())
        {
            size_t e = names.find(' ', p);
            if (e == S::npos) e = names.size();
            for (char m : modes) r.push_back({names.substr(p, e - p), m});
            p = e + 1;
        }
    };
    if (prop == "P01") add("tokens bytes string number rootnumber literal rootliteral objects escapes nested", "s");
    else if (prop == "P02") { add("tokens bytes string hex surrogate number rootnumber literal rootliteral objects escapes lines nested", "s"); add("tokens objects number literal", "k"); }
    else if (prop == "P03") { add("tokens bytes string hex surrogate number rootnumber literal rootliteral lenient", "sb"); add("string dupes", "la"); }
    else if (prop == "P04") { add("tokens bytes string hex surrogate number literal objects lines escapes dupes", "s"); add("lenient dupes lines", "l"); }
    else if (prop == "P05") add("string hex surrogate escapes", "s");
    else if (prop == "P06") add("string hex escapes", "a");
    else if (prop == "P07") add("keys objects", "sk");
    else if (prop == "P08") add("keys dupes", "slkK");
    else if (prop == "P09") { add("lenient literal rootliteral dupes objects tokens", "l"); add("lenient literal rootliteral", "s"); add("lenient dupes", "K"); }
    else if (prop == "P10") add("tokens nested objects", "sk");
    else if (prop == "P11") { add("tokens objects number escapes nested keys surrogate", "s"); add("objects nested keys", "k"); add("hex escapes string", "a"); }
    else if (prop == "P12") { add("tokens objects number escapes nested", "s"); add("nested", "k"); add("escapes", "a"); }
    return r;
}

static const Alphabet &alphabet(const S &name)
{
    for (const Alphabet &a : alphabets())
        if (name == a.name) return a;
    abort();
}

static void node(const Alphabet &a, char mode, const S &text)
{
    checkCase(mode, text);
    for (const S &s : a.suffixes)
        checkCase(mode, text + s);
}

// A prefix is extended when it can still become a document, and once more after that
static bool extensible(const S &text, const S &parent, char mode)
{
    ref::Opts o;
    const impl::Config c = config(mode);
    o.lenient = !c.strict;
    o.ascii = c.ascii;
    const ref::Result r = ref::parse(text, o);
    if (r.status == ref::Result::DEAD)
        return r.dead >= parent.size();
    if (r.status == ref::Result::OK)
        return r.openNumber || r.end > parent.size();
    return true;
}

static void explore(const Alphabet &a, char mode, const S &text, int depth)
{
    for (const S &t : a.tokens)
    {
        const S next = text + t;
        node(a, mode, next);
        if (depth > 1 && extensible(next, text, mode))
            explore(a, mode, next, depth - 1);
    }
}

// Structured inputs: lengths around the limits of the implementation
static std::vector<S> sized(int n)
{
    std::vector<S> r;
    auto rep = [](int k, const S &s) { S x; for (int i = 0; i < k; ++i) x += s; return x; };
    r.push_back(rep(n, "[") + rep(n, "]"));
    r.push_back(rep(n, "["));
    r.push_back(rep(n, "{\"a\":") + "1" + rep(n, "}"));
    r.push_back(rep(n, "{\"a\":[") + rep(n, "]}"));
    r.push_back("[" + rep(n, "1,") + "2]");
    r.push_back("[" + rep(n, "1,") + "]");
    r.push_back("[" + rep(n, "\"s\",") + "{}]");
    S keys;
    for (int i = 0; i < n; ++i) keys += "\"k" + std::to_string(i * 7919 % 1000) + "\":" + std::to_string(i) + ",";
    r.push_back("{" + keys + "\"z\":0}");
    r.push_back("{" + keys + "\"z\":0,\"z\":1}");
    r.push_back("\"" + rep(n, "x") + "\"");
    r.push_back("\"" + rep(n, "x"));
    r.push_back("\"" + rep(n, "\\n") + "\"");
    r.push_back("\"" + rep(n, "\\u00e9") + "\"");
    r.push_back("{\"" + rep(n, "\\\"") + "\":" + rep(n, " ") + "null}");
    r.push_back("[" + rep(n, "9") + "0]");
    r.push_back("[-" + rep(n, "9") + "0]");
    r.push_back("[0." + rep(n, "3") + "1]");
    r.push_back("[1" + rep(n, "0") + "e" + rep(std::min(n, 5), "2") + "0]");
    r.push_back("[1e-" + rep(std::min(n, 5), "3") + "0]");
    for (const S &nl : {S("\n"), S("\r"), S("\r\n"), S("\n\n"), S("\r\r\n"), S("\n\r")})
    {
        r.push_back("[" + rep(n, " ") + nl + "1" + rep(n % 50, " ") + nl + "x]");
        r.push_back(rep(n, nl) + "[1,2" + rep(n, " ") + "3]");
        r.push_back("[true" + nl + "," + rep(n, " ") + "null" + nl + ",12" + nl + "]" + (n % 2 ? nl : ""));
        r.push_back("[12" + nl + rep(n, " ") + "truX" + nl + "]");
        r.push_back("[" + rep(n, "1,") + nl + "nulX]");
        r.push_back("{" + nl + "\"a\"" + nl + ":" + nl + "1" + nl + rep(n, " ") + "\"b\"}");
        r.push_back("[\"" + rep(n, "x") + nl + "\\q\"]");
        r.push_back("[\"" + rep(n, "x") + "\\u00" + nl + "q\"]");
        r.push_back("[" + rep(n, " ") + "nu" + nl + "l]");
        r.push_back("[1" + rep(n, "2") + nl);
        r.push_back("[true" + rep(n, " ") + nl + "e]");
    }
    for (const S &bad : {S("x"), S("1 1"), S("\"a\" \"b\""), S("tru}"), S("nul1"), S("\"\\u12G4\""), S("\"\\x\""), S("-"), S("1e"), S("1.2.3"), S(":"), S("{1:2}"), S("{\"a\" 1}"), S("{\"a\":1 \"b\":2}"), S("{\"a\":1,}"), S("{\"a\":,"), S("{\"k\":1,\"k\":2}"), S("\"unterminated"), S("fals"), S("nu"), S("truee"), S("[,]"), S("{,}")})
        r.push_back("[" + rep(n, " ") + bad + "]");
    return r;
}

// Much larger ones, around the powers of two
static std::vector<S> huge(int n)
{
    std::vector<S> r;
    auto rep = [](int k, const S &s) { S x; for (int i = 0; i < k; ++i) x += s; return x; };
    for (const S &nl : {S("\n"), S("\r"), S("\r\n")})
    {
        r.push_back(rep(n, nl) + "[1,x]");
        r.push_back("[" + rep(n, "1," + nl) + "\"\\q\"]");
        r.push_back("[" + rep(n, " ") + nl + " 1 2]");
    }
    r.push_back("[" + rep(n, " ") + "x]");
    r.push_back("[\"" + rep(n, "y") + "\\q\"]");
    r.push_back("\"" + rep(n, "x") + "\"");
    r.push_back("[\"" + rep(n, "\\u00e9") + "\",1]");
    r.push_back("{\"" + rep(n, "x") + "y\":1,\"" + rep(n, "x") + "z\":2,\"a\":3}");
    r.push_back("{\"" + rep(n, "x") + "\":1,\"a\":3,\"" + rep(n, "x") + "\":2}");
    r.push_back("[" + rep(n, "1,") + "2]");
    r.push_back("[" + rep(n, "1,") + "2 3]");
    r.push_back("[" + rep(n, "[],") + "{\"a\":[]}]");
    if (n < 5000)
    {
        S keys;
        for (int i = 0; i < n; ++i) keys += "\"k" + std::to_string(i * 7919 % 99991) + "\":" + std::to_string(i) + ",";
        r.push_back("{" + keys + "\"z\":0}");
        r.push_back("{" + keys + "\"k0\":[]}");
        r.push_back("{" + keys + "}");
    }
    if (n < 1500)
    {
        r.push_back("[" + rep(n, "\"\\q\",") + "1]");
        r.push_back("[" + rep(n, "{\"a\":1,\"a\":TRUE},") + "1]");
        r.push_back(rep(n, "[") + rep(n, "]"));
        r.push_back(rep(n, "[") + rep(n - 1, "]"));
        r.push_back(rep(n, "{\"a\":") + "1" + rep(n, "}"));
        r.push_back(rep(n, "[1,{\"a\":") + "1" + rep(n, "}]"));
    }
    return r;
}

static void hugeCase(char mode, int n, int i)
{
    nameOfCase = "@huge " + std::to_string(n) + " " + std::to_string(i);
    checkCase(mode, huge(n)[i]);
    nameOfCase.clear();
}

static std::vector<S> boundaryNumbers()
{
    std::vector<S> r;
    const S lim[] = {"2147483647", "2147483648", "2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "9223372036854775809",
        "18446744073709551615", "18446744073709551616", "1000000000000000000000", "0", "1", "9", "10", "99999999999", "123456789012345678", "999999999999999999", "1000000000000000000"};
    for (const S &l : lim)
        for (const S &sign : {S(""), S("-")})
            for (const S &frac : {S(""), S(".0"), S(".5"), S(".000000001"), S(".1234567890123456789")})
                for (const S &exp : {S(""), S("e0"), S("E1"), S("e+2"), S("E-2"), S("e308"), S("e309"), S("e-324"), S("e-400"), S("e99999")})
                    r.push_back(sign + l + frac + exp);
    return r;
}

// Documents of which every edit is tried
static const std::vector<S> &corpus()
{
    static const std::vector<S> c = {
        "[true,false,null]", "[ true , false , null ]", "true", "null", "-12", "\"s\"", "{}", "[]", " [ ] ", "{ }",
        "[1,-2,3.5,-0.25,1e5,1E+5,2e-3,0]", "[12345678901,123456789012345678901]", "{\"a\":1,\"b\":[1,2],\"c\":{\"d\":null}}",
        "{\"a\":{\"a\":{\"a\":[]}}}", "[[],[[]],{},[{}]]", "[{\"a\":1},{\"a\":2}]", "[\"\",\"a b\",\"\\\"\\\\\\/\\b\\f\\n\\r\\t\"]",
        "[\"\\u0041\\u00e9\\u20AC\\ud83d\\ude00\"]", "[\"\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80\"]", "\t{\n\t\"a\" : true ,\r\n \"b\" : [ 1 , 2 ] }\n",
        "[\n1,\n\"a\",\ntrue,\nnull\n]", "{\"\":0,\"a\\\"b\":\"c\",\"\\u0061\":\"d\"}", "[0.5,.5,1.]", "{\"k\":\"v\",\"l\":[true,{\"m\":-1e-1}]}",
    };
    return c;
}

static const std::vector<S> &inserted()
{
    static const std::vector<S> r = []
    {
        std::vector<S> v = bytes("{}[],:\"\\/-+.eE01279 \n\r\tabfnrtuTFNxs_'#");
        for (const S &t : {S("true"), S("null"), S("\"a\""), S("[]"), S("{}"), S("1"), S(",1"), S("\r\n"), S("\xc3\xa9"), S("\x01"), S("\\u"), S("\\u00e9"), S("\\q"), S("//"), S("1.5"), S("--"), S("\"a\":1"), S("]]"), S("}}"), S("\xef\xbb\xbf")})
            v.push_back(t);
        return v;
    }();
    return r;
}

static void edits(char mode, const S &d, int more)
{
    auto use = [&](const S &s)
    {
        checkCase(mode, s);
        if (more > 1) edits(mode, s, more - 1);
    };
    const size_t n = d.size();
    for (size_t p = 0; p <= n; ++p)
    {
        for (const S &t : inserted())
        {
            if (more > 1 && t.size() > 1) continue;
            use(d.substr(0, p) + t + d.substr(p));
            if (p < n) use(d.substr(0, p) + t + d.substr(p + 1));
        }
        if (p >= n) continue;
        use(d.substr(0, p)); // cut
        for (size_t l = 1; l <= 5 && p + l <= n; ++l)
        {
            use(d.substr(0, p) + d.substr(p + l)); // removed
            use(d.substr(0, p + l) + d.substr(p)); // repeated
        }
        if (p + 1 < n)
            use(d.substr(0, p) + d[p + 1] + d[p] + d.substr(p + 2)); // swapped
    }
}

// All sequences of members over some keys, in one object or in an object of an array
static void members(char mode, const std::vector<S> &keys, const S &text, int left, int value)
{
    if (!text.empty())
    {
        checkCase(mode, "{" + text + "}");
        if (left < 2) checkCase(mode, "[{\"z\":0,\"y\":{" + text + "}}]");
    }
    if (!left) return;
    for (const S &k : keys)
        members(mode, keys, text + (text.empty() ? "\"" : ",\"") + k + "\":" + std::to_string(value), left - 1, value + 1);
}

static void longKeys(char mode, int n)
{
    for (int p = 0; p < n; ++p)
    {
        const S base(n, 'k');
        S other = base;
        other[p] = 'l';
        const S prefix = base.substr(0, p);
        checkCase(mode, "{\"" + base + "\":1,\"" + other + "\":2}");
        checkCase(mode, "{\"" + other + "\":1,\"" + base + "\":2,\"" + prefix + "\":3}");
        checkCase(mode, "{\"a\":0,\"" + prefix + "\":1,\"" + other + "\":2,\"" + base + "\":3,\"" + prefix + "\":4}");
    }
    checkCase(mode, "{\"" + S(n, 'k') + "\":1,\"a\":2,\"" + S(n, 'k') + "\":3}");
}

// Every tree of n values whose kinds (in the order of the document) are the bits of a mask
static void shapes(char mode, int n, unsigned mask)
{
    std::vector<int> parent(n, -1);
    std::function<void(int, std::vector<int> &)> grow = [&](int at, std::vector<int> &open)
    {
        if (at == n)
        {
            std::vector<std::vector<int>> kids(n);
            for (int i = 1; i < n; ++i) kids[parent[i]].push_back(i);
            std::function<S(int)> text = [&](int i)
            {
                const bool other = mask >> i & 1;
                if (kids[i].empty()) return S(!other ? std::to_string(i) : i % 2 ? "[]" : "{}");
                S t(1, other ? '{' : '[');
                for (size_t k = 0; k < kids[i].size(); ++k)
                    t += (k ? "," : "") + (other ? S("\"") + (char) ('a' + (kids[i][k] * 5) % 13) + "\":" : S()) + text(kids[i][k]);
                return t + (other ? '}' : ']');
            };
            checkCase(mode, text(0));
            return;
        }
        // under any of the values whose parents are those of the last one
        const std::vector<int> saved = open;
        while (!open.empty())
        {
            parent[at] = open.back();
            std::vector<int> next = open;
            next.push_back(at);
            grow(at + 1, next);
            open.pop_back();
        }
        open = saved;
    };
    std::vector<int> open{0};
    grow(1, open);
}

static void runUnit(const S &unit)
{
    // unit: kind '\0' mode '\0' text...
    const char mode = unit[0];
    const size_t z = unit.find('\0', 1);
    const S kind = unit.substr(1, z - 1), rest = unit.substr(z + 1);

    if (kind == "sized")
    {
        const int from = atoi(rest.c_str());
        for (int n = from; n < from + 4; ++n)
            for (const S &s : sized(n))
                checkCase(mode, s);
    }
    else if (kind == "shapes")
        shapes(mode, atoi(rest.c_str()) >> 12, atoi(rest.c_str()) & 4095);
    else if (kind == "huge") // n and which
    {
        int n, i = 0;
        sscanf(rest.c_str(), "%d", &n);
        for (const S &x : huge(n)) { (void) x; hugeCase(mode, n, i++); }
    }
    else if (kind == "edits")
    {
        const S &d = corpus()[atoi(rest.c_str())];
        edits(mode, d, 1);
        if (thorough() && d.size() <= 10) edits(mode, d, 2);
    }
    else if (kind == "members")
    {
        static const std::vector<S> keys[] = {{"a", "b", "ab", "B", ""}, {"k", "l", "m", "n"}, {"a", "\\u0061", "\\u000a", "\\n"}};
        const int which = atoi(rest.c_str()) / 5, first = atoi(rest.c_str()) % 5;
        if (first < (int) keys[which].size())
            members(mode, keys[which], "\"" + keys[which][first] + "\":0", (thorough() ? 6 : 5) - (keys[which].size() == 5), 1);
    }
    else if (kind == "permutations")
    {
        std::vector<int> p = {0, 1, 2, 3, 4, 5};
        if (thorough()) { p.push_back(6); p.push_back(7); }
        const int first = atoi(rest.c_str());
        do
        {
            if (p[0] != first) continue;
            S s;
            for (int i : p) s += (s.empty() ? "\"" : ",\"") + S(1, "fbdace!~"[i]) + "\":" + std::to_string(i);
            checkCase(mode, "{" + s + "}");
        } while (std::next_permutation(p.begin(), p.end()));
    }
    else if (kind == "longkeys")
        for (int n = atoi(rest.c_str()), i = 0; i < 4; ++i)
            longKeys(mode, n + i);
    else if (kind == "limits")
    {
        for (const S &n : boundaryNumbers())
        {
            checkCase(mode, n);
            checkCase(mode, "[" + n + "]");
            checkCase(mode, "{\"n\":" + n + ",\"m\":1}");
        }
    }
    else if (kind == "allu") // every \uXXXX whose first digit is given
    {
        static const char *digits[] = {"0123456789abcdef", "0123456789ABCDEF"};
        const int first = strtol(rest.c_str(), nullptr, 16);
        for (const char *d : digits)
            for (int i = 0; i < 4096; ++i)
            {
                if (!thorough() && prop == "P11" && first && i % 16 && i != 4095)
                    continue;
                const S e = S("\\u") + d[first] + d[i >> 8] + d[(i >> 4) & 15] + d[i & 15];
                checkCase(mode, "[\"" + e + "\"]");
                checkCase(mode, "\"a" + e + "b\\n" + e + "\"");
            }
    }
    else if (kind == "pairs") // surrogate pairs with a given high one
    {
        const int hi = atoi(rest.c_str());
        char b[16];
        for (int lo = 0; lo < 1024; ++lo)
        {
            if (!thorough() && hi % 64 && hi != 1023 && lo % 64 && lo != 1023)
                continue;
            snprintf(b, sizeof b, "\\u%04x\\u%04X", 0xD800 + hi, 0xDC00 + lo);
            checkCase(mode, S("[\"") + b + "\"]");
        }
    }
    else if (kind == "raw") // any two bytes after a context, then the end or a closing sequence
    {
        static const char *ctx[] = {"", "[", "\"", "{", "{\"a\"", "{\"a\":", "[\"\\u", "[\"\\u00", "[\"\\ud83d\\u", "[tr", "[true", "[nul", "[-", "[1", "[1e", "[1.", "[\"a", "{\"a\":1", "[1,", "[]", "\"\\"};
        const int b1 = atoi(rest.c_str());
        for (const char *x : ctx)
            for (int b2 = -1; b2 < 256; ++b2)
            {
                // quick: all the bytes the grammar knows of, and some of each of the other kinds
                if (!thorough() && b2 >= 0 && !strchr("{}[],:\"\\/ue.+-019afz \n\r\t\x7f\x80\xc3\xff", b2) && b2 % 32 != 5)
                    continue;
                S s = S(x) + (char) b1;
                if (b2 >= 0) s += (char) b2;
                checkCase(mode, s);
                if (thorough() || b2 < 0 || b2 % 8 == 2)
                {
                    checkCase(mode, s + "\"]}");
                    checkCase(mode, s + "00\":1}]");
                }
            }
    }
    else if (kind == "raw3")
    {
        const int b1 = atoi(rest.c_str());
        for (int b2 = 0; b2 < 256; ++b2)
            for (int b3 = 0; b3 < 256; ++b3)
                checkCase(mode, S(1, (char) b1) + (char) b2 + (char) b3);
    }
    else
    {
        const Alphabet &a = alphabet(kind);
        if (rest.empty())
            node(a, mode, a.prefix);
        else
        {
            const int depth = (thorough() ? a.deep : a.quick);
            const unsigned i = rest[1];
            const S first = a.prefix + a.tokens[i];
            if (rest[0] == '1')
                node(a, mode, first);
            else
            {
                const S second = first + a.tokens[(unsigned char) rest[2]];
                if (!extensible(first, a.prefix, mode))
                    return;
                node(a, mode, second);
                if (extensible(second, first, mode))
                    explore(a, mode, second, depth - 2);
            }
        }
    }
}

static std::vector<S> units()
{
    std::vector<S> big, r;
    for (auto &sp : spaces())
    {
        const Alphabet &a = alphabet(sp.first);
        const S head = S(1, sp.second) + sp.first + '\0';
        r.push_back(head);
        for (size_t i = 0; i < a.tokens.size(); ++i)
        {
            r.push_back(head + '1' + (char) i);
            for (size_t j = 0; j < a.tokens.size(); ++j)
                r.push_back(head + '2' + (char) i + (char) j);
        }
    }
    auto add = [&](const S &kind, const S &modes, int from, int to, int step = 1)
    {
        for (char m : modes)
            for (int i = from; i < to; i += step)
                r.push_back(S(1, m) + kind + '\0' + (kind == "allu" ? S(1, "0123456789abcdef"[i]) : std::to_string(i)));
    };
    const int max = thorough() ? 400 : 140;
    const S em = prop == "P02" || prop == "P01" ? "s" : prop == "P03" ? "sb" : prop == "P04" ? "sl" : prop == "P06" ? "a" : prop == "P09" ? "lK" : prop == "P10" || prop == "P12" ? "k" : prop == "P11" ? "sk" : prop == "P05" ? "s" : "sl";
    add("edits", em, 0, corpus().size());
    for (int n : {256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536})
        for (int d = n == 256 || n == 1024 || thorough() ? -2 : -1; d <= (n < 10000 || thorough() ? 1 : 0); ++d)
        {
            if (prop == "P10" && n > 4096) continue;
            if ((prop == "P05" || prop == "P06") && n > 9000) continue;
            add("huge", em, n + d, n + d + 1);
        }
    if (prop == "P01" || prop == "P10" || prop == "P11" || prop == "P12")
        for (int n = 1; n <= (prop == "P10" ? 8 : 7) + thorough(); ++n)
            add("shapes", prop == "P10" ? "sk" : prop == "P12" ? "k" : "s", n << 12, (n << 12) + (1 << n));
    if (prop == "P07" || prop == "P08")
    {
        const S m = prop == "P07" ? "sk" : "slkK";
        add("members", m, 0, 15);
        add("permutations", m, 0, thorough() ? 8 : 6);
        add("longkeys", m, 1, thorough() ? 300 : 70, 4);
    }
    if (prop == "P01") { add("sized", "s", 0, max, 4); add("limits", "s", 0, 1); }
    if (prop == "P02") { add("sized", "s", 0, max, 4); add("limits", "s", 0, 1); add("raw", "s", 0, 256); }
    if (prop == "P03")
    {
        add("sized", "sb", 0, max, 4);
        add("raw", "s", 0, 256);
        add("raw", "b", 0, 256);
        add("limits", "s", 0, 1);
        if (thorough()) add("raw3", "sb", 0, 256);
    }
    if (prop == "P04") { add("sized", "sl", 0, max, 4); add("raw", "s", 0, 256); }
    if (prop == "P05") { add("allu", "s", 0, 16); add("pairs", "s", 0, 1024); add("sized", "s", 0, 60, 4); }
    if (prop == "P06") { add("allu", "a", 0, 16); add("sized", "a", 0, 60, 4); }
    if (prop == "P07" || prop == "P08") add("sized", "sk", 0, max, 4);
    if (prop == "P09") add("sized", "l", 0, max, 4);
    if (prop == "P11") { add("sized", "ska", 0, max, 4); add("limits", "s", 0, 1); add("allu", "sa", 0, 16); }
    if (prop == "P12") { add("sized", "sk", 0, max, 4); add("limits", "s", 0, 1); }
    if (prop == "P10") add("sized", "s", 0, 60, 4);
    return r;
}

int main(int argc, char **argv)
{
    mc::Harness h;
    h.units = units;
    h.run = runUnit;
    h.replay = [](const S &c)
    {
        int n, i;
        if (sscanf(c.c_str() + 1, "@huge %d %d", &n, &i) == 2) hugeCase(c[0], n, i);
        else checkCase(c[0], c.substr(1));
    };
    return mc::harnessMain(argc, argv, h);
}
