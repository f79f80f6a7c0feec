// Reference model of what the viewer of one document shows, and of what each key does to it.
#pragma once
#include "term.hh"
#include "refjson.hh"
#include <algorithm>
#include <map>
#include <memory>
#include <set>

namespace view {

typedef std::string S;

enum Kind { SCALAR, ARR, OBJ };

// How a string is shown: control characters and backslashes remain escaped
static bool rawEscapes; // with --ascii, unicode escapes are not replaced (those of these documents are for 2 bytes, in lower case)
inline S shownText(const S &in)
{
    S r;
    char b[8];
    for (size_t i = 0; i < in.size(); ++i)
    {
        const unsigned char c = in[i];
        if (rawEscapes && c >= 0xC0 && c < 0xE0 && i + 1 < in.size())
        {
            snprintf(b, sizeof b, "\\u%04x", (c & 31) << 6 | (in[++i] & 63));
            r += b;
            continue;
        }
        const char *from = "\\\b\f\n\r\t", *to = "\\bfnrt", *f = c ? strchr(from, c) : nullptr;
        if (f) (r += '\\') += to[f - from];
        else if (c < 32) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}

// An element the user can select: the root, an item of an array or a member of an object
struct El
{
    int parent = -1;
    bool hasKey = false;
    S key, text;
    Kind kind = SCALAR;
    ref::Val::Type type = ref::Val::NUL;
    std::vector<int> ch;
};

struct Doc
{
    std::vector<El> els; // document order, 0 is the root

    int add(const ref::Val &v, int parent, bool sorted)
    {
        const int id = els.size();
        els.emplace_back();
        els[id].parent = parent;
        els[id].type = v.t;
        if (v.t == ref::Val::ARR)
        {
            els[id].kind = ARR;
            for (const ref::Val &c : v.arr) { const int k = add(c, id, sorted); els[id].ch.push_back(k); }
        }
        else if (v.t == ref::Val::OBJ)
        {
            els[id].kind = OBJ;
            std::vector<std::pair<S, ref::Val>> m = v.obj;
            if (sorted) std::stable_sort(m.begin(), m.end(), [](const std::pair<S, ref::Val> &a, const std::pair<S, ref::Val> &b) { return a.first < b.first; });
            for (auto &c : m)
            {
                const int k = add(c.second, id, sorted);
                els[k].hasKey = true;
                els[k].key = shownText(c.first);
                els[id].ch.push_back(k);
            }
        }
        else els[id].text = v.t == ref::Val::STR ? shownText(v.s) : v.t == ref::Val::NUM ? v.s : v.t == ref::Val::BOOL ? (v.b ? "true" : "false") : "null";
        return id;
    }
    int childIndex(int e) const
    {
        const std::vector<int> &c = els[els[e].parent].ch;
        return std::find(c.begin(), c.end(), e) - c.begin();
    }
    int prevSibling(int e) const
    {
        if (els[e].parent < 0) return -1;
        const int i = childIndex(e);
        return i ? els[els[e].parent].ch[i - 1] : -1;
    }
    int after(int e) const // what follows the element and its content
    {
        for (; els[e].parent >= 0; e = els[e].parent)
        {
            const std::vector<int> &c = els[els[e].parent].ch;
            const size_t i = childIndex(e) + 1;
            if (i < c.size()) return c[i];
        }
        return -1;
    }
};

enum Role { NONE, SEP, KEY, TEXT, BRACKET };
struct Cell { char32_t ch = ' '; int owner = -1; Role role = NONE; };
struct Row { std::vector<Cell> cells; bool first = false; /* of an element's line */ int line = -1; };

// Everything, unfolded or not, wrapped at the width
struct Page
{
    std::vector<Row> rows;
    std::vector<int> shown; // selectable elements, in order
    std::vector<int> lineOf; // element -> row of its line, or -1
    bool openEnded = false; // some wrapped rows may be missing (trailing blanks)
};

inline std::u32string chars(const S &s)
{
    std::u32string r;
    for (unsigned char c : s)
        if ((c & 0xC0) == 0x80 && !r.empty()) r.back() = r.back() << 6 | (c & 63);
        else r += c < 0x80 ? c : c < 0xE0 ? c & 31 : c < 0xF0 ? c & 15 : c & 7;
    return r;
}

class Layout
{
    const Doc &d;
    const std::set<int> &folded;
    const int w;
    Page &p;
    std::vector<Cell> cur;

    void put(const S &s, int owner, Role r)
    {
        for (const char32_t c : chars(s)) { cur.emplace_back(); cur.back().ch = c; cur.back().owner = owner; cur.back().role = r; }
    }
    void flush(int indent)
    {
        std::vector<Cell> all(indent);
        all.insert(all.end(), cur.begin(), cur.end());
        cur.clear();
        const size_t n = std::max<size_t>(1, (all.size() + w - 1) / w);
        all.resize(n * w);
        for (size_t i = 0; i < n; ++i)
        {
            p.rows.emplace_back();
            p.rows.back().cells.assign(all.begin() + i * w, all.begin() + (i + 1) * w);
            p.rows.back().first = i == 0;
        }
    }
    void content(int e, int indent)
    {
        const El &el = d.els[e];
        const S open = el.kind == OBJ ? "{" : "[", close = el.kind == OBJ ? "}" : "]";
        if (el.kind == SCALAR) { put(el.text, e, TEXT); flush(indent); return; }
        if (folded.count(e)) { put(open + " ... " + close, e, BRACKET); flush(indent); return; }
        put(open, e, BRACKET);
        flush(indent);
        for (int c : el.ch) element(c, indent + 4);
        put(close, e, BRACKET);
        flush(indent);
    }
    void element(int e, int indent)
    {
        const El &el = d.els[e];
        p.shown.push_back(e);
        p.lineOf[e] = p.rows.size();
        if (!el.hasKey) { content(e, indent); return; }
        put(el.key, e, KEY);
        put(": ", e, SEP);
        const S open = el.kind == OBJ ? "{" : "[", close = el.kind == OBJ ? "}" : "]";
        if (el.kind == SCALAR) { put(el.text, e, TEXT); flush(indent); }
        else if (folded.count(e)) { put(open + " ... " + close, e, BRACKET); flush(indent); }
        else if (el.ch.empty()) { put(open + " " + close, e, BRACKET); flush(indent); }
        else { flush(indent); content(e, indent + 2); }
    }

public:
    Layout(const Doc &doc, const std::set<int> &f, int width, Page &page): d(doc), folded(f), w(width), p(page)
    {
        p.lineOf.assign(d.els.size(), -1);
        element(0, 0);
    }
};

// Keys and events, one character each. In a case, those which are not printable have a number.
enum Token : char
{
    T_UP = 1, T_DOWN, T_PPAGE, T_NPAGE, T_RIGHT, T_LEFT, T_ENTERKEY, // function keys
    T_BS = 8, T_LF = 10, T_CR = 13, T_IDLE = 14, T_BSKEY = 15,
    T_SIZE0 = 16, T_SIZE1, T_SIZE2, T_SIZE3, // resize to another size
    T_CONT = 20, T_F1 = 21, T_INT = 22, T_CTRLW = 23, T_TERM = 24, T_MIDSIZE = 25, // resize while the screen is drawn
    T_CONTSAME = 26, T_ESC = 27, T_DEL = 127
};

inline S tokenName(char t)
{
    static const char *names[] = {"", "UP", "DOWN", "PPAGE", "NPAGE", "RIGHT", "LEFT", "ENTER", "BS", "", "LF", "", "", "CR", "IDLE", "BACKSPACE", "SIZE0", "SIZE1", "SIZE2", "SIZE3", "CONT", "F1", "INT", "^W", "TERM", "MIDSIZE", "CONTSAME", "ESC"};
    if (t == T_DEL) return "DEL";
    if (t > 0 && t < 28 && *names[(int) t]) return names[(int) t];
    return S(1, t);
}
inline S tokenNames(const S &keys)
{
    S r;
    for (char c : keys) { if (!r.empty()) r += ' '; r += tokenName(c); }
    return r;
}
inline int keyCode(char t)
{
    switch (t)
    {
    case T_UP: return KEY_UP; case T_DOWN: return KEY_DOWN; case T_PPAGE: return KEY_PPAGE; case T_NPAGE: return KEY_NPAGE;
    case T_RIGHT: return KEY_RIGHT; case T_LEFT: return KEY_LEFT; case T_ENTERKEY: return KEY_ENTER; case T_BSKEY: return KEY_BACKSPACE;
    case T_F1: return KEY_F(1); case T_IDLE: return ERR;
    default: return (unsigned char) t;
    }
}

static const char *const NOT_FOUND = "Pattern not found", *const BOTTOM = "Search hit BOTTOM, continuing at TOP", *const INVALID = "Invalid pattern";

struct Model
{
    int sel = 0;
    std::set<int> folded, results;
    S msg, buf;
    bool prompt = false, prefix = false, quit = false;
    bool keptMsg = false; // the message may have been erased
    int rows = 24, cols = 80;

    S key() const
    {
        S r = std::to_string(sel) + "f";
        for (int f : folded) r += std::to_string(f) + ",";
        r += "r";
        for (int f : results) r += std::to_string(f) + ",";
        return r + "m" + msg + (prompt ? "?" : "") + buf + (prefix ? "^" : "") + (quit ? "Q" : "");
    }
};

// Patterns used here: plain text, or text/FLAGS with the flags i, s, o, or an invalid regex ("(/e")
struct Pattern
{
    S text;
    bool ci = false, invalid = false;
    char type = 0;
    explicit Pattern(const S &in)
    {
        size_t i = 0;
        while (i < in.size() && (in[i] == ' ' || in[i] == '\t')) ++i;
        const size_t slash = in.find('/', i);
        text = in.substr(i, slash == S::npos ? S::npos : slash - i);
        for (size_t j = 0; !rawEscapes && j + 5 < text.size(); ++j) // escapes (of characters whose code has at most 4 digits, without surrogates)
        {
            unsigned n = 0;
            bool hex = text[j] == '\\' && text[j + 1] == 'u';
            for (size_t k = j + 2; k < j + 6; ++k) { hex &= !!isxdigit((unsigned char) text[k]); n = n * 16 + (isdigit((unsigned char) text[k]) ? text[k] - '0' : (text[k] | 32) - 'a' + 10); }
            if (!hex) continue;
            S u;
            if (n < 0x80) u = (char) n;
            else if (n < 0x800) u = S(1, 0xC0 | n >> 6) + (char) (0x80 | (n & 63));
            else u = S(1, 0xE0 | n >> 12) + (char) (0x80 | (n >> 6 & 63)) + (char) (0x80 | (n & 63));
            text.replace(j, 6, u);
            j += u.size() - 1;
        }
        if (slash == S::npos) return;
        for (char c : in.substr(slash + 1))
            if (c == 'i') ci = true;
            else if (c == 'e') invalid = text == "(";
            else if (strchr("bnso", c)) type = c;
    }
    static S fold(S s) { for (char &c : s) c = tolower(c); return s; }
    bool in(const S &s) const { return ci ? fold(s).find(fold(text)) != S::npos : s.find(text) != S::npos; }
    bool match(const El &e) const
    {
        if (e.hasKey && (!type || type == 'o') && in(e.key)) return true;
        if (e.kind != SCALAR) return false;
        if (type && !(type == 's' && e.type == ref::Val::STR) && !(type == 'n' && e.type == ref::Val::NUM) && !(type == 'b' && e.type == ref::Val::BOOL)) return false;
        return in(e.text);
    }
};

class Viewer
{
public:
    Doc d;
    bool sorted = true;

    const Page &page(const Model &m) const
    {
        Page &p = pages[{m.cols, m.folded}];
        if (p.rows.empty()) Layout(d, m.folded, m.cols, p);
        return p;
    }
    std::vector<int> shown(const Model &m) const
    {
        std::vector<int> r;
        list(0, m, r);
        return r;
    }

    void next(Model &m) const
    {
        if (m.results.empty()) { m.msg = NOT_FOUND; m.keptMsg = false; return; }
        auto it = m.results.upper_bound(m.sel);
        const bool wrap = it == m.results.end();
        m.sel = wrap ? *m.results.begin() : *it;
        m.msg = wrap ? BOTTOM : "";
        m.keptMsg = false;
        for (int p = d.els[m.sel].parent; p >= 0; p = d.els[p].parent) m.folded.erase(p);
    }

    // Effect of a key. Resizes and signals are handled by the caller.
    void key(Model &m, char t) const
    {
        const unsigned char c = t;
        if (m.prompt)
        {
            if (t == T_LF || t == T_CR || t == T_ENTERKEY)
            {
                const Pattern p(m.buf);
                m.prompt = false;
                m.buf.clear();
                m.msg.clear();
                if (p.invalid) { m.msg = INVALID; m.keptMsg = false; return; }
                m.results.clear();
                if (p.text.empty()) return;
                for (size_t i = 0; i < d.els.size(); ++i) if (p.match(d.els[i])) m.results.insert(i);
                next(m);
            }
            else if (t == T_ESC) { m.prompt = false; m.buf.clear(); m.msg.clear(); }
            else if (t == T_BS || t == T_DEL || t == T_BSKEY)
            {
                while (!m.buf.empty() && (m.buf.back() & 0xC0) == 0x80) m.buf.pop_back();
                if (!m.buf.empty()) m.buf.pop_back();
            }
            else if (c >= 32 || keyCode(t) == c) m.buf += t;
            return;
        }
        if (t == T_IDLE) { m.keptMsg = true; return; }
        const bool function = (t >= T_UP && t <= T_ENTERKEY) || t == T_BSKEY || t == T_F1;
        if (!function && (c < 32 || c == 127 || c == '^')) { m.prefix = true; m.keptMsg = true; return; }
        if (m.prefix) { m.prefix = false; m.keptMsg = true; return; }
        const Model before = m;
        const std::vector<int> s = shown(m);
        const size_t at = std::find(s.begin(), s.end(), m.sel) - s.begin();
        const El &e = d.els[m.sel];
        switch (t)
        {
        case 'q': case 'Q': m.quit = true; break;
        case T_UP: case 'k': case 'K': m.msg.clear(); if (at) m.sel = s[at - 1]; break;
        case T_DOWN: case 'j': case 'J': m.keptMsg = at + 1 >= s.size(); if (at + 1 < s.size()) { m.sel = s[at + 1]; m.msg.clear(); } break;
        case T_PPAGE:
            if (e.parent < 0) { m.keptMsg = true; break; }
            m.sel = d.prevSibling(m.sel) >= 0 ? d.prevSibling(m.sel) : e.parent;
            m.msg.clear();
            break;
        case T_NPAGE:
            if (d.after(m.sel) < 0) { m.keptMsg = true; break; }
            m.sel = d.after(m.sel);
            m.msg.clear();
            break;
        case T_RIGHT: case 'l': case 'L':
            if (e.kind == SCALAR || (e.ch.empty() && !m.folded.count(m.sel))) { m.keptMsg = true; break; }
            if (!m.folded.erase(m.sel)) m.sel = e.ch[0];
            m.msg.clear();
            break;
        case T_LEFT: case 'h': case 'H':
            m.msg.clear();
            if (e.parent >= 0 && (e.kind == SCALAR || e.ch.empty() || m.folded.count(m.sel))) m.sel = e.parent;
            else if (e.kind != SCALAR) m.folded.insert(m.sel);
            break;
        case '/': m.prompt = true; m.buf.clear(); m.msg.clear(); break;
        case 'n': case 'N': next(m); break;
        default: m.keptMsg = true; break;
        }
    }

    // Is this what the model expects? Returns an empty string, or what is wrong.
    S check(const term::Screen &s, const Model &m, const S &name, bool color) const
    {
        if (s.h != m.rows || s.w != m.cols) return "screen size is not the one of the terminal";
        S why;
        Model n = m;
        if (n.msg.empty() || !(why = checkWith(s, n, name, color)).empty())
            if (n.msg.empty() || n.keptMsg)
            {
                n.msg.clear();
                why = checkWith(s, n, name, color);
            }
        return why;
    }

public:
    mutable std::map<std::pair<int, std::set<int>>, Page> pages;

    void list(int e, const Model &m, std::vector<int> &r) const
    {
        r.push_back(e);
        if (!m.folded.count(e)) for (int c : d.els[e].ch) list(c, m, r);
    }

    // The last cell of the screen has any character of what goes on below it
    static bool corner(const term::Screen &s, int y, int x) { return y == s.h - 1 && x == s.w - 1; }

    static bool starts(const term::Screen &s, int row, const S &text)
    {
        int x = 0;
        for (const char32_t c : chars(text)) { if (x >= s.w) break; if (s.at(row, x++).ch != c) return false; }
        return true;
    }
    // Printable, for what is typed
    static bool validUtf8(const S &s)
    {
        for (size_t i = 0; i < s.size();)
        {
            const unsigned char c = s[i];
            const size_t n = c < 32 || c == 127 ? 0 : c < 0x80 ? 1 : c >= 0xC2 && c < 0xE0 ? 2 : c >= 0xE0 && c < 0xF0 ? 3 : c >= 0xF0 && c < 0xF5 ? 4 : 0;
            if (!n || i + n > s.size()) return false;
            for (size_t k = 1; k < n; ++k) if ((s[i + k] & 0xC0) != 0x80) return false;
            i += n;
        }
        return true;
    }
    static S colors(short pair)
    {
        short f = -1, b = -1;
        if (pair) pair_content(pair, &f, &b);
        return pair ? std::to_string(f) + "/" + std::to_string(b) : "";
    }
    static S expectedColor(const El &e, bool found, Role role)
    {
        auto on = [](int f, int b) { return std::to_string(f) + "/" + std::to_string(b); };
        if (found) return on(COLOR_WHITE, COLOR_BLUE);
        if (role == KEY) return on(COLOR_CYAN, COLOR_BLACK);
        switch (e.type)
        {
        case ref::Val::STR: return on(COLOR_CYAN, COLOR_BLACK);
        case ref::Val::NUM: return on(COLOR_GREEN, COLOR_BLACK);
        default: return on(COLOR_RED, COLOR_BLACK);
        }
    }

    S checkWith(const term::Screen &s, const Model &m, const S &name, bool color) const
    {
        if (s.h > 1 && s.w > (int) name.size() && !starts(s, 0, name + S(s.w - name.size(), ' '))) return "first line is not the name of the input";
        const bool bottom = m.prompt || !m.msg.empty();
        if (m.prompt && validUtf8(m.buf) && !starts(s, s.h - 1, "/" + m.buf)) return "search prompt is not shown on the last line";
        if (m.prompt && validUtf8(m.buf) && (int) chars(m.buf).size() + 1 < s.w && s.at(s.h - 1, chars(m.buf).size() + 1).ch != U' ') return "search prompt is followed by other text";
        if (!m.prompt && bottom && !starts(s, s.h - 1, m.msg)) return "message \"" + m.msg + "\" is not shown";
        const Page &p = page(m);
        const int last = bottom ? s.h - 1 : s.h;
        S why = "no part of the document is shown as it should";
        bool text = false;
        int best = -1;
        for (size_t top = 0; top < p.rows.size(); ++top)
        {
            if (!p.rows[top].first) continue;
            int y = 1;
            for (; y < last; ++y)
            {
                const size_t r = top + y - 1;
                bool same = true;
                for (int x = 0; x < s.w && same; ++x)
                    if (!corner(s, y, x)) same = s.at(y, x).ch == (r < p.rows.size() ? p.rows[r].cells[x].ch : U' ');
                if (!same) break;
            }
            if (y < last)
            {
                if (!text && y > best) { best = y; why = "line " + std::to_string(y) + " of the screen is not as it should"; }
                continue;
            }
            text = true;
            // the selection, and only it, is highlighted
            const S w = attributes(s, m, p, top, last, color);
            if (w.empty()) return "";
            why = w;
        }
        return why;
    }

    S attributes(const term::Screen &s, const Model &m, const Page &p, size_t top, int last, bool color) const
    {
        for (int y = 1; y < last; ++y)
        {
            const size_t r = top + y - 1;
            for (int x = 0; x < s.w; ++x)
            {
                const term::Cell &c = s.at(y, x);
                if (corner(s, y, x)) continue;
                if (r >= p.rows.size() || p.rows[r].cells[x].role == NONE)
                {
                    if (c.reverse) return "highlighted blank at line " + std::to_string(y);
                    continue;
                }
                const Cell &want = p.rows[r].cells[x];
                if (want.role == SEP) continue;
                if (c.reverse != (want.owner == m.sel))
                    return (c.reverse ? "highlighted, but not selected: " : "selected, but not highlighted: ") + describe(want.owner);
                if (!color || want.role == BRACKET) continue;
                if (colors(c.pair) != expectedColor(d.els[want.owner], m.results.count(want.owner), want.role)) return "wrong color for " + describe(want.owner);
            }
        }
        const int line = p.lineOf[m.sel];
        if (line < 0) return "the selection is inside of a folded element";
        if (line < (int) top) return "selection is above the screen: " + describe(m.sel);
        if (line >= (int) top + s.h - 1) return "selection is below the screen: " + describe(m.sel);
        return "";
    }
    S describe(int e) const
    {
        return "element " + std::to_string(e) + " " + d.els[e].key + (d.els[e].kind == SCALAR ? ":" + d.els[e].text : d.els[e].kind == ARR ? ":[]" : ":{}");
    }
};

} // namespace view
