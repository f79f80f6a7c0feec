// Reference model of the viewer of the comparison of two documents. Documents of a job: first RS second.
#pragma once
#include "session.hh"
#include "curseSplitOutput.hh"
#include "levenshteinMatrice.hpp"

static const char RS = '\x1e';

struct SplitModel
{
    int active = 0;
    int sel[2] = {0, -1}, last[2] = {0, 0};
    std::set<int> folded[2], results[2];
    S msg, buf;
    bool prompt = false, prefix = false, prefixW = false, quit = false, keptMsg = false;
    int rows = 24, cols = 80;

    S key() const
    {
        S r = std::to_string(active);
        for (int w = 0; w < 2; ++w)
        {
            r += "s" + std::to_string(sel[w]) + "," + std::to_string(last[w]) + "f";
            for (int f : folded[w]) r += std::to_string(f) + ",";
            r += "r";
            for (int f : results[w]) r += std::to_string(f) + ",";
        }
        return r + "m" + msg + (prompt ? "?" : "") + buf + (prefix ? prefixW ? "W" : "^" : "") + (quit ? "Q" : "");
    }
};

// What is written at once
struct Unit
{
    std::vector<Cell> cells;
    int indent = 0, owner = -1;
    char mark = ' ';
    bool start = false; // of what is displayed of its owner
};
struct Item { bool added = false; std::vector<Unit> units; };
struct Group { std::vector<Unit> units[2]; bool gap[2] = {false, false}; };

struct SCell { char32_t ch = ' '; int owner = -1; Role role = NONE; bool mark = false; };
// The two windows, scrolled; shown[w][e]: is the start of element e there?
struct Grid { std::vector<std::vector<SCell>> rows[2]; std::vector<bool> shown[2]; };

struct SplitView
{
    typedef SplitModel Model;
    Doc d[2];
    std::vector<int> eq[2]; // matching elements
    std::vector<int> eqContent[2]; // for the container which is the element, or the value of the member
    std::vector<char> op[2], opContent[2];

    std::vector<S> args;
    std::vector<char *> av;
    std::unique_ptr<Params> params;
    std::unique_ptr<std::stringstream> in[2];
    std::unique_ptr<StreamConsumer> reader[2];
    Viewer same[2]; // moves inside of a document are those of the viewer of one document

    typedef std::vector<const JSonElement *> Real;
    static void list(const JSonElement *e, Real &items, Real &contents)
    {
        const JSonObjectEntry *ent = dynamic_cast<const JSonObjectEntry *>(e);
        items.push_back(e);
        const JSonElement *content = ent ? **ent : e;
        contents.push_back(content);
        if (auto *c = dynamic_cast<const JSonContainer *>(content)) for (const JSonElement *k : *c) list(k, items, contents);
    }

    void open(const Job &job)
    {
        std::vector<S> o = {job.opts.find('c') != S::npos ? "--color=always" : "--color=never"};
        if (job.opts.find('k') != S::npos) o.push_back("--keep-order");
        const size_t cut = job.doc.find(RS);
        load({job.doc.substr(0, cut), job.doc.substr(cut + 1)}, o);
    }
    S names[2] = {"left.json", "right.json"};

    void load(const std::vector<S> &text, const std::vector<S> &options)
    {
        auto has = [&](const S &o) { return std::find(options.begin(), options.end(), o) != options.end(); };
        args = {"jsonstroll"};
        for (const S &o : options) if (o != "--diff") args.push_back(o);
        av.clear();
        for (S &a : args) av.push_back(&a[0]);
        av.push_back(nullptr);
        params.reset(new Params(av.data()));
        params->read();
        for (int w = 0; w < 2; ++w)
        {
            in[w].reset(new std::stringstream(text[w]));
            reader[w].reset(new StreamConsumer(*in[w]));
            reader[w]->withConfig(params.get());
            reader[w]->read();
        }
        if (!d[0].els.empty()) return;
        Real items[2], contents[2];
        for (int w = 0; w < 2; ++w)
        {
            ref::Opts o;
            o.lenient = has("-W");
            o.ascii = has("--ascii");
            d[w].add(ref::parse(text[w], o).v, -1, !has("--keep-order"));
            same[w].d = d[w];
            list(reader[w]->getRoot(), items[w], contents[w]);
            if (items[w].size() != d[w].els.size()) { fprintf(stderr, "documents were not read as expected\n"); _exit(1); }
        }
        std::unique_ptr<LevenshteinMatrice_base> m(LevenshteinMatrice_base::Builder().build(reader[0]->getRoot(), reader[1]->getRoot()));
        const std::map<const JSonElement *, eLevenshteinOperator> ops = m->path();
        auto mark = [&](const JSonElement *e)
        {
            auto i = ops.find(e);
            switch (i == ops.end() ? eLevenshteinOperator::add : i->second)
            {
            case eLevenshteinOperator::add: return '+';
            case eLevenshteinOperator::rem: return '-';
            case eLevenshteinOperator::mod: return '!';
            default: return ' ';
            }
        };
        for (int w = 0; w < 2; ++w)
            for (size_t i = 0; i < items[w].size(); ++i)
            {
                auto find = [&](const Real &v, const JSonElement *e) { auto at = std::find(v.begin(), v.end(), e); return e && at != v.end() ? int(at - v.begin()) : -1; };
                eq[w].push_back(find(items[1 - w], m->getEquivalence(items[w][i])));
                eqContent[w].push_back(find(contents[1 - w], m->getEquivalence(contents[w][i])));
                op[w].push_back(mark(items[w][i]));
                opContent[w].push_back(mark(contents[w][i]));
            }
    }

    void run(const std::function<void(const std::function<void()> &)> &guard)
    {
        CurseSplitOutput out(*params);
        guard([&] { out.run({names[0], names[1]}, {reader[0]->getRoot(), reader[1]->getRoot()}); });
    }

    // ------------------------------------------------------------ keys

    void reset(Model &m) const { m.sel[1] = eq[0][0]; if (m.sel[1] >= 0) m.last[1] = m.sel[1]; }

    void select(Model &m, int e) const
    {
        const int w = m.active;
        m.sel[w] = m.last[w] = e;
        m.sel[1 - w] = eq[w][e];
        if (eq[w][e] >= 0) m.last[1 - w] = eq[w][e];
    }

    void key(Model &m, char t) const
    {
        const int w = m.active;
        const unsigned char c = t;
        const bool function = (t >= T_UP && t <= T_ENTERKEY) || t == T_BSKEY || t == T_F1;
        if (!m.prompt && t != T_IDLE && m.prefix && !(!function && (c < 32 || c == 127 || c == '^')))
        {
            // ^W-W, and ^W with a direction
            m.prefix = false;
            m.keptMsg = true;
            if (!m.prefixW) return;
            int to = m.active;
            if (t == 'w' || t == 'W') to = 1 - m.active;
            else if (t == 'l' || t == 'L' || t == T_RIGHT) to = 1;
            else if (t == 'h' || t == 'H' || t == T_LEFT) to = 0;
            if (to == m.active) return;
            m.active = to;
            m.msg.clear();
            if (m.sel[to] < 0) select(m, m.last[to]);
            return;
        }
        if (!m.prompt && !function && t != T_IDLE && (c < 32 || c == 127 || c == '^'))
        {
            m.prefixW = !m.prefix && t == T_CTRLW;
            m.prefix = m.keptMsg = true;
            return;
        }
        if (m.prompt && (t == T_LF || t == T_CR || t == T_ENTERKEY))
        {
            const Pattern p(m.buf);
            m.prompt = false;
            m.buf.clear();
            m.msg.clear();
            if (p.invalid) { m.msg = INVALID; m.keptMsg = false; return; }
            for (int i = 0; i < 2; ++i)
            {
                m.results[i].clear();
                if (!p.text.empty()) for (size_t k = 0; k < d[i].els.size(); ++k) if (p.match(d[i].els[k])) m.results[i].insert(k);
            }
            if (!p.text.empty()) next(m);
            return;
        }
        if (!m.prompt && (t == 'n' || t == 'N')) { next(m); return; }

        // what remains is as in the viewer of one document
        view::Model one;
        one.sel = m.sel[w];
        one.folded = m.folded[w];
        one.msg = m.msg;
        one.buf = m.buf;
        one.prompt = m.prompt;
        one.keptMsg = m.keptMsg;
        same[w].key(one, t);
        m.msg = one.msg;
        m.buf = one.buf;
        m.prompt = one.prompt;
        m.keptMsg = one.keptMsg;
        m.quit = one.quit;
        if (one.folded != m.folded[w])
        {
            // the matching container is folded, or unfolded, at the same time
            for (size_t e = 0; e < d[w].els.size(); ++e)
            {
                const bool now = one.folded.count(e), before = m.folded[w].count(e);
                if (now != before) fold(m, w, e, now);
            }
        }
        if (one.sel != m.sel[w]) select(m, one.sel);
    }

    void fold(Model &m, int w, int e, bool folded) const
    {
        if (folded) m.folded[w].insert(e); else m.folded[w].erase(e);
        const int o = eqContent[w][e];
        if (o < 0 || d[1 - w].els[o].kind == SCALAR) return;
        if (folded) m.folded[1 - w].insert(o); else m.folded[1 - w].erase(o);
    }

    void next(Model &m) const
    {
        const int w = m.active;
        m.keptMsg = false;
        if (m.results[w].empty()) { m.msg = NOT_FOUND; return; }
        auto it = m.results[w].upper_bound(m.sel[w]);
        const bool wrap = it == m.results[w].end();
        select(m, wrap ? *m.results[w].begin() : *it);
        m.msg = wrap ? BOTTOM : "";
        for (int p = d[w].els[m.sel[w]].parent; p >= 0; p = d[w].els[p].parent) if (m.folded[w].count(p)) fold(m, w, p, false);
    }

    // ------------------------------------------------------------ layout

    typedef std::vector<Item> Items;
    static void put(Unit &u, const S &s, Role r)
    {
        for (const char32_t c : chars(s)) { u.cells.emplace_back(); u.cells.back().ch = c; u.cells.back().owner = u.owner; u.cells.back().role = r; }
    }
    Unit unit(int w, int e, int indent, bool content) const
    {
        Unit u;
        u.owner = e;
        u.indent = indent;
        u.mark = content ? opContent[w][e] : op[w][e];
        return u;
    }
    void items(const Model &m, int w, int e, int indent, Items &r) const
    {
        const El &el = d[w].els[e];
        const S open = el.kind == OBJ ? "{" : "[", close = el.kind == OBJ ? "}" : "]";
        const bool isFolded = m.folded[w].count(e);
        Item i;
        i.added = eq[w][e] < 0;
        Unit u = unit(w, e, indent, false);
        u.start = true;
        if (el.hasKey) { put(u, el.key, KEY); put(u, ": ", SEP); }
        if (el.kind == SCALAR) put(u, el.text, TEXT);
        else if (isFolded) put(u, open + " ... " + close, BRACKET);
        else if (el.hasKey && el.ch.empty()) put(u, open + " " + close, BRACKET);
        else
        {
            Unit b = unit(w, e, indent, true);
            put(b, open, BRACKET);
            if (el.hasKey) i.units.push_back(u);
            else b.start = true;
            i.units.push_back(b);
            r.push_back(i);
            for (int c : el.ch) items(m, w, c, indent + 4, r);
            Item last;
            const int o = eqContent[w][e];
            last.added = o < 0 || d[1 - w].els[o].kind == SCALAR;
            Unit cl = unit(w, e, indent, true);
            put(cl, close, BRACKET);
            last.units.push_back(cl);
            r.push_back(last);
            return;
        }
        i.units.push_back(u);
        r.push_back(i);
    }

    std::vector<Group> groups(const Model &m) const
    {
        Items it[2];
        for (int w = 0; w < 2; ++w) items(m, w, 0, 2, it[w]);
        std::vector<Group> r;
        size_t at[2] = {0, 0};
        while (at[0] < it[0].size() || at[1] < it[1].size())
        {
            Group g;
            int w = 0;
            for (; w < 2; ++w) if (at[w] < it[w].size() && it[w][at[w]].added) break;
            if (w < 2)
            {
                g.units[w] = it[w][at[w]++].units;
                g.gap[1 - w] = true;
            }
            else for (w = 0; w < 2; ++w) if (at[w] < it[w].size()) g.units[w] = it[w][at[w]++].units;
            r.push_back(g);
        }
        return r;
    }

    // The two windows, the first top lines not being displayed
    Grid render(const std::vector<Group> &gs, int width, int height, int top) const
    {
        Grid grid;
        for (int w = 0; w < 2; ++w) { grid.rows[w].assign(height, std::vector<SCell>(width)); grid.shown[w].assign(d[w].els.size(), false); }
        int y = 1;
        auto mark = [&](int w, int row, char c)
        {
            if (row < 1 || row > height || c == ' ') return;
            for (int x = 0; x < 2 && x < width; ++x) { SCell &s = grid.rows[w][row - 1][x]; s.ch = c; s.mark = true; }
        };
        for (const Group &g : gs)
        {
            int lines = 0;
            for (int w = 0; w < 2; ++w)
            {
                int yy = y;
                for (const Unit &u : g.units[w])
                {
                    if (yy <= top) { ++yy; continue; }
                    const int row = yy - top;
                    if (u.start && row <= height) grid.shown[w][u.owner] = true;
                    const int total = u.indent + u.cells.size();
                    for (size_t i = 0; i < u.cells.size(); ++i)
                    {
                        const int r = row + (u.indent + i) / width, x = (u.indent + i) % width;
                        if (r > height) break;
                        SCell &s = grid.rows[w][r - 1][x];
                        s.ch = u.cells[i].ch;
                        s.owner = u.cells[i].owner;
                        s.role = u.cells[i].role;
                    }
                    mark(w, row, u.mark);
                    yy += std::max(1, (total + width - 1) / width);
                }
                lines = std::max(lines, yy - y);
            }
            for (int w = 0; w < 2; ++w) if (g.gap[w]) for (int i = 0; i < lines; ++i) mark(w, y + i - top, '-');
            y += lines;
        }
        return grid;
    }

    // ------------------------------------------------------------ what is shown

    mutable std::map<S, std::vector<Grid>> known;
    // One for each number of lines scrolled
    const std::vector<Grid> &grids(const Model &m, int width, int height) const
    {
        S k = std::to_string(width) + "x" + std::to_string(height) + ":";
        for (int w = 0; w < 2; ++w) { for (int f : m.folded[w]) k += std::to_string(f) + ","; k += "/"; }
        std::vector<Grid> &r = known[k];
        if (!r.empty()) return r;
        const std::vector<Group> gs = groups(m);
        int maxTop = 0;
        for (const Group &g : gs) maxTop += std::max<size_t>(1, std::max(g.units[0].size(), g.units[1].size()));
        for (int top = 0; top < maxTop; ++top) r.push_back(render(gs, width, height, top));
        return r;
    }

    S check(const term::Screen &s, const Model &m, bool color) const
    {
        if (s.h != m.rows || s.w != m.cols) return "screen size is not the one of the terminal";
        Model n = m;
        S why = "?";
        if (!n.msg.empty()) why = checkWith(s, n, color);
        if (!why.empty() && (n.msg.empty() || n.keptMsg)) { n.msg.clear(); why = checkWith(s, n, color); }
        return why;
    }

    static bool starts(const term::Screen &s, int row, int col, int width, const S &text)
    {
        int x = 0;
        for (const char32_t c : chars(text)) { if (x >= width) break; if (s.at(row, col + x++).ch != c) return false; }
        return true;
    }

    S checkWith(const term::Screen &s, const Model &m, bool color) const
    {
        const int w0 = m.cols / 2, width = w0 - 2, height = m.rows - 3;
        if (width < 1 || height < 1) return "";
        for (int w = 0; w < 2; ++w)
        {
            const S &name = names[w];
            if (!starts(s, 1, w * (w0 - 1) + 1, width, name + S(std::max<int>(0, width - name.size()), ' '))) return S(w ? "right" : "left") + " window does not start with the name of the input";
        }
        if (m.prompt && Viewer::validUtf8(m.buf))
        {
            if (!starts(s, s.h - 1, 0, s.w, "/" + m.buf)) return "search prompt is not shown on the last line";
            if ((int) chars(m.buf).size() + 1 < s.w && s.at(s.h - 1, chars(m.buf).size() + 1).ch != U' ') return "search prompt is followed by other text";
        }
        if (!m.prompt && !m.msg.empty() && !starts(s, s.h - 1, 0, s.w, m.msg)) return "message \"" + m.msg + "\" is not shown";
        if (!m.prompt && m.msg.empty()) for (int x = 0; x < s.w; ++x) if (s.at(s.h - 1, x).ch < 128 && isalnum(s.at(s.h - 1, x).ch)) return "the last line still has a message";
        S why = "no part of the documents is shown as it should";
        int best = 0;
        for (const Grid &g : grids(m, width, height))
        {
            int good = 0;
            S w = compare(s, m, g, w0, width, height, color, good);
            if (w.empty() && !g.shown[m.active][m.sel[m.active]]) { w = "the selection is not on the screen"; good++; }
            if (w.empty()) return "";
            if (good > best) { best = good; why = w; }
        }
        return why;
    }

    S compare(const term::Screen &s, const Model &m, const Grid &g, int w0, int width, int height, bool color, int &good) const
    {
        for (int y = 0; y < height; ++y)
        {
            for (int w = 0; w < 2; ++w)
                for (int x = 0; x < width; ++x)
                {
                    if (y == height - 1 && x == width - 1) continue;
                    const SCell &want = g.rows[w][y][x];
                    const term::Cell &c = s.at(y + 2, w * (w0 - 1) + 1 + x);
                    if (c.ch != want.ch) return "line " + std::to_string(y + 1) + " of the " + (w ? "right" : "left") + " window is not as it should";
                }
            good++;
        }
        for (int y = 0; y < height; ++y)
            for (int w = 0; w < 2; ++w)
                for (int x = 0; x < width; ++x)
                {
                    if (y == height - 1 && x == width - 1) continue;
                    const SCell &want = g.rows[w][y][x];
                    const term::Cell &c = s.at(y + 2, w * (w0 - 1) + 1 + x);
                    if (want.mark || want.role == SEP) continue;
                    if (want.role == NONE) { if (c.reverse) return "highlighted blank"; continue; }
                    if (c.reverse != (want.owner == m.sel[w])) return S(c.reverse ? "highlighted, but not selected" : "selected, but not highlighted") + (w ? " (right)" : " (left)");
                    if (!color || want.role == BRACKET) continue;
                    if (Viewer::colors(c.pair) != Viewer::expectedColor(d[w].els[want.owner], m.results[w].count(want.owner), want.role)) return "wrong color for element " + std::to_string(want.owner);
                }
        good++;
        return "";
    }
};
