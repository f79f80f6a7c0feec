// Small data structures, explored to a depth over all sequences of operations: the history buffer behind error
// excerpts and positions, and the distance between strings.
#include "common.hh"
#include "wrappedBuffer.hpp"
#include "linearHistory.hh"
#include "levenshtein.hpp"
#include <algorithm>
#include <cmath>
#include <deque>

using mc::prop;
using mc::tier;
typedef std::string S;

static bool thorough() { return tier == "thorough"; }

#define FAIL(c, key, msg) do { mc::violation(c, key, msg); return false; } while (0)

// ---------------------------------------------------------------- P31: operations a b: put one, 2 3 5: put that many, p: pop_back, r: reset

template<int SIZE>
static bool buffer(const S &c, const S &ops)
{
    WrappedBuffer<char, SIZE> b;
    std::string content;        // what the buffer must have
    unsigned total = 0;         // written, minus what was taken back
    char next = 'A';
    for (char o : ops)
    {
        if (o == 'p')
        {
            if (!content.empty()) { content.pop_back(); --total; }
            b.pop_back();
        }
        else if (o == 'r') { content.clear(); total = 0; b.reset(); }
        else
        {
            char items[8];
            const unsigned n = o == 'a' ? 1 : o - '0';
            for (unsigned i = 0; i < n; ++i) { items[i] = next; next = next == 'Z' ? 'A' : next + 1; content += items[i]; }
            if (content.size() > SIZE) content.erase(0, content.size() - SIZE);
            total += n;
            if (o == 'a') b.put(items[0]); else b.put(items, n);
        }
        mc::sh->transitions = mc::sh->transitions + 1;
        if (b.toString() != content) FAIL(c, "content", "after " + ops + " the buffer has \"" + b.toString() + "\" instead of \"" + content + "\"");
        if (b.size() != content.size()) FAIL(c, "size", "after " + ops + " the size is " + std::to_string(b.size()) + " instead of " + std::to_string(content.size()));
        if (b.totalSize() != total) FAIL(c, "total", "after " + ops + " the total size is " + std::to_string(b.totalSize()) + " instead of " + std::to_string(total));
    }
    mc::outcome(std::to_string(SIZE) + content + std::to_string(total));
    return true;
}

// lines: x y: characters, n: LF, c: CR, p: take the last character back (only right after it was put)
static bool history(const S &c, const S &ops)
{
    LinearHistory h;
    S text;
    char last = 0;
    for (char o : ops)
    {
        if (o == 'p')
        {
            if (!last) continue; // nothing was read since
            text.pop_back();
            h.pop_back();
        }
        else
        {
            const char ch = o == 'n' ? '\n' : o == 'c' ? '\r' : o;
            text += ch;
            h.put(ch);
        }
        last = o == 'p' ? 0 : o;
        mc::sh->transitions = mc::sh->transitions + 1;
        // the current line is the one of the last character, a line end belonging to the line it ends
        unsigned line = 1, col = 0, breaks = 0;
        S current;
        for (size_t i = 0; i < text.size(); ++i)
        {
            if (breaks && !(text[i] == '\n' && breaks == 1 && text[i - 1] == '\r')) { line++; col = 0; current.clear(); breaks = 0; }
            if (text[i] == '\n' || text[i] == '\r') breaks++;
            else { col++; current += text[i]; }
        }
        // taking back the first character of a line does not bring the previous one back: nothing is required there
        if (o == 'p' && h.currentLine() == line + 1 && h.size() == 0) { last = 0; return true; }
        if (h.currentLine() != line || h.totalSize() != col || h.toString() != current)
            FAIL(c, "history", "after " + ops + ": line " + std::to_string(h.currentLine()) + " col " + std::to_string(h.totalSize()) + " \"" + h.toString() + "\" instead of line " +
                 std::to_string(line) + " col " + std::to_string(col) + " \"" + current + "\"");
    }
    mc::outcome(text);
    return true;
}

static bool checkBuffer(const S &c)
{
    mc::begin(c);
    mc::distinct(c);
    const S ops = c.substr(1);
    mc::sample(c);
    switch (c[0])
    {
    case '1': return buffer<1>(c, ops);
    case '2': return buffer<2>(c, ops);
    case '3': return buffer<3>(c, ops);
    case '4': return buffer<4>(c, ops);
    case '6': return buffer<6>(c, ops);
    default: return history(c, ops);
    }
}

static S opsOf(char kind) { return kind == 'h' ? "xyncp" : "a235pr"; }

// only complete sequences are run: every prefix is checked on the way
static void exploreBuffer(const S &c, unsigned depth)
{
    if (!depth) { checkBuffer(c); return; }
    for (char o : opsOf(c[0])) exploreBuffer(c + o, depth - 1);
}

// ---------------------------------------------------------------- P32: case "a,b"

// edit distance by its definition: shortest path from a to b by insertions, deletions and changes (A* free, memoized)
static size_t distance(const S &a, const S &b, size_t i, size_t j, std::vector<int> &memo)
{
    int &m = memo[i * (b.size() + 1) + j];
    if (m >= 0) return m;
    size_t r;
    if (i == a.size()) r = b.size() - j;
    else if (j == b.size()) r = a.size() - i;
    else if (a[i] == b[j]) r = distance(a, b, i + 1, j + 1, memo);
    else r = 1 + std::min({distance(a, b, i + 1, j, memo), distance(a, b, i, j + 1, memo), distance(a, b, i + 1, j + 1, memo)});
    return m = r;
}

static void checkDistance(const S &a, const S &b)
{
    const S c = a + "," + b;
    mc::begin(c);
    std::vector<int> memo((a.size() + 1) * (b.size() + 1), -1);
    const size_t want = distance(a, b, 0, 0, memo), got = levenshtein(a, b);
    size_t edits = 0;
    for (size_t k = 0; k < memo.size(); ++k)
        if (memo[k] >= 0)
        {
            const size_t i = k / (b.size() + 1), j = k % (b.size() + 1);
            mc::sh->states = mc::sh->states + 1;
            edits += i == a.size() || j == b.size() || a[i] == b[j] ? 1 : 3;
        }
    mc::sh->transitions = mc::sh->transitions + edits;
    mc::outcome(c);
    mc::sample(c + " -> " + std::to_string(got));
    if (got != want) { mc::violation(c, "distance", "distance of \"" + a + "\" and \"" + b + "\" is " + std::to_string(got) + " instead of " + std::to_string(want)); return; }
    const double ratio = a.empty() && b.empty() ? 1. : 1. - (double) want / std::max(a.size(), b.size());
    if (std::fabs(levenshteinPercent(a, b) - ratio) > 1e-5)
        mc::violation(c, "percent", "similarity of \"" + a + "\" and \"" + b + "\" is " + std::to_string(levenshteinPercent(a, b)) + " instead of " + std::to_string(ratio));
}

static void allStrings(const S &prefix, const S &letters, unsigned depth, const std::function<void(const S &)> &f)
{
    f(prefix);
    if (depth) for (char l : letters) allStrings(prefix + l, letters, depth - 1, f);
}

static std::vector<S> units()
{
    std::vector<S> r;
    if (prop == "P31")
    {
        for (char k : S("12346h"))
            for (char o : opsOf(k))
                for (char o2 : opsOf(k)) r.push_back(S(1, k) + o + o2);
    }
    else
    {
        allStrings("", "abc", thorough() ? 6 : 5, [&](const S &s) { r.push_back("e" + s); });
        for (int i = 0; i < (thorough() ? 300 : 80); ++i) r.push_back("s" + std::to_string(i));
        allStrings("", S("aA1 \xc3\0", 6), thorough() ? 3 : 2, [&](const S &s) { r.push_back("o" + s); });
        for (int i : {2, 3, 7, 15, 16, 17, 31, 32, 33, 41, 63, 64, 65, 100, 127, 128, 129}) r.push_back("p" + std::to_string(i));
        if (thorough()) for (int i : {20, 50, 99, 101, 200, 254, 255, 256, 257, 300}) r.push_back("p" + std::to_string(i));
    }
    return r;
}

static void runUnit(const S &u)
{
    if (prop == "P31") exploreBuffer(u, (u[0] == 'h' ? 8 : 7) - 1 + (thorough() ? 2 : 0));
    else if (u[0] == 'e') allStrings("", "abc", 7, [&](const S &b) { checkDistance(u.substr(1), b); });
    else if (u[0] == 'o') allStrings("", S("aA1 \xc3\0", 6), 4, [&](const S &b) { checkDistance(u.substr(1), b); });
    else if (u[0] == 'p')
    {
        // long strings of several periods, and what one or two edits or a rotation makes of them
        const int n = atoi(u.c_str() + 1);
        for (int period : {2, 3, 7, 26})
        {
            S s;
            for (int i = 0; i < n; ++i) s += (char) ('a' + i * i % 13 * 2 % period);
            checkDistance(s, s);
            checkDistance(s, S(s.rbegin(), s.rend()));
            for (int k : {1, 2, n / 2, n - 1})
            {
                const S rotated = s.substr(k) + s.substr(0, k), removed = s.substr(0, k) + s.substr(std::min(n, k + 1)), added = s.substr(0, k) + "z" + s.substr(k);
                S changed = s;
                changed[k % n] = 'y';
                for (const S &x : {rotated, removed, added, changed, s.substr(0, k), s.substr(k), removed + "z", "z" + removed, "z" + changed, rotated.substr(1)}) { checkDistance(s, x); checkDistance(x, s); }
            }
        }
    }
    else
    {
        // long strings: same head and tail, and a difference in the middle
        const int n = atoi(u.c_str() + 1);
        for (int m = 0; m < 40; m += 3)
            for (const S &mid : {S("x"), S("ab"), S("")})
            {
                checkDistance(S(n, 'a') + S(m, 'b'), S(m, 'a') + mid + S(n, 'b'));
                checkDistance(S(n, 'a') + mid + S(m, 'c'), S(n, 'a') + S(m, 'c'));
            }
    }
}

int main(int argc, char **argv)
{
    mc::Harness h;
    h.units = units;
    h.run = runUnit;
    h.replay = [](const S &c)
    {
        if (prop == "P31") checkBuffer(c);
        else checkDistance(c.substr(0, c.find(',')), c.substr(c.find(',') + 1));
    };
    return mc::harnessMain(argc, argv, h);
}
