// Comparison of two documents: for every pair of documents of a bounded space, the real matching is compared with
// what its definition requires.
// Case: first document US second document (k: members in the order of the document, else sorted, comes first)
#include "common.hh"
#include "repo.hh"
#include "levenshteinMatrice.hpp"
#include <algorithm>
#include <unordered_map>

using mc::prop;
using mc::tier;
typedef std::string S;
typedef const JSonElement *E;

static bool thorough() { return tier == "thorough"; }
static const char US = '\x1f';

// ---------------------------------------------------------------- documents, seen from outside

enum Kind { ARR, OBJ, ENTRY, STR, BOOL, NUL, INT, LONG, REAL };

struct Node
{
    E e;
    Kind kind;
    S text; // of a scalar, or key of an entry
    Node *parent = nullptr;
    std::vector<Node *> ch; // of a container; content of an entry
    size_t rank = 0;
    int side = 0;
    bool container() const { return kind == ARR || kind == OBJ; }
    bool scalar() const { return kind > ENTRY; }
};

struct Document
{
    impl::Config config;
    std::unique_ptr<std::stringstream> in;
    std::unique_ptr<StreamConsumer> reader;
    std::vector<std::unique_ptr<Node>> nodes;
    std::unordered_map<E, Node *> of;
    Node *root = nullptr;
    S text;

    Document(const S &t, bool sorted, int side): text(t)
    {
        config.sorted = sorted;
        in.reset(new std::stringstream(t));
        reader.reset(new StreamConsumer(*in));
        reader->withConfig(&config);
        reader->read();
        root = add(reader->getRoot(), nullptr, 0, side);
    }
    Node *add(E e, Node *parent, size_t rank, int side)
    {
        nodes.emplace_back(new Node);
        Node *n = nodes.back().get();
        n->e = e;
        n->parent = parent;
        n->rank = rank;
        n->side = side;
        of[e] = n;
        if (auto *c = dynamic_cast<const JSonContainer *>(e))
        {
            n->kind = dynamic_cast<const JSonObject *>(e) ? OBJ : ARR;
            for (const JSonElement *k : *c) { Node *x = add(k, n, n->ch.size(), side); n->ch.push_back(x); }
            return n;
        }
        n->text = e->stringify();
        if (auto *c = dynamic_cast<const JSonObjectEntry *>(e))
        {
            n->kind = ENTRY;
            Node *x = add(**c, n, 0, side);
            n->ch.push_back(x);
        }
        else if (dynamic_cast<const JSonPrimitive<std::string> *>(e)) n->kind = STR;
        else if (dynamic_cast<const JSonPrimitive<bool> *>(e)) n->kind = BOOL;
        else if (dynamic_cast<const JSonPrimitive<Null> *>(e)) n->kind = NUL;
        else if (dynamic_cast<const JSonPrimitive<int> *>(e)) n->kind = INT;
        else if (dynamic_cast<const JSonPrimitive<long long> *>(e)) n->kind = LONG;
        else n->kind = REAL;
        return n;
    }
};

static S show(const Node *n)
{
    S r = n->side ? "second " : "first ";
    S path;
    for (const Node *p = n; p->parent; p = p->parent)
        if (p->kind == ENTRY) path = "." + p->text + path;
        else if (p->parent->kind != ENTRY) path = "[" + std::to_string(p->rank) + "]" + path;
        else path = ":" + path;
    return r + "$" + path;
}

// ---------------------------------------------------------------- reference

static size_t editDistance(const S &a, const S &b)
{
    std::vector<size_t> d(b.size() + 1);
    for (size_t j = 0; j <= b.size(); ++j) d[j] = j;
    for (size_t i = 1; i <= a.size(); ++i)
    {
        size_t diag = d[0];
        d[0] = i;
        for (size_t j = 1; j <= b.size(); ++j)
        {
            const size_t up = d[j];
            d[j] = std::min({d[j] + 1, d[j - 1] + 1, diag + (a[i - 1] != b[j - 1])});
            diag = up;
        }
    }
    return d[b.size()];
}

struct Cost { size_t dist; bool similar; };

// What replacing a by b costs, and whether they are considered as the same element
static Cost cost(const Node *a, const Node *b)
{
    if (a->container() && b->container())
    {
        const size_t n = a->ch.size(), m = b->ch.size();
        if (a->kind != b->kind) return {std::max<size_t>(1, std::max(n, m)), false};
        std::vector<size_t> d(m + 1);
        for (size_t j = 0; j <= m; ++j) d[j] = j;
        for (size_t i = 1; i <= n; ++i)
        {
            size_t diag = d[0];
            d[0] = i;
            for (size_t j = 1; j <= m; ++j)
            {
                const size_t up = d[j];
                const Cost c = cost(a->ch[i - 1], b->ch[j - 1]);
                d[j] = std::min({up + 1, d[j - 1] + 1, diag + (c.similar ? 0 : c.dist)});
                diag = up;
            }
        }
        return {d[m], d[m] < std::max(n, m) || (!n && !m)};
    }
    if (a->container() || b->container()) return {(a->container() ? a : b)->ch.size() + 1, false};
    if (a->kind == ENTRY && b->kind == ENTRY) return a->text == b->text ? cost(a->ch[0], b->ch[0]) : Cost{1, false};
    if (a->kind == ENTRY || b->kind == ENTRY) return {1, false};
    const size_t len = std::max(a->text.size(), b->text.size());
    const bool similar = !len || 1. - (double) editDistance(a->text, b->text) / len > .7 + 1e-6;
    return {similar ? size_t(0) : size_t(1), similar};
}

static bool same(const Node *a, const Node *b)
{
    if (a->kind != b->kind || a->text != b->text || a->ch.size() != b->ch.size()) return false;
    for (size_t i = 0; i < a->ch.size(); ++i) if (!same(a->ch[i], b->ch[i])) return false;
    return true;
}

// ---------------------------------------------------------------- check of a pair

struct Pair
{
    const Document &a, &b;
    const S &c;
    std::unique_ptr<LevenshteinMatrice_base> m;
    std::map<E, eLevenshteinOperator> known;

    Node *node(E e) const
    {
        auto i = a.of.find(e);
        if (i != a.of.end()) return i->second;
        i = b.of.find(e);
        return i == b.of.end() ? nullptr : i->second;
    }
    Node *match(const Node *n) const { E e = m->getEquivalence(n->e); return e ? node(e) : nullptr; }
    eLevenshteinOperator op(const Node *n) const
    {
        return known.count(n->e) ? m->get(n->e) : eLevenshteinOperator::add; // as when displayed
    }
    bool fail(const S &key, const S &what) const
    {
        mc::violation(c, key, a.text + " and " + b.text + ": " + what);
        return false;
    }

    // P25
    bool identical() const
    {
        for (const auto &n : a.nodes)
        {
            const Node *o = match(n.get());
            if (!o) return fail("unmatched", show(n.get()) + " has no equivalent");
            const Node *x = n.get(), *y = o;
            for (; x && y; x = x->parent, y = y->parent) if (x->rank != y->rank) return fail("other", show(n.get()) + " is matched with " + show(o));
            if (op(n.get()) != eLevenshteinOperator::equ || op(o) != eLevenshteinOperator::equ) return fail("marked", show(n.get()) + " is marked as different");
        }
        return true;
    }

    // P26
    bool marks() const
    {
        for (const Document *d : {&a, &b})
            for (const auto &p : d->nodes)
            {
                const Node *n = p.get(), *o = match(n);
                const bool equal = op(n) == eLevenshteinOperator::equ;
                if (!o)
                {
                    if (equal) return fail("unmarked", show(n) + " has no equivalent but is not marked");
                    if (op(n) == eLevenshteinOperator::mod) return fail("modified", show(n) + " has no equivalent but is marked as modified");
                    continue;
                }
                if (n->side == o->side) return fail("side", show(n) + " is matched with an element of its own document");
                const bool alike = n->kind == o->kind && n->text == o->text;
                if (equal && !alike) return fail("unmarked", show(n) + " is not marked although it differs from " + show(o));
                if (equal && n->container() && n->ch.empty() != o->ch.empty() && cost(n, o).similar == false) return fail("unmarked", show(n) + " is not marked although it has nothing in common with " + show(o));
                if (!equal && n->kind == o->kind && !n->container() && op(n) != eLevenshteinOperator::mod) return fail("added", show(n) + " is marked as added although it has an equivalent, " + show(o));
                if (!equal && n->scalar() && alike) return fail("marked", show(n) + " is marked although it is the same as " + show(o));
                if (!equal && alike && same(n, o)) return fail("marked", show(n) + " is marked although it is the same as " + show(o));
                if (n->kind == ENTRY && equal && n->ch[0]->scalar() && op(n->ch[0]) != eLevenshteinOperator::equ) return fail("unmarked", show(n) + " is not marked although its value differs");
            }
        if (!same(a.root, b.root))
        {
            bool any = false;
            for (const Document *d : {&a, &b}) for (const auto &p : d->nodes) any |= op(p.get()) != eLevenshteinOperator::equ;
            if (!any) return fail("none", "documents differ but nothing is marked");
        }
        return true;
    }

    // P27
    bool structure() const
    {
        for (const Document *d : {&a, &b})
            for (const auto &p : d->nodes)
            {
                const Node *n = p.get(), *o = match(n);
                if (!o) continue;
                if (n->side == o->side) return fail("side", show(n) + " is matched with an element of its own document");
                if (match(o) != n) return fail("symmetry", show(n) + " is matched with " + show(o) + " which is matched with another element");
                if (!n->parent != !o->parent) return fail("parent", show(n) + " is matched with " + show(o));
                if (n->parent && match(n->parent) != o->parent) return fail("parent", show(n) + " is matched with " + show(o) + " but their parents are not");
            }
        const Cost whole = cost(a.root, b.root);
        if (a.root->container() && b.root->container() && a.root->kind == b.root->kind && !!match(a.root) != whole.similar)
            return fail("similar", whole.similar ? "documents have something in common but are not matched" : "documents have nothing in common but are matched");
        for (const auto &p : a.nodes)
        {
            const Node *n = p.get(), *o = match(n);
            if (!o || !n->container() || n->kind != o->kind) continue;
            // the matching of the children is in order, and has the least cost
            size_t total = 0, last = 0, matched = 0;
            for (const Node *k : n->ch)
            {
                const Node *x = match(k);
                if (!x) { ++total; continue; }
                if (x->parent != o) return fail("parent", show(k) + " is matched outside of the equivalent of its container");
                if (x->rank + 1 <= last) return fail("order", show(k) + " is matched before what precedes it");
                last = x->rank + 1;
                ++matched;
                const Cost c = cost(k, x);
                total += c.similar ? 0 : c.dist;
            }
            total += o->ch.size() - matched;
            const Cost c = cost(n, o);
            if (!c.similar) { if (matched) return fail("dissimilar", show(n) + " has nothing in common with " + show(o) + " but their contents are matched"); }
            else if (total != c.dist) return fail("cost", show(n) + " and " + show(o) + ": the matching has a cost of " + std::to_string(total) + " instead of " + std::to_string(c.dist));
        }
        return true;
    }
};

static void check(const Document &a, const Document &b, bool sorted)
{
    const S c = S(sorted ? "" : "k") + a.text + US + b.text;
    mc::begin(c);
    mc::distinct(c);
    LevenshteinMatrice_base::Builder builder;
    Pair p{a, b, c, std::unique_ptr<LevenshteinMatrice_base>(builder.build(a.root->e, b.root->e)), {}};
    p.known = p.m->path();
    mc::sh->transitions = mc::sh->transitions + a.nodes.size() + b.nodes.size();
    const bool ok = prop == "P25" ? p.identical() : prop == "P26" ? p.marks() : p.structure();
    if (!ok) return;
    S o;
    for (const auto &n : a.nodes) { const Node *x = p.match(n.get()); o += std::to_string((int) p.op(n.get())) + (x ? std::to_string(x->rank) : "-"); }
    mc::outcome(o);
    mc::sample(a.text + " and " + b.text + ": " + o);
}

// ---------------------------------------------------------------- spaces

// All documents with n values over these leaves; members have the keys in order, or keys from any position
static std::vector<S> trees(int n, const std::vector<S> &leaves, const std::vector<S> &keys);
static std::vector<S> forests(int n, const std::vector<S> &leaves, const std::vector<S> &keys, size_t key, bool object)
{
    if (n == 0) return {""};
    std::vector<S> r;
    for (int k = 1; k <= n; ++k)
        for (size_t i = object ? key : 0; i < (object ? keys.size() : 1); ++i)
        {
            const std::vector<S> heads = trees(k, leaves, keys), tails = forests(n - k, leaves, keys, i + 1, object);
            for (const S &h : heads) for (const S &t : tails) r.push_back((object ? keys[i] + ":" : "") + h + (t.empty() ? "" : "," + t));
        }
    return r;
}
static std::vector<S> trees(int n, const std::vector<S> &leaves, const std::vector<S> &keys)
{
    std::vector<S> r;
    if (n == 1) r = leaves;
    for (const S &f : forests(n - 1, leaves, keys, 0, false)) r.push_back("[" + f + "]");
    for (const S &f : forests(n - 1, leaves, keys, 0, true)) r.push_back("{" + f + "}");
    return r;
}
static std::vector<S> upTo(int n, const std::vector<S> &leaves, const std::vector<S> &keys)
{
    std::vector<S> r;
    for (int i = 1; i <= n; ++i) for (const S &t : trees(i, leaves, keys)) r.push_back(t);
    return r;
}
static void sequences(std::vector<S> &r, const S &cur, const std::vector<S> &leaves, unsigned depth)
{
    r.push_back("[" + cur + "]");
    if (depth) for (const S &l : leaves) sequences(r, cur + (cur.empty() ? "" : ",") + l, leaves, depth - 1);
}
static void members(std::vector<S> &r, const S &cur, const std::vector<S> &keys, const std::vector<S> &leaves, unsigned used, unsigned depth)
{
    r.push_back("{" + cur + "}");
    if (depth) for (size_t k = 0; k < keys.size(); ++k)
        if (!(used >> k & 1)) for (const S &l : leaves) members(r, cur + (cur.empty() ? "" : ",") + keys[k] + ":" + l, keys, leaves, used | 1u << k, depth - 1);
}

static S filled(int n, int skip, int change, int insert, bool object)
{
    S r;
    for (int i = 0; i < n; ++i)
    {
        if (i == skip) continue;
        char b[64];
        snprintf(b, sizeof b, "\"k%05d\":", i);
        const S key = object ? S(b) : S();
        if (i == insert) r += (r.empty() ? "" : ",") + (object ? key.substr(0, key.size() - 2) + "+\":" : S()) + "true";
        r += (r.empty() ? "" : ",") + key + (i == change ? "null" : std::to_string(i * 7919 % 100003));
    }
    return (object ? "{" : "[") + r + (object ? "}" : "]");
}

struct Space { bool sorted; std::vector<S> docs; std::vector<std::pair<S, S>> pairs; };

static const std::vector<Space> &spaces()
{
    static std::vector<Space> v;
    if (!v.empty()) return v;
    const bool t = thorough();
    const std::vector<S> scalars = {"1", "\"abcd\"", "\"abcX\"", "null"}, keys = {"\"a\"", "\"b\""};
    if (prop == "P25")
    {
        Space s{true, {}, {}};
        for (const S &d : upTo(t ? 6 : 5, {"1", "\"abcd\"", "\"abcX\""}, keys)) s.pairs.push_back({d, d});
        for (const S &d : upTo(t ? 5 : 4, {"1", "2.5", "\"\"", "\"1\"", "null", "true", "12345678901234", "\"\xc3\xa9\""}, {"\"\"", "\"a\"", "\"ab\""})) s.pairs.push_back({d, d});
        for (int n : {10, 100, 126, 127, 128, 129, 200, 254, 255, 256, 257, 300}) for (bool o : {false, true}) { const S d = filled(n, -1, -1, -1, o); s.pairs.push_back({d, d}); }
        S deep;
        for (int i = 0; i < 60; ++i) { deep = i % 2 ? "[" + deep + "]" : "{\"a\":" + (deep.empty() ? "1" : deep) + "}"; s.pairs.push_back({deep, deep}); }
        Space k{false, {}, {}};
        std::vector<S> o;
        members(o, "", {"\"c\"", "\"a\"", "\"b\"", "\"aa\"", "\"\""}, {"1", "\"x\"", "[]"}, 0, t ? 5 : 4);
        for (const S &d : o) { k.pairs.push_back({d, d}); s.pairs.push_back({d, d}); }
        // members in another order are the same once sorted
        for (const S &v : {S("1"), S("[2]"), S("{\"z\":[]}")})
        {
            std::vector<S> p = {"\"a\":" + v, "\"b\":\"x\"", "\"c\":null", "\"aa\":" + v, "\"\":1"};
            std::sort(p.begin(), p.end());
            const auto join = [](const std::vector<S> &x) { S r; for (const S &e : x) r += (r.empty() ? "" : ",") + e; return "{" + r + "}"; };
            const S first = join(p);
            do s.pairs.push_back({first, join(p)}); while (std::next_permutation(p.begin(), p.end()));
        }
        v.push_back(s);
        v.push_back(k);
        return v;
    }
    v.push_back({true, upTo(t ? 4 : 3, {"1", "\"abcd\"", "\"abcX\"", "null"}, keys), {}});
    v.push_back({true, upTo(t ? 5 : 4, {"1", "\"x\""}, {"\"a\""}), {}});
    v.push_back({true, upTo(t ? 4 : 3, {"1", "\"1\"", "true", "\"true\"", "\"\"", "1.0", "12345678901234"}, keys), {}});
    Space seq{true, {}, {}};
    sequences(seq.docs, "", {"1", "\"abcd\"", "\"abcX\""}, t ? 6 : 5);
    v.push_back(seq);
    Space nested{true, {}, {}};
    sequences(nested.docs, "", {"1", "[1]", "[2]", "{\"a\":1}", "{\"a\":2}", "[]", "{}"}, t ? 4 : 3);
    v.push_back(nested);
    Space obj{true, {}, {}};
    members(obj.docs, "", {"\"a\"", "\"b\"", "\"c\"", "\"d\""}, {"1", "2"}, 0, 3);
    v.push_back(obj);
    obj.sorted = false;
    if (t) { obj.docs.clear(); members(obj.docs, "", {"\"a\"", "\"b\"", "\"c\"", "\"d\""}, {"1", "2"}, 0, 4); }
    v.push_back(obj);
    Space sub{true, {}, {}};
    members(sub.docs, "", {"\"a\"", "\"b\""}, {"1", "[]", "[1]", "[1,2]", "{}", "{\"a\":1}", "{\"a\":1,\"b\":2}", "{\"b\":[1]}", "\"[]\""}, 0, 2);
    v.push_back(sub);
    Space big{true, {}, {}};
    for (int n : t ? std::vector<int>{1, 2, 3, 10, 63, 126, 127, 128, 129, 130, 200} : std::vector<int>{1, 2, 3, 10, 127, 128})
        for (bool o : {false, true})
        {
            const S base = filled(n, -1, -1, -1, o);
            for (int at : {0, 1, n / 2, n - 2, n - 1}) if (at >= 0 && at < n && (t || n < 50 || (at != 1 && at != n - 2)))
            {
                for (const S &x : {filled(n, at, -1, -1, o), filled(n, -1, at, -1, o), filled(n, -1, -1, at, o), filled(at, -1, -1, -1, o)}) { big.pairs.push_back({base, x}); big.pairs.push_back({x, base}); }
            }
            big.pairs.push_back({base, filled(n, -1, -1, -1, !o)});
        }
    // many elements which only one of the documents has
    Space apart{true, {}, {}};
    const auto many = [](int n, const S &key, const S &value, const S &common, int at)
    {
        S r;
        for (int i = 0; i <= n; ++i)
        {
            if (i == at) r += (r.empty() ? "" : ",") + (key.empty() ? common : "\"" + S(1, key[0]) + "~\":" + common);
            char b[32];
            snprintf(b, sizeof b, "\"%s%03d\":", key.c_str(), i);
            if (i < n) r += (r.empty() ? "" : ",") + (key.empty() ? "" : S(b)) + value;
        }
        return (key.empty() ? "[" : "{") + r + (key.empty() ? "]" : "}");
    };
    for (const auto &q : t ? std::vector<std::pair<int, int>>{{1, 2}, {10, 20}, {100, 100}, {126, 128}, {127, 127}, {127, 128}, {128, 128}, {100, 200}, {200, 60}, {254, 1}, {254, 254}, {255, 255}} : std::vector<std::pair<int, int>>{{1, 2}, {10, 20}, {127, 128}, {128, 128}, {160, 100}})
        for (int common : {-1, 0, 1, 2})
        {
            // arrays: a common element at the start, in the middle, at the end, or in other places
            const auto where = [&](int n, bool second) { return common < 0 ? -1 : common == 0 ? 0 : common == 1 ? n / 2 : second ? 0 : n; };
            for (const S &value : {S("true"), S("\"yy\""), S("[1,2,3]"), S("{\"a\":[],\"b\":2}")})
            {
                const S a = many(q.first, "", "null", "123", where(q.first, false)), b = many(q.second, "", value, "123", where(q.second, true));
                apart.pairs.push_back({a, b}); apart.pairs.push_back({b, a});
            }
            const S same = common < 0 ? "" : ",\"q\":1";
            const S first = many(q.first, common == 1 ? "a" : "r", "1", "2", -1), second = many(q.second, common == 2 ? "b" : "z", "1", "2", -1);
            const S a = first.substr(0, first.size() - 1) + same + "}", b = second.substr(0, second.size() - 1) + same + "}";
            apart.pairs.push_back({a, b}); apart.pairs.push_back({b, a});
        }
    v.push_back(apart);
    // long texts which differ by one character or not
    Space texts{true, {}, {}};
    for (int n : {2, 3, 4, 10, 19, 20, 49, 50, 51, 99, 100, 101, 199, 200, 255, 256, 300})
        for (int at : {0, n / 2, n - 1})
        {
            S x, y;
            for (int i = 0; i < n; ++i) x += (char) ('a' + i % 7);
            y = x;
            y[at] = 'Z';
            S longer = x;
            longer.insert(at, "Z");
            for (const S &w : {y, longer})
            {
                texts.pairs.push_back({"[\"" + x + "\"]", "[\"" + w + "\"]"});
                texts.pairs.push_back({"[1,\"" + w + "\",2]", "[1,\"" + x + "\",2]"});
                texts.pairs.push_back({"{\"" + x + "\":1,\"k\":0}", "{\"" + w + "\":1,\"k\":0}"});
                texts.pairs.push_back({"{\"k\":\"" + w + "\"}", "{\"k\":\"" + x + "\"}"});
                texts.pairs.push_back({"[[\"" + x + "\",1]]", "[[\"" + w + "\",1]]"});
            }
            if (n > 300) continue;
            S digits(n, '1'), other = digits;
            other[at] = '2';
            texts.pairs.push_back({"[" + digits + "]", "[" + other + "]"});
            texts.pairs.push_back({"[" + digits + ",null]", "[null," + other + "]"});
        }
    v.push_back(texts);
    v.push_back(big);
    return v;
}

static std::vector<S> units()
{
    std::vector<S> r;
    for (size_t s = 0; s < spaces().size(); ++s)
        for (int k = 0; k < 32; ++k) r.push_back(std::to_string(s) + "/" + std::to_string(k));
    return r;
}

static void runUnit(const S &u)
{
    const Space &s = spaces()[atoi(u.c_str())];
    const size_t k = atoi(u.c_str() + u.find('/') + 1);
    for (size_t i = k; i < s.pairs.size(); i += 32)
        check(Document(s.pairs[i].first, s.sorted, 0), Document(s.pairs[i].second, s.sorted, 1), s.sorted);
    std::vector<std::unique_ptr<Document>> second;
    for (const S &d : s.docs) second.emplace_back(new Document(d, s.sorted, 1));
    for (size_t i = k; i < s.docs.size(); i += 32)
    {
        const Document a(s.docs[i], s.sorted, 0);
        for (const auto &b : second) check(a, *b, s.sorted);
    }
}

int main(int argc, char **argv)
{
    if (getenv("SIZES")) { prop = argv[1]; for (auto &s : spaces()) fprintf(stderr, "%zu docs %zu pairs\n", s.docs.size(), s.pairs.size()); return 0; }
    mc::Harness h;
    h.units = units;
    h.run = runUnit;
    h.replay = [](const S &c)
    {
        const bool sorted = c[0] != 'k';
        const size_t p = c.find(US);
        check(Document(c.substr(!sorted, p - !sorted), sorted, 0), Document(c.substr(p + 1), sorted, 1), sorted);
    };
    return mc::harnessMain(argc, argv, h);
}
