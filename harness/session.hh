// Exploration of a real viewer running on a terminal under control: for each document and size, the graph of its
// states (what is shown, and what the model says of it) is explored until no key leads to a new one, every step being
// compared with the reference model.
// Case: t[l][call at which SIGTERM comes] US document US options US rows US columns US keys
#pragma once
#include "common.hh"
#include "repo.hh"
#include "view.hh"
#include <locale.h>
#include <memory>
#include <unistd.h>

using mc::prop;
using mc::tier;
using namespace view;

static bool thorough() { return tier == "thorough"; }
static const char US = '\x1f';

// ---------------------------------------------------------------- one document at one size

struct Job
{
    S doc, opts; // opts: c: color, k: keep order
    int rows = 24, cols = 80;
    std::vector<S> alphabet; // what can be typed (one key, or several)
    size_t maxBuf = 3; // length of what is typed at the prompt
    S prefix;         // keys typed first (always)
    bool exactScreen = true; // compare what is shown (else, only liveness)
    unsigned early = 0; // a signal to terminate comes at this call to the terminal library
    S head() const { return S("t") + (exactScreen ? "" : "l") + (early ? std::to_string(early) : "") + US + doc + US + opts + US + std::to_string(rows) + US + std::to_string(cols) + US; }
};

static const int SIZES[4][2] = {{4, 9}, {7, 30}, {3, 16}, {5, 12}};
// T_CONT: the terminal has another size when the viewer is resumed
static const int RESUMED[4][2] = {{4, 9}, {4, 30}, {7, 30}, {7, 9}};

struct Stop {};

// VIEW: the reference (Model, key(), check()) and how to run the real viewer (run())
template<class VIEW>
class Session
{
    typedef typename VIEW::Model Model;
    const Job &job;
    VIEW v;
    Model m;
    S keys;             // typed since the start of this run
    S plan;             // what remains to be typed of the current step
    std::deque<int> steps; // to be followed
    int step = -1, stepFrom = -1;
    std::vector<int> seenAt, prevState, prevStep, todo; // search of the nearest state to explore
    int epoch = 0;
    unsigned idle = 0;
    bool lastResize = false, interrupted = false;

public:
    S error;
    static Session *current;
    struct Node { std::vector<int> edges; }; // -1: not explored, -2: not to be explored
    std::vector<Node> nodes;
    std::unordered_map<S, int> ids;
    int at = -1;
    bool script = false;
    unsigned limit = 200;
    unsigned calls = 0, lastCalls = 0, injectAt = 0; // calls to the terminal library since the last wait
    bool done = false;

    explicit Session(const Job &j): job(j) { }

    static int hook(WINDOW *) { return current->wait(); }

    void fail(const S &why)
    {
        error = why;
        throw Stop();
    }

    // Chooses what is typed next; false when nothing is left
    bool choose()
    {
        if (script || keys.size() >= limit) return false;
        if (steps.empty())
        {
            // the nearest state with something left to explore
            ++epoch;
            seenAt.resize(nodes.size(), 0);
            prevState.resize(nodes.size());
            prevStep.resize(nodes.size());
            todo.clear();
            todo.push_back(at);
            seenAt[at] = epoch;
            prevState[at] = -1;
            for (size_t head = 0; head < todo.size() && steps.empty(); ++head)
            {
                const int n = todo[head];
                const std::vector<int> &edges = nodes[n].edges;
                for (size_t i = 0; i < edges.size(); ++i)
                {
                    const int to = edges[i];
                    if (to == -1)
                    {
                        steps.push_front(i);
                        for (int k = n; prevState[k] >= 0; k = prevState[k]) steps.push_front(prevStep[k]);
                        break;
                    }
                    if (to < 0 || seenAt[to] == epoch) continue;
                    seenAt[to] = epoch;
                    prevState[to] = n;
                    prevStep[to] = i;
                    todo.push_back(to);
                }
            }
            if (steps.empty()) { done = true; return false; }
        }
        step = steps.front();
        stepFrom = at;
        steps.pop_front();
        plan = job.alphabet[step];
        return true;
    }

    void reached(const term::Screen &s)
    {
        auto ins = ids.insert({m.key() + "|" + std::to_string(s.hash()), (int) nodes.size()});
        if (ins.second)
        {
            nodes.emplace_back();
            std::vector<int> &e = nodes.back().edges;
            e.assign(job.alphabet.size(), -1);
            for (size_t i = 0; i < e.size(); ++i)
            {
                const unsigned char c = job.alphabet[i][0];
                if (m.prompt && (m.buf.size() >= job.maxBuf) && (c >= 32 || keyCode(c) == c) && !strchr("\x1b\x7f\x08\n\r", c)) e[i] = -2;
            }
            if (!script) mc::sh->states = mc::sh->states + 1;
        }
        at = ins.first->second;
        if (step >= 0) nodes[stepFrom].edges[step] = at;
        step = -1;
    }

    int wait()
    {
        mc::sh->transitions = mc::sh->transitions + 1;
        if (injectAt) { injectAt = 0; raise(injectSignal); return ERR; }
        lastCalls = calls;
        calls = 0;
        if (m.quit && interrupted && idle++ < 2) return ERR; // as a resize
        if (m.quit) fail("waits for a key although it should have ended");
        const term::Screen s = term::capture();
        if (job.exactScreen)
        {
            const S why = v.check(s, m, job.opts.find('c') != S::npos);
            if (!why.empty())
            {
                // a resize may be handled as late as when waiting for a key times out
                if (lastResize && idle++ < 2) return ERR;
                fail(why + "; screen:\n" + s.dump());
            }
        }
        idle = 0;
        lastResize = false;
        if (plan.empty())
        {
            reached(s);
            if (!choose()) return leave();
        }
        const char t = plan[0];
        plan.erase(0, 1);
        keys += t;
        if (t == T_MIDSIZE && plan.size() >= 2) { keys += plan.substr(0, 2); midKey = plan[1]; midCall = (unsigned char) plan[0] - 31; plan.erase(0, 2); }
        announce();
        return play(t);
    }
    char midKey = 0;
    unsigned midCall = 0;

    int play(char t)
    {
        if ((t >= T_SIZE0 && t <= T_SIZE3) || t == T_CONT || t == T_MIDSIZE)
        {
            const int i = t == T_MIDSIZE ? (term::cols == SIZES[1][1] ? 0 : 1) : t - T_SIZE0;
            lastResize = true;
            int r = ERR;
            if (t == T_MIDSIZE)
            {
                // the signal comes while the effect of a key is being displayed
                injectAt = midCall;
                v.key(m, midKey);
                r = keyCode(midKey);
            }
            else { m.keptMsg = true; m.prefix = false; }
            if (t == T_CONT)
            {
                // from one of RESUMED to the next one, or only another width
                int j = 0;
                while (j < 4 && (term::rows != RESUMED[j][0] || term::cols != RESUMED[j][1])) ++j;
                if (j < 4) m.rows = RESUMED[(j + 1) % 4][0];
                m.cols = j < 4 ? RESUMED[(j + 1) % 4][1] : term::cols == 9 ? 30 : 9;
                if (j == 4 && term::rows < 4) m.rows = 4;
            }
            else
            {
                m.rows = SIZES[i][0];
                m.cols = SIZES[i][1];
            }
            m.keptMsg = true;
            term::setSize(m.rows, m.cols);
            if (t != T_MIDSIZE) raise(t == T_CONT ? SIGCONT : SIGWINCH);
            return r;
        }
        if (t == T_CONTSAME) { m.keptMsg = true; m.prefix = false; raise(SIGCONT); return ERR; }
        if (t == T_INT || t == T_TERM) { m.quit = interrupted = true; idle = 0; raise(t == T_INT ? SIGINT : SIGTERM); return ERR; }
        v.key(m, t);
        return keyCode(t);
    }

    // Leave, whatever is being typed
    int leave()
    {
        if (m.prompt) { m.prompt = false; return 27; }
        if (m.prefix) { m.prefix = false; return 'z'; }
        m.quit = true;
        return 'q';
    }

    void announce()
    {
        const S c = job.head() + keys;
        const size_t n = std::min(c.size(), mc::CASE_MAX);
        memcpy(mc::sh->current, c.data(), n);
        mc::sh->caselen = n;
    }

    // One run of the real viewer
    void runOnce(const S &toType)
    {
        keys.clear();
        plan = toType;
        steps.clear();
        step = -1;
        m = Model();
        m.rows = job.rows;
        m.cols = job.cols;
        at = -1;
        idle = calls = injectAt = 0;
        interrupted = false;
        mc::begin(job.head());
        term::setSize(job.rows, job.cols);
        const unsigned ended = term::ended;

        v.open(job);
        v.reset(m);
        current = this;
        term::onWait = hook;
        if (job.early)
        {
            m.quit = interrupted = true;
            injectAt = job.early;
            injectSignal = SIGTERM;
        }
        try
        {
            v.run([&](const std::function<void()> &loop) { try { loop(); } catch (Stop &) {} });
            if (error.empty() && !m.quit) error = "ended although it should not";
            if (error.empty() && term::ended == ended) error = "the terminal was not given back";
        }
        catch (std::exception &e) { error = S("exception: ") + e.what(); }
        injectAt = 0;
        if (step >= 0) nodes[stepFrom].edges[step] = -2; // it ended
        if (!error.empty())
            mc::violation(job.head() + keys, error.substr(0, error.find(';')), "document " + job.doc + " options \"" + job.opts + "\" " + std::to_string(job.rows) + "x" + std::to_string(job.cols) + " keys " + tokenNames(keys) + ": " + error);
    }
    int injectSignal = SIGWINCH;

    void explore()
    {
        do runOnce(job.prefix); while (!done && !job.early && error.empty());
        if (error.empty())
        {
            mc::sample(job.doc + " " + std::to_string(job.rows) + "x" + std::to_string(job.cols) + ": " + std::to_string(nodes.size()) + " states");
            mc::outcome(job.head() + std::to_string(nodes.size()));
        }
    }
};
template<class VIEW> Session<VIEW> *Session<VIEW>::current;

// Calls to the terminal library, at which a signal may come
template<class VIEW>
static void onCallOf()
{
    Session<VIEW> *s = Session<VIEW>::current;
    if (!s) return;
    if (++s->calls == s->injectAt) { s->injectAt = 0; raise(s->injectSignal); }
}


// ---------------------------------------------------------------- documents

// All the ordered trees with n values. k: next key, s: next scalar
struct Gen
{
    std::vector<S> trees(int n) // as strings: S, A(...), O(...)
    {
        std::vector<S> r;
        if (n == 1) r.push_back("S");
        for (const S &f : forests(n - 1)) { r.push_back("A(" + f + ")"); r.push_back("O(" + f + ")"); }
        return r;
    }
    std::vector<S> forests(int n)
    {
        std::vector<S> r;
        if (n == 0) return {""};
        for (int k = 1; k <= n; ++k)
            for (const S &t : trees(k)) for (const S &f : forests(n - k)) r.push_back(t + f);
        return r;
    }
};

// style 0: short labels; 1: longer ones, which wrap
static S write(const S &shape, size_t &i, int style, int &nkey, int &nval)
{
    const char c = shape[i++];
    if (c == 'S')
    {
        const int n = nval++;
        const S id(1, 'a' + n);
        switch (n % 4)
        {
        case 0: return "\"" + id + (style ? "0123456789" : "") + "\"";
        case 1: return std::to_string(10 + n);
        case 2: return n == 2 ? "true" : "null";
        default: return style ? "\"" + id + " \xc3\xa9t\xc3\xa9 m\"" : "\"\"";
        }
    }
    S r(1, c == 'A' ? '[' : '{');
    ++i;
    bool first = true;
    while (shape[i] != ')')
    {
        if (!first) r += ',';
        first = false;
        if (c == 'O')
        {
            const int n = nkey++;
            r += "\"k" + S(1, 'A' + n) + (style && n % 2 == 0 ? "-long-key" : "") + "\":";
        }
        r += write(shape, i, style, nkey, nval);
    }
    ++i;
    return r + (c == 'A' ? ']' : '}');
}

static std::vector<S> shapes(int max)
{
    Gen g;
    std::vector<S> r;
    for (int n = 1; n <= max; ++n) for (const S &t : g.trees(n)) r.push_back(t);
    return r;
}
static S document(const S &shape, int style)
{
    size_t i = 0;
    int k = 0, s = 0;
    return write(shape, i, style, k, s);
}

typedef std::vector<S> Keys;
static Keys each(const S &chars) { Keys r; for (char c : chars) r.push_back(S(1, c)); return r; }
static Keys operator+(Keys a, const Keys &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static const S NAV = "\x01\x02\x03\x04\x05\x06";

// ---------------------------------------------------------------- jobs

static void addJob(std::vector<Job> &r, const S &doc, const S &opts, int rows, int cols, const Keys &alphabet, const S &prefix = "")
{
    Job j;
    j.doc = doc;
    j.opts = opts;
    j.rows = rows;
    j.cols = cols;
    j.alphabet = alphabet;
    j.prefix = prefix;
    r.push_back(j);
}

static std::vector<Job> jobs();
static std::vector<Job> allJobs;

static std::vector<S> units()
{
    allJobs = jobs();
    std::vector<S> r;
    const size_t n = 16 * 8;
    for (size_t i = 0; i < n && i < allJobs.size(); ++i) r.push_back(std::to_string(i) + "/" + std::to_string(n));
    return r;
}

template<class VIEW>
static void runUnit(const S &u)
{
    size_t i = atoi(u.c_str());
    const size_t step = atoi(u.c_str() + u.find('/') + 1);
    for (; i < allJobs.size(); i += step)
    {
        Session<VIEW> s(allJobs[i]);
        const unsigned long long before = mc::sh->transitions;
        if (getenv("VERIF_JOBS")) fprintf(stderr, "begin %zu %s %s %dx%d\n", i, allJobs[i].doc.c_str(), allJobs[i].opts.c_str(), allJobs[i].rows, allJobs[i].cols);
        s.explore();
        if (getenv("VERIF_JOBS")) fprintf(stderr, "%llu %zu %s %s %dx%d %zu keys\n", mc::sh->transitions - before, i, allJobs[i].doc.c_str(), allJobs[i].opts.c_str(), allJobs[i].rows, allJobs[i].cols, allJobs[i].alphabet.size());
    }
}

template<class VIEW>
static void replay(const S &c)
{
    std::vector<S> f;
    size_t p = 0;
    for (int i = 0; i < 5; ++i) { const size_t q = c.find(US, p); f.push_back(c.substr(p, q - p)); p = q + 1; }
    Job j;
    j.doc = f[1];
    j.opts = f[2];
    j.rows = atoi(f[3].c_str());
    j.cols = atoi(f[4].c_str());
    j.exactScreen = f[0].find('l') == S::npos;
    for (char c : f[0]) if (isdigit(c)) j.early = j.early * 10 + (c - '0');
    Session<VIEW> s(j);
    s.script = true;
    s.runOnce(c.substr(p));
}

template<class VIEW>
static int sessionMain(int argc, char **argv)
{
    setlocale(LC_ALL, "C.UTF-8");
    setenv("TERM", "xterm", 1);
    mc::Harness h;
    h.units = units;
    h.run = runUnit<VIEW>;
    h.replay = replay<VIEW>;
    return mc::harnessMain(argc, argv, h);
}
