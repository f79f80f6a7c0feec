// The whole program in a terminal, main() included: one process for each case, the inputs, options, keys, signals and
// the answers of the environment being enumerated.
// Case: inputs US options US environment US [call at which SIGTERM comes] US keys
// inputs: one letter each, see docs(); with 's' before it, on standard input; with '-' before it, as arguments after "--"
#include "split.hh"
#include "cli_ref.hh"
#include <dirent.h>
#include <grp.h>
#include <sys/stat.h>

int jsonstroll_main(int, char **);

// ---------------------------------------------------------------- case

struct Text { const char *name; S text; };
static const std::vector<Text> &docs()
{
    static const std::vector<Text> d = {
        {"a.json", "{\"b\":1,\"a\":[true,\"\\u00e9\"]}\n"},
        {"b.json", "[[1],\"b1\"]"},
        {"warn.json", "{\"k\":1,\"b\":2,\n\"k\":TRUE}"},
        {"bad.json", "[1,\n  }"},
        {"cut.json", "[1"},
        {"empty.json", ""},
        {"other.json", "{\"b\":1,\"a\":[true,\"x1\"],\"c\":{}}"},
    };
    return d;
}

struct Input { S name, text; char from = 'f'; };
struct Case
{
    std::vector<Input> inputs;
    S opts, env, keys;
    int early = 0;
    bool strict = true, ascii = false, sorted = true, color = true, diff = false, compress = false;

    explicit Case(const S &c)
    {
        std::vector<S> f;
        size_t p = 0;
        for (int i = 0; i < 4; ++i) { const size_t q = c.find(US, p); f.push_back(c.substr(p, q - p)); p = q + 1; }
        keys = c.substr(p);
        opts = f[1];
        env = f[2];
        early = atoi(f[3].c_str());
        char from = 'f';
        for (char i : f[0])
        {
            if (!isupper((unsigned char) i)) { from = i; continue; }
            Input in;
            in.from = from;
            in.name = from == 's' ? "STDIN" : from == '-' ? "ARGS" : docs()[i - 'A'].name;
            in.text = docs()[i - 'A'].text;
            inputs.push_back(in);
            from = 'f';
        }
        for (char o : opts)
            switch (o)
            {
            case 'W': strict = false; break;
            case 'a': ascii = true; break;
            case 'k': sorted = false; break;
            case 'n': color = false; break;
            case 'y': case 'c': color = true; break;
            case 'd': diff = true; break;
            }
    }
    std::vector<S> options() const
    {
        std::vector<S> r;
        for (char o : opts) r.push_back(o == 'W' ? "-W" : o == 'a' ? "--ascii" : o == 'k' ? "--keep-order" : o == 'n' ? "--color=never" : o == 'y' ? "--color=always" : o == 'c' ? "--color" : o == 'z' ? "--compress" : "--diff");
        return r;
    }
};

// ---------------------------------------------------------------- in the program

struct Report { int viewers, returned, calls, held; char error[4096]; };
static unsigned char *seen; // hashes of the states, of all the cases of this unit
static const size_t SEEN = 1 << 20;
static Report *report;

struct Program
{
    const Case &c;
    std::vector<std::unique_ptr<Viewer>> views; // of the inputs which can be read, up to the first which cannot
    std::unique_ptr<SplitView> split;
    int cur = -1, expectedViewers = 0;
    Model m;
    SplitModel sm;
    size_t at = 0; // in the keys
    int started = 0;
    bool ended() const { return (int) term::ended >= started; }
    bool terminated = false, lastResize = false;
    unsigned idle = 0, calls = 0;
    int failAt = -1; // this viewer cannot have a terminal

    static Program *current;

    explicit Program(const Case &k): c(k)
    {
        view::rawEscapes = c.ascii;
        for (const Input &i : c.inputs)
        {
            ref::Opts o;
            o.lenient = !c.strict;
            o.ascii = c.ascii;
            const ref::Result r = ref::parse(i.text, o);
            if (r.status != ref::Result::OK) break;
            views.emplace_back(new Viewer);
            views.back()->d.add(r.v, -1, c.sorted);
        }
        expectedViewers = !c.diff ? (int) views.size() : views.size() == c.inputs.size() ? 1 : 0;
        if (c.diff && expectedViewers)
        {
            split.reset(new SplitView);
            split->names[0] = c.inputs[0].name;
            split->names[1] = c.inputs[1].name;
            split->load({c.inputs[0].text, c.inputs[1].text}, c.options());
        }
        for (bool &t : term::tty) t = true;
        term::noTty = false;
        for (char e : c.env)
        {
            if (e == 'i') term::tty[0] = false;
            if (e == 'o') term::tty[1] = false;
            if (e == 'e') term::tty[2] = false;
            if (e == 'x') term::noTty = true;
            if (isdigit((unsigned char) e)) failAt = e - '0';
        }
    }

    [[noreturn]] void fail(const S &why)
    {
        snprintf(report->error, sizeof report->error, "%s", why.c_str());
        _exit(77);
    }

    // A viewer takes the terminal
    void start(FILE *out, FILE *in)
    {
        if (!ended()) fail("the terminal was not given back by the previous viewer");
        if (++cur >= expectedViewers) fail("a viewer was started although nothing more is to be viewed");
        if (terminated) fail("a viewer was started after the signal");
        if (!term::tty[0] || !term::tty[1])
        {
            if (term::openedTty == nullptr || in != term::openedTty || out != term::openedTty) fail("the viewer does not use the terminal");
        }
        else if (!(in == stdin && out == stdout) && !(term::openedTty && in == term::openedTty && out == term::openedTty)) fail("the viewer does not use the terminal");
        silent();
        term::failTerm = cur == failAt;
        if (term::failTerm) return;
        ++started;
        report->viewers = cur + 1;
        m = Model();
        sm = SplitModel();
        if (split) split->reset(sm);
        size(term::rows, term::cols);
        lastResize = false;
        idle = 0;
    }
    void size(int rows, int cols)
    {
        m.rows = sm.rows = rows;
        m.cols = sm.cols = cols;
        term::setSize(rows, cols);
    }
    void silent()
    {
        struct stat st;
        for (int fd : {1, 2}) if (fstat(fd, &st) == 0 && st.st_size) fail(S("something is written on standard ") + (fd == 1 ? "output" : "error") + " before the terminal is given back");
    }
    S look(const term::Screen &s) const
    {
        if (!c.color && COLORS > 0) for (const term::Cell &x : s.cells) if (x.pair) return "colored, although it should not";
        return split ? split->check(s, sm, c.color) : views[cur]->check(s, m, c.inputs[cur].name, c.color);
    }
    bool &quit() { return split ? sm.quit : m.quit; }
    bool prompt() const { return split ? sm.prompt : m.prompt; }
    void keep() { m.keptMsg = sm.keptMsg = true; m.prefix = sm.prefix = false; }
    int press(char t)
    {
        if (split) split->key(sm, t); else views[cur]->key(m, t);
        return keyCode(t);
    }

    int wait()
    {
        mc::sh->transitions = mc::sh->transitions + 1;
        if (ended()) fail("waits for a key without a terminal");
        if (terminated) { if (++idle > 3) fail("does not end after the signal"); return ERR; }
        if (quit()) fail("waits for a key although the viewer should have ended");
        silent();
        const term::Screen s = term::capture();
        const S why = look(s);
        if (!why.empty())
        {
            if (lastResize && idle++ < 2) return ERR;
            fail("viewer " + std::to_string(cur + 1) + ": " + why + "; screen:\n" + s.dump());
        }
        const uint64_t h = mc::hashStr(std::to_string(cur) + "/" + S(c.inputs[cur].name) + (split ? sm.key() : m.key()) + std::to_string(s.hash())) % (SEEN * 8);
        if (!(seen[h >> 3] & 1 << (h & 7))) { seen[h >> 3] |= 1 << (h & 7); mc::sh->states = mc::sh->states + 1; }
        idle = 0;
        lastResize = false;
        char t = 'q';
        if (at < c.keys.size()) t = c.keys[at++];
        else if (prompt()) t = T_ESC;
        else if (split ? sm.prefix : m.prefix) t = 'z';
        if (t >= T_SIZE0 && t <= T_SIZE3)
        {
            size(SIZES[t - T_SIZE0][0], SIZES[t - T_SIZE0][1]);
            keep();
            lastResize = true;
            raise(SIGWINCH);
            return ERR;
        }
        if (t == T_CONTSAME) { keep(); raise(SIGCONT); return ERR; }
        if (t == T_INT || t == T_TERM) { terminated = true; raise(t == T_INT ? SIGINT : SIGTERM); return ERR; }
        return press(t);
    }
};
Program *Program::current;

void term::onCall()
{
    Program *p = Program::current;
    if (!p) return;
    report->calls = ++p->calls;
    report->held = !p->ended();
    if ((int) p->calls == p->c.early) { p->terminated = true; raise(SIGTERM); }
}
static int onWaitHook(WINDOW *) { return Program::current->wait(); }

// ---------------------------------------------------------------- outside

static S scratch;

static void writeFile(const S &p, const S &c)
{
    FILE *f = fopen(p.c_str(), "w");
    if (!f) { perror(p.c_str()); _exit(99); }
    fwrite(c.data(), 1, c.size(), f);
    fclose(f);
}

static void setup()
{
    if (!scratch.empty()) return;
    const char *base = getenv("VERIF_TMP");
    char t[256];
    snprintf(t, sizeof t, "%s/verif_main.XXXXXX", base ? base : "/tmp");
    if (!mkdtemp(t)) { perror("mkdtemp"); _exit(99); }
    scratch = t;
    const uid_t uid = 200000 + getpid();
    if (chown(t, uid, uid) || setgroups(0, nullptr) || setresgid(uid, uid, uid) || setresuid(uid, uid, uid) || chdir(t)) { perror("cannot become an unprivileged user"); _exit(99); }
    for (const Text &d : docs()) writeFile(d.name, d.text);
    seen = (unsigned char *) mmap(nullptr, SEEN, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    report = (Report *) mmap(nullptr, sizeof(Report), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}
static void cleanup()
{
    if (scratch.empty()) return;
    for (const Text &d : docs()) unlink((scratch + "/" + d.name).c_str());
    rmdir(scratch.c_str());
    scratch.clear();
}

static S content(int fd)
{
    S r;
    char b[65536];
    ssize_t n;
    lseek(fd, 0, SEEK_SET);
    while ((n = ::read(fd, b, sizeof b)) > 0) r.append(b, n);
    close(fd);
    return r;
}

static int lastCalls; // to the terminal library, of the last case

static void check(const S &cs)
{
    setup();
    const Case c(cs);
    mc::begin(cs);
    *report = Report();
    const int out = memfd_create("out", 0), err = memfd_create("err", 0), in = memfd_create("in", 0);
    for (const Input &i : c.inputs) if (i.from == 's' && write(in, i.text.data(), i.text.size()) < 0) _exit(99);
    lseek(in, 0, SEEK_SET);
    std::vector<S> args = c.options();
    for (const Input &i : c.inputs)
    {
        if (i.from == 'f') args.push_back(i.name);
        if (i.from == '-') { args.push_back("--"); args.push_back(i.text); }
    }
    fflush(nullptr);
    const pid_t pid = fork();
    if (pid == 0)
    {
        dup2(in, 0); dup2(out, 1); dup2(err, 2);
        close(in); close(out); close(err);
        setlocale(LC_ALL, "C");
        term::setSize(12, 40);
        Program p(c);
        report->returned = 0;
        Program::current = &p;
        term::onWait = onWaitHook;
        term::everyCall = true;
        term::onStart = [](FILE *o, FILE *i) { Program::current->start(o, i); };
        std::vector<char *> av;
        av.push_back(strdup("jsonstroll"));
        for (const S &a : args) av.push_back(strdup(a.c_str()));
        av.push_back(nullptr);
        term::ended = 0;
        const int r = jsonstroll_main(av.size() - 1, av.data());
        fflush(nullptr);
        std::cout.flush();
        report->returned = 1;
        if (!p.ended()) p.fail("the terminal was not given back");
        _exit(r);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    close(in);
    const S o = content(out), e = content(err);
    lastCalls = report->calls;
    const int status = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
    S line;
    for (const S &a : args) line += " '" + a + "'";
    auto violation = [&](const S &key, const S &why)
    {
        mc::violation(cs, key, why + "\n  command line:" + line + "\n  environment \"" + c.env + "\", keys " + tokenNames(c.keys) + (c.early ? ", SIGTERM at call " + std::to_string(c.early) : S()) + "\n  status " + std::to_string(status) + "\n  stdout: " + o.substr(0, 500) + "\n  stderr: " + e.substr(0, 2000));
    };
    mc::outcome(std::to_string(status) + "|" + std::to_string(report->viewers) + "|" + e + c.opts + c.keys);
    mc::sample(line + " keys " + tokenNames(c.keys) + " -> " + std::to_string(report->viewers) + " viewers");
    if (*report->error) return violation(S(report->error).substr(0, S(report->error).find(';')), report->error);

    // what was to be viewed
    const Program p(c);
    bool terminated = c.early && lastCalls >= c.early;
    int viewers = p.expectedViewers;
    {
        // keys: one viewer ends with each q, everything with a signal
        int n = 0;
        bool typing = false;
        for (size_t i = 0; i < c.keys.size() && n < p.expectedViewers; ++i)
            if (c.keys[i] == T_INT || c.keys[i] == T_TERM) { terminated = true; break; }
            else if (typing) typing = c.keys[i] != '\n' && c.keys[i] != T_ESC;
            else if (c.keys[i] == '/') typing = true;
            else if (c.keys[i] == 'q') ++n;
        if (terminated) viewers = -1;
    }
    if (terminated && status == 1000 + SIGTERM && !report->returned && c.early)
    {
        if (report->held) violation("held", "the program was ended without giving the terminal back");
        return; // between two viewers
    }
    if (status >= 1000 || e.find("AddressSanitizer") != S::npos || e.find("runtime error") != S::npos) return violation("crash", "crash");
    const bool unavailable = p.expectedViewers > 0 && ((!term::tty[0] || !term::tty[1]) && term::noTty);
    if (!o.empty()) return violation("output", "something is written on standard output");
    if (terminated) return;
    const bool fails = unavailable || (p.failAt >= 0 && p.failAt < p.expectedViewers);
    if (fails) viewers = unavailable ? 0 : p.failAt;
    if (report->viewers != viewers) return violation("viewers", std::to_string(report->viewers) + " viewers instead of " + std::to_string(viewers));
    // messages
    std::vector<Shown> shown;
    std::vector<unsigned> warnings;
    size_t upTo = 0;
    bool failed = false;
    for (const Input &i : c.inputs)
    {
        shown.push_back({i.name, i.text});
        if (failed || (fails && !c.diff && (int) upTo > viewers)) continue;
        ref::Opts ro;
        ro.lenient = !c.strict;
        ro.ascii = c.ascii;
        const ref::Result r = ref::parse(i.text, ro);
        if (r.status != ref::Result::OK) { failed = true; continue; }
        warnings.push_back(r.warnings);
        upTo++;
    }
    if (fails) failed = false;
    S msg;
    if (fails && e.empty()) return violation("silent", "the terminal is not available, without a message");
    if (c.diff && failed) { for (unsigned &w : warnings) w = 0; if (e.find("Warning: ") != S::npos) return violation("messages", "warning"); }
    if (!checkStderr(e, shown, upTo, failed, warnings, msg)) return violation("messages", msg);
}

// ---------------------------------------------------------------- enumeration

static S join(const S &inputs, const S &opts, const S &env, int early, const S &keys) { return inputs + US + opts + US + env + US + (early ? std::to_string(early) : "") + US + keys; }

// All the lists of inputs
static void lists(const S &alphabet, size_t max, const std::function<void(const S &)> &f, const S &cur = "")
{
    if (!cur.empty()) f(cur);
    if (cur.size() < max) for (char c : alphabet) if (cur.find(c) == S::npos) lists(alphabet, max, f, cur + c);
}
static const std::vector<S> OPTS = {"", "W", "a", "k", "n", "y", "c", "ny", "yn", "nc", "Wk", "Wa", "Wn", "ak", "Wakn"};

static std::vector<S> cases;

static void all()
{
    const bool th = thorough();
    std::vector<S> in;
    lists("ABCDEFG", th ? 4 : 3, [&](const S &l) { in.push_back(l); });
    for (char d : S("ABCDEFG"))
    {
        in.push_back(S("s") + d);
        in.push_back(S("-") + d);
        for (char e : S("ABCDEFG")) if (e != d) in.push_back(S(1, e) + "-" + d);
    }
    // inputs and options
    for (const S &l : in)
        for (const S &o : OPTS)
            if (l.size() < 3 || th || o.size() < 2) cases.push_back(join(l, o, l[0] == 's' ? "i" : "", 0, "\x02" "q\x02\x05q/1\nq"));
    // keys, over two or three viewers
    const std::vector<S> keys = {"\x02", "\x05", "/1\n", "n", "q", S(1, T_SIZE1), S(1, T_TERM), S(1, T_INT), S(1, T_IDLE), S(1, T_CONTSAME), "/\x1b", "\x17"};
    const size_t depth = th ? 5 : 4;
    for (const S &l : {S("AB"), S("BCA"), S("sB"), S("BD")})
    {
        if (l != "AB" && !th) continue;
        std::function<void(const S &, size_t)> rec = [&](const S &k, size_t d)
        {
            const bool ends = k.find(T_TERM) != S::npos || k.find(T_INT) != S::npos || std::count(k.begin(), k.end(), 'q') >= 2;
            if (d == 0 || ends) { cases.push_back(join(l, l == "BCA" ? "W" : "", l[0] == 's' ? "i" : "", 0, k)); return; }
            for (const S &t : keys) rec(k + t, d - 1);
        };
        rec("", l == "AB" ? depth : 4);
    }
    for (const S &l : {S("BCA"), S("sB"), S("BD"), S("B-G")})
        for (const S &a : keys) for (const S &b : keys) for (const S &o : {S("W"), S("n")}) cases.push_back(join(l, o, l[0] == 's' ? "i" : "", 0, a + b + "q" + b + "q" + a));
    // environment
    for (const S &l : in)
        if (l.size() < (th ? 4 : 3))
            for (const S &e : {S("i"), S("ix"), S("x"), S("e"), S("0"), S("1"), S("i0"), S("i1"), S("2")})
                for (const S &o : {S(""), S("Wn")})
                    cases.push_back(join(l, o, e + (l[0] == 's' ? "i" : ""), 0, "\x02q\x02q"));
    // comparison
    for (const S &l : in)
        if (std::count_if(l.begin(), l.end(), [](char ch) { return isupper((unsigned char) ch); }) == 2)
        {
            for (const S &o : OPTS) cases.push_back(join(l, "d" + o, "", 0, "\x02\x17w\x02/1\nq"));
            for (const S &e : {S("i"), S("o"), S("io"), S("ix"), S("ox"), S("x"), S("0"), S("o0")}) cases.push_back(join(l, "dW", e, 0, "\x02\x17w\x05q"));
        }
    const std::vector<S> dkeys = {"\x02", "\x05", "/1\n", "n", "q", S(1, T_TERM), S(1, T_INT), S(1, T_IDLE), S(1, T_CONTSAME), "\x17w"};
    for (const S &l : {S("AG"), S("BC")})
        for (const S &a : dkeys) for (const S &b : dkeys) for (const S &d : dkeys) if (th || l == "AG") cases.push_back(join(l, "dW", "", 0, a + b + d));
    // signals, at any time
    for (const S &l : {S("AB"), S("BCA"), S("BDA"), S("sB")})
        for (const S &k : {S("\x02q\x05"), S("/1\nq"), S("qq")})
            for (int i = 1; i <= (th ? 400 : 120); i += th || i < 60 ? 1 : 3) cases.push_back(join(l, l == "BCA" ? "W" : "", l[0] == 's' ? "i" : "", i, k));
    for (int i = 1; i <= (th ? 800 : 200); i += th ? 1 : 3) cases.push_back(join("AG", "d", "", i, "\x02\x17wq"));
}

static std::vector<S> programUnits()
{
    all();
    std::vector<S> r;
    for (int i = 0; i < 128; ++i) r.push_back(std::to_string(i));
    return r;
}

int main(int argc, char **argv)
{
    setenv("TERM", "xterm", 1);
    mc::Harness h;
    h.units = programUnits;
    h.run = [](const S &u) { for (size_t i = atoi(u.c_str()); i < cases.size(); i += 128) check(cases[i]); cleanup(); };
    h.replay = [](const S &c) { check(c); cleanup(); };
    return mc::harnessMain(argc, argv, h);
}
