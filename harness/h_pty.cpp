// The program as it is built by the repository, unmodified, in a real (pseudo) terminal, under a shell which does job control.
// Case: inputs US options US terminal US modes US keys   or   C US first code point
// inputs: one letter each, see docs(); with 's' before it, on standard input (a file), with 't' typed in the terminal.
// terminal: c (colors) or m (none). modes: how the terminal is when the program starts.
// keys: the tokens of the viewers, and ^Z: stop with ^Z and continue; ^Y, ^\\, ^]: stop, change the size (the width, the height), continue; C: ^C; T, I: SIGTERM, SIGINT; H: hang up; q.
#include "split.hh"
#include <dirent.h>
#include <fcntl.h>
#include <grp.h>
#include <poll.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <termios.h>
#include <wctype.h>

void term::onCall() {}
static std::vector<Job> jobs() { return {}; }

struct Text { const char *name; S text; };
static const std::vector<Text> &docs()
{
    static const std::vector<Text> d = {
        {"a.json", "{\"b\":1,\"a\":[true,\"x\"]}"},
        {"b.json", "[[1],\"b1\"]"},
        {"c.json", "{\"b\":1,\"a\":[true,\"x1\"],\"c\":{}}"},
        {"bad.json", "[1,\n  }"},
    };
    return d;
}
static S programPath, terminfoPath, scratch;

// ---------------------------------------------------------------- terminal

struct Emulator
{
    int rows = 0, cols = 0, y = 0, x = 0;
    std::vector<term::Cell> cells;
    term::Cell attr;
    bool colored = false; // some color is set
    bool alternate = false, hidden = false, keypad = false, everColored = false, cursorInside = true;
    S unknown, pending;

    void size(int r, int c)
    {
        std::vector<term::Cell> n(r * c);
        for (int i = 0; i < r && i < rows; ++i) for (int j = 0; j < c && j < cols; ++j) n[i * c + j] = cells[i * cols + j];
        cells.swap(n);
        rows = r; cols = c;
        y = std::min(y, rows - 1); x = std::min(x, cols - 1);
    }
    void put(char32_t ch, int width)
    {
        if (x >= cols || y >= rows) return;
        term::Cell &c = cells[y * cols + x];
        c = attr;
        c.ch = ch;
        if (width == 2 && x + 1 < cols) { cells[y * cols + x + 1] = attr; cells[y * cols + x + 1].ch = 0; }
        x = std::min(x + width, cols - 1);
    }
    void erase(int from, int to) { for (int i = from; i < to && i < (int) cells.size(); ++i) cells[i] = term::Cell(); }
    void csi(const S &p, char f)
    {
        std::vector<int> a;
        bool priv = !p.empty() && p[0] == '?';
        for (size_t i = priv; i <= p.size();) { a.push_back(atoi(p.c_str() + i)); const size_t n = p.find(';', i); if (n == S::npos) break; i = n + 1; }
        switch (f)
        {
        case 'H': y = std::max(1, a[0]) - 1; x = std::max(1, a.size() > 1 ? a[1] : 1) - 1; if (y >= rows || x >= cols) cursorInside = false; y = std::min(y, rows - 1); x = std::min(x, cols - 1); return;
        case 'J': erase(y * cols + x, rows * cols); return;
        case 'K': erase(y * cols + x, (y + 1) * cols); return;
        case 'A': y = std::max(0, y - 1); return;
        case 'C': x = std::min(cols - 1, x + 1); return;
        case 'h': case 'l':
            if (priv && a[0] == 1049) { alternate = f == 'h'; return; }
            if (priv && a[0] == 25) { hidden = f == 'l'; return; }
            if (priv && a[0] == 1) { keypad = f == 'h'; return; }
            break;
        case 'm':
            for (int v : a)
                if (v == 0) { attr = term::Cell(); colored = false; }
                else if (v == 7) attr.reverse = true;
                else if (v == 27) attr.reverse = false;
                else if (v == 39 || v == 49) { attr.pair = 0; colored = false; }
                else if (v >= 30 && v < 38) { attr.pair = (attr.pair & ~15) | (v - 30) | 8; colored = everColored = true; }
                else if (v >= 40 && v < 48) { attr.pair = (attr.pair & 15) | (v - 40) << 4 | 256; colored = everColored = true; }
                else unknown += "m" + std::to_string(v);
            return;
        }
        unknown += "CSI " + p + f;
    }
    unsigned fed = 0;
    void feed(const S &in)
    {
        fed++;
        pending += in;
        size_t i = 0;
        while (i < pending.size())
        {
            const unsigned char c = pending[i];
            if (c == 27)
            {
                size_t j = i + 2;
                if (j >= pending.size()) break;
                if (pending[i + 1] != '[') { unknown += "ESC " + S(1, pending[i + 1]); i += 2; continue; }
                while (j < pending.size() && !isalpha((unsigned char) pending[j])) ++j;
                if (j >= pending.size()) break;
                csi(pending.substr(i + 2, j - i - 2), pending[j]);
                i = j + 1;
            }
            else if (c == '\r') { x = 0; ++i; }
            else if (c == '\n') { y = std::min(rows - 1, y + 1); ++i; }
            else if (c == '\b') { x = std::max(0, x - 1); ++i; }
            else if (c < 32) { if (c != 7) unknown += "control " + std::to_string(c); ++i; }
            else
            {
                const int n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4;
                if (i + n > pending.size()) break;
                wchar_t w = 0xFFFD;
                mbstate_t st;
                memset(&st, 0, sizeof st);
                const size_t got = mbrtowc(&w, pending.data() + i, n, &st);
                if (got > 4) { put(0xFFFD, 1); ++i; continue; }
                put(w, std::max(1, wcwidth(w)));
                i += got;
            }
        }
        pending.erase(0, i);
    }
    term::Screen screen() const
    {
        term::Screen s;
        s.h = rows; s.w = cols; s.cells = cells;
        return s;
    }
};

struct Ended { S why; };

struct Terminal
{
    int master = -1, slave = -1, cmd = -1, news = -1;
    pid_t shell = -1, program = -1;
    struct termios initial;
    Emulator emu;
    int status = -1; // of the program
    bool stopped = false;
    struct Event { char what; int value; };

    void winsize(int r, int c)
    {
        struct winsize w;
        memset(&w, 0, sizeof w);
        w.ws_row = r; w.ws_col = c;
        emu.size(r, c);
        syscall(SYS_ioctl, master, TIOCSWINSZ, &w);
    }
    void open(const S &modes, int r, int c)
    {
        master = posix_openpt(O_RDWR | O_NOCTTY | O_CLOEXEC);
        if (master < 0 || grantpt(master) || unlockpt(master)) { perror("pty"); _exit(99); }
        slave = ::open(ptsname(master), O_RDWR | O_NOCTTY | O_CLOEXEC);
        if (slave < 0) { perror("pty"); _exit(99); }
        winsize(r, c);
        tcgetattr(slave, &initial);
        for (char m : modes)
        {
            if (m == 'e') initial.c_lflag &= ~ECHO;
            if (m == 'r') { initial.c_lflag &= ~(ICANON | ECHO); initial.c_cc[VMIN] = 1; initial.c_cc[VTIME] = 0; }
            if (m == 'n') initial.c_iflag &= ~ICRNL;
            if (m == 'x') initial.c_iflag &= ~IXON;
        }
        tcsetattr(slave, TCSANOW, &initial);
        tcgetattr(slave, &initial);
    }
    // As a shell: the program is in the foreground; when it is stopped the shell takes the terminal until it is told to continue
    void start(const std::vector<S> &args, const S &termName, const S &input)
    {
        int c[2], n[2];
        if (pipe2(c, O_CLOEXEC) || pipe2(n, O_CLOEXEC)) _exit(99);
        fflush(nullptr);
        shell = fork();
        if (shell == 0)
        {
            close(master);
            setsid();
            // whatever runs the checks may ignore some signals (nohup)
            for (int s = 1; s < 32; ++s) signal(s, SIG_DFL);
            sigset_t none;
            sigemptyset(&none);
            sigprocmask(SIG_SETMASK, &none, nullptr);
            syscall(SYS_ioctl, slave, TIOCSCTTY, 0);
            signal(SIGTTOU, SIG_IGN);
            const pid_t p = fork();
            if (p == 0)
            {
                setpgid(0, 0);
                tcsetpgrp(slave, getpid());
                signal(SIGTTOU, SIG_DFL);
                int in = slave;
                if (!input.empty()) in = ::open(input.c_str(), O_RDONLY);
                dup2(in, 0); dup2(slave, 1); dup2(slave, 2);
                std::vector<S> env = {"TERM=" + termName, "TERMINFO=" + terminfoPath, "LC_ALL=C.UTF-8", "ESCDELAY=25", "PATH=/usr/bin:/bin"};
                std::vector<char *> av, ev;
                av.push_back(strdup("jsonstroll"));
                for (const S &a : args) av.push_back(strdup(a.c_str()));
                for (S &e : env) ev.push_back(&e[0]);
                av.push_back(nullptr); ev.push_back(nullptr);
                execve(programPath.c_str(), av.data(), ev.data());
                _exit(126);
            }
            setpgid(p, p);
            Event e = {'P', p};
            if (write(n[1], &e, sizeof e) < 0) _exit(1);
            while (true)
            {
                int st = 0;
                if (waitpid(p, &st, WUNTRACED) < 0) { if (errno == EINTR) continue; _exit(1); }
                tcsetpgrp(slave, getpid());
                if (!WIFSTOPPED(st))
                {
                    e = {'E', st};
                    if (write(n[1], &e, sizeof e) < 0) _exit(1);
                    _exit(0);
                }
                e = {'S', 0};
                if (write(n[1], &e, sizeof e) < 0) _exit(1);
                char k;
                if (read(c[0], &k, 1) != 1) { kill(-p, SIGKILL); _exit(1); }
                tcsetpgrp(slave, p);
                kill(-p, SIGCONT);
            }
        }
        close(c[0]); close(n[1]);
        cmd = c[1]; news = n[0];
        Event e;
        if (read(news, &e, sizeof e) != sizeof e) { perror("shell"); _exit(99); }
        program = e.value;
    }
    void pump(int ms)
    {
        struct pollfd f[2] = {{master, POLLIN, 0}, {news, POLLIN, 0}};
        if (master < 0) f[0].fd = -1;
        if (poll(f, 2, ms) <= 0) return;
        if (f[0].revents & POLLIN)
        {
            char b[65536];
            const ssize_t n = ::read(master, b, sizeof b);
            if (n > 0) emu.feed(S(b, n));
        }
        if (f[1].revents & (POLLIN | POLLHUP))
        {
            Event e;
            if (::read(news, &e, sizeof e) != sizeof e) { if (status < 0) status = 1 << 20; close(news); news = -1; return; }
            if (e.what == 'E') status = e.value;
            if (e.what == 'S') stopped = true;
        }
    }
    static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
    // Until the condition holds; everything which was written has been read by then
    bool until(const std::function<bool()> &f, double limit)
    {
        const double end = now() + limit;
        for (int turns = 0; !f(); ++turns)
        {
            if (now() > end && turns > 50 * limit) return false; // the clock may go on while nothing runs
            pump(20);
        }
        return true;
    }
    void drain()
    {
        struct pollfd f = {master, POLLIN, 0};
        char b[65536];
        while (poll(&f, 1, 0) > 0 && (f.revents & POLLIN)) { const ssize_t n = ::read(master, b, sizeof b); if (n <= 0) break; emu.feed(S(b, n)); }
    }
    bool asleep() const
    {
        char n[64], b[512];
        snprintf(n, sizeof n, "/proc/%d/stat", (int) program);
        const int fd = ::open(n, O_RDONLY);
        const ssize_t len = fd < 0 ? 0 : ::read(fd, b, sizeof b - 1);
        if (fd >= 0) close(fd);
        b[len < 0 ? 0 : len] = 0;
        const char *p = strrchr(b, ')');
        return p && p[2] == 'S';
    }
    // Until the program waits for a key: ncurses may not be stopped at another time
    void settle()
    {
        int quiet = 0;
        for (int i = 0; i < 2000 && quiet < 3 && status < 0; ++i)
        {
            struct pollfd f = {master, POLLIN, 0};
            if (poll(&f, 1, 0) > 0) { pump(0); quiet = 0; continue; }
            quiet = asleep() ? quiet + 1 : 0;
            pump(2);
        }
    }
    // What was displayed may be moved, or lost
    void scramble() { emu.fed = 0; for (term::Cell &c : emu.cells) { c = term::Cell(); c.ch = '#'; } }
    void type(const S &s) { if (write(master, s.data(), s.size()) < 0) {} }
    S given() // is the terminal as it was?
    {
        struct termios t;
        if (tcgetattr(slave, &t)) return "";
        if (t.c_iflag != initial.c_iflag || t.c_oflag != initial.c_oflag || t.c_cflag != initial.c_cflag || t.c_lflag != initial.c_lflag) return "the modes of the terminal are not restored";
        if (memcmp(t.c_cc, initial.c_cc, sizeof t.c_cc)) return "the characters of the terminal are not restored";
        if (emu.alternate) return "the screen is not restored";
        if (emu.hidden) return "the cursor is hidden";
        if (emu.keypad) return "the keypad is not restored";
        if (emu.attr.reverse || emu.colored) return "the attributes are not restored";
        return "";
    }
    ~Terminal()
    {
        if (program > 0 && status < 0) kill(program, SIGKILL);
        if (cmd >= 0) close(cmd);
        if (news >= 0) close(news);
        if (shell > 0) { kill(shell, SIGKILL); waitpid(shell, nullptr, 0); }
        if (master >= 0) close(master);
        if (slave >= 0) close(slave);
    }
};

// ---------------------------------------------------------------- a run

static const int START[2] = {12, 40};
static S keySequence(char t)
{
    switch (t)
    {
    case T_UP: return "\033OA"; case T_DOWN: return "\033OB"; case T_RIGHT: return "\033OC"; case T_LEFT: return "\033OD";
    case T_NPAGE: return "\033[6~"; case T_PPAGE: return "\033[5~"; case T_ENTERKEY: return "\033OM"; case T_BSKEY: return "\x7f"; case T_F1: return "\033OP";
    default: return S(1, t);
    }
}
static double patience() { return mc::replaying ? 20 : 10; }

struct Run
{
    S cs;
    std::vector<S> f;
    std::vector<size_t> inputs;
    S opts;
    bool diff = false, color = true;
    std::vector<std::unique_ptr<Viewer>> views;
    std::unique_ptr<SplitView> split;
    Model m;
    SplitModel sm;
    int cur = 0;
    Terminal t;
    S what; // what is being done, for messages

    void fail(const S &why) { throw Ended{why}; }

    S look()
    {
        const term::Screen s = t.emu.screen();
        if (!t.emu.alternate) return "the viewer is not started";
        const S why = split ? split->check(s, sm, false) : views[cur]->check(s, m, t.emu.rows ? name(cur) : "", false);
        if (!why.empty()) return why;
        const bool prompt = split ? sm.prompt : m.prompt;
        if (!prompt) return t.emu.hidden || f[2] == "m" ? "" : "the cursor is displayed";
        if (tiny()) return "";
        if (t.emu.hidden) return "the cursor is not displayed at the search prompt";
        const int at = (split ? sm.buf : m.buf).size() + 1;
        if (at < s.w - 1 && (t.emu.y != s.h - 1 || t.emu.x != at)) return "the cursor is not after the text of the search prompt, but at line " + std::to_string(t.emu.y) + " column " + std::to_string(t.emu.x);
        return "";
    }
    S name(int i) const { return typed && i == 0 ? "STDIN" : docs()[inputs[i]].name; }
    bool typed = false, piped = false;

    bool tiny() const { return split && (m.cols / 2 < 3 || m.rows < 4); } // nothing has to be displayed
    void expect()
    {
        if (tiny()) { t.until([&] { return t.status >= 0 || t.emu.fed; }, patience()); t.settle(); }
        S why;
        mc::sh->transitions = mc::sh->transitions + 1;
        const bool good = t.until([&] { return t.status >= 0 || (why = look()).empty(); }, patience());
        if (t.status >= 0) fail("the program ended (status " + std::to_string(t.status) + ") " + what);
        if (!good) fail(why + " " + what + "; screen:\n" + t.emu.screen().dump());
        if (!t.emu.unknown.empty()) fail("unexpected output " + t.emu.unknown);
        if (!t.emu.cursorInside) fail("the cursor is moved out of the terminal " + what);
        if (t.emu.everColored && (!color || f[2] == "m")) fail("colors are displayed");
        mc::distinct(std::to_string(cur) + "/" + (split ? sm.key() : m.key()) + f[2] + f[1] + std::to_string(inputs[0]) + std::to_string(t.emu.screen().hash()));
    }
    // ended: by quitting
    void end(bool quit, int sig)
    {
        if (!t.until([&] { return t.status >= 0; }, patience())) fail("the program does not end " + what);
        if (t.master < 0) return; // nothing left to be seen
        S why; // what the program wrote may be about to reach the terminal
        if (!t.until([&] { return (why = t.given()).empty(); }, patience())) fail(why + " " + what);
        if (quit && t.status != 0) fail("status " + std::to_string(t.status) + " " + what);
        if (!quit && !WIFEXITED(t.status) && !(WIFSIGNALED(t.status) && WTERMSIG(t.status) == sig)) fail("status " + std::to_string(t.status) + " " + what);
        mc::outcome(cs + std::to_string(t.status));
    }

    explicit Run(const S &c): cs(c)
    {
        size_t p = 0;
        for (int i = 0; i < 4; ++i) { const size_t q = c.find(US, p); f.push_back(c.substr(p, q - p)); p = q + 1; }
        f.push_back(c.substr(p));
        for (char i : f[0])
            if (i == 's') piped = typed = true;
            else if (i == 't') typed = true;
            else inputs.push_back(i - 'A');
        std::vector<S> o;
        for (char x : f[1])
        {
            if (x == 'd') { diff = true; o.push_back("--diff"); }
            if (x == 'n') { color = false; o.push_back("--color=never"); }
            if (x == 'W') o.push_back("-W");
        }
        std::vector<S> text;
        for (size_t i : inputs)
        {
            text.push_back(docs()[i].text);
            const ref::Result r = ref::parse(text.back(), ref::Opts());
            if (r.status != ref::Result::OK) break;
            views.emplace_back(new Viewer);
            views.back()->d.add(r.v, -1, true);
        }
        if (diff)
        {
            split.reset(new SplitView);
            for (int i = 0; i < 2; ++i) split->names[i] = name(i);
            split->load(text, o);
            split->reset(sm);
        }
        for (size_t i = 0; i < inputs.size(); ++i) if (!(typed && i == 0)) o.push_back(docs()[inputs[i]].name);
        t.open(f[3], START[0], START[1]);
        m.rows = sm.rows = START[0]; m.cols = sm.cols = START[1];
        t.start(o, f[2] == "m" ? "vt-mono" : f[2] == "u" ? "vt-unknown" : f[2] == "e" ? "" : "vt-check", piped ? docs()[inputs[0]].name : "");
    }

    void resize(int k) { resize(SIZES[k][0], SIZES[k][1]); }
    void resize(int rows, int cols)
    {
        m.rows = sm.rows = rows; m.cols = sm.cols = cols;
        t.winsize(m.rows, m.cols);
        m.keptMsg = sm.keptMsg = true;
        m.prefix = sm.prefix = false;
    }

    void go()
    {
        if (typed && !piped)
        {
            what = "after the document is typed";
            t.type(docs()[inputs[0]].text + "\n");
        }
        else what = "at the start";
        const int nb = diff ? 1 : views.size();
        if (f[2] == "u" || f[2] == "e")
        {
            // such a terminal cannot be used
            end(false, 0);
            if (!t.until([&] { return t.emu.screen().row(0).find_first_not_of(' ') != S::npos; }, patience())) fail("nothing tells that the terminal cannot be used");
            return;
        }
        if (nb == 0) { end(true, 0); return; }
        expect();
        for (size_t i = 0; i < f[4].size(); ++i)
        {
            const char k = f[4][i];
            what = "after " + S(k == '\x1a' ? "^Z" : tokenName(k)) + " (key " + std::to_string(i + 1) + ")";
            if (k == T_TERM || k == T_INT || k == '\x03')
            {
                if (k == '\x03') t.settle(); // ^C makes the terminal forget what it did not read or write yet
                if (k == '\x03') t.type("\x03"); else kill(t.program, k == T_TERM ? SIGTERM : SIGINT);
                end(false, k == T_TERM ? SIGTERM : SIGINT);
                return;
            }
            if (k == T_CONT) // hang up
            {
                close(t.master);
                t.master = -1;
                end(false, SIGHUP);
                return;
            }
            if (k >= T_SIZE0 && k <= T_SIZE3) 
            {
                t.settle();
                const bool same = m.rows == SIZES[k - T_SIZE0][0] && m.cols == SIZES[k - T_SIZE0][1];
                if (!same) { resize(k - T_SIZE0); t.scramble(); }
                expect();
                continue;
            }
            if (k == '\x1a' || k == '\x19' || k == '\x1c' || k == '\x1d')
            {
                // ^Z, then fg
                t.settle();
                t.stopped = false;
                t.type("\x1a");
                if (!t.until([&] { return t.stopped || t.status >= 0; }, patience()) || !t.stopped) fail("does not stop " + what + (t.status >= 0 ? ", it ends (status " + std::to_string(t.status) + ")" : ""));
                S why;
                if (!t.until([&] { return (why = t.given()).empty(); }, patience())) fail(why + " " + what);
                t.drain();
                m.keptMsg = sm.keptMsg = true;
                m.prefix = sm.prefix = false;
                if (k == '\x19') resize(SIZES[1][0] == m.rows ? 2 : 1);
                if (k == '\x1c') resize(m.rows, m.cols == 30 ? 40 : 30);
                if (k == '\x1d') resize(m.rows == 7 ? 12 : 7, m.cols);
                // nothing is left from what was displayed
                t.scramble();
                if (write(t.cmd, "f", 1) < 0) fail("shell");
                expect();
                continue;
            }
            t.type(keySequence(k));
            if (k == T_ESC) { const double until = Terminal::now() + 0.06; while (Terminal::now() < until) t.pump(20); } // may be the start of a function key
            if (split) split->key(sm, k); else views[cur]->key(m, k);
            if (split ? sm.quit : m.quit)
            {
                if (++cur >= nb) { end(true, 0); return; }
                const int r = m.rows, c = m.cols;
                m = Model();
                m.rows = r; m.cols = c;
                what = "at the start of viewer " + std::to_string(cur + 1);
            }
            expect();
        }
        what = "at the end";
        // Nothing changes by itself
        const double until = Terminal::now() + 0.2;
        while (Terminal::now() < until && t.status < 0) t.pump(50);
        expect();
        if (split ? sm.prompt : m.prompt) { t.type("\n"); if (split) split->key(sm, '\n'); else views[cur]->key(m, '\n'); expect(); }
        kill(t.program, SIGTERM);
        end(false, SIGTERM);
    }
};

static void setup()
{
    if (!scratch.empty()) return;
    const char *base = getenv("VERIF_TMP");
    char d[256];
    snprintf(d, sizeof d, "%s/verif_pty.XXXXXX", base ? base : "/tmp");
    if (!mkdtemp(d)) { perror("mkdtemp"); _exit(99); }
    scratch = d;
    char self[4096];
    const ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1);
    self[n < 0 ? 0 : n] = 0;
    S dir = self;
    dir = dir.substr(0, dir.rfind('/'));
    // The program and the descriptions of the terminals, where an unprivileged user can read them
    programPath = scratch + "/jsonstroll";
    terminfoPath = scratch + "/terminfo";
    if (system(("cp '" + dir + "/program/bin/jsonstroll' '" + programPath + "' && cp -r '" + dir + "/terminfo' '" + terminfoPath + "' && chmod -R a+rX '" + scratch + "' && chown -R " + std::to_string(300000 + getpid()) + " '" + scratch + "'").c_str())) _exit(99);
    const uid_t uid = 300000 + getpid();
    if (chown(d, uid, uid) || setgroups(0, nullptr) || setresgid(uid, uid, uid) || setresuid(uid, uid, uid) || chdir(d)) { perror("cannot become an unprivileged user"); _exit(99); }
    for (const Text &x : docs()) { FILE *o = fopen(x.name, "w"); fwrite(x.text.data(), 1, x.text.size(), o); fclose(o); }
}

// ---------------------------------------------------------------- characters

static S narrow(const S &in) // what the narrow library displays, in a UTF-8 terminal
{
    S r;
    for (unsigned char c : in)
        if (c >= 0xA0) { r += "M-"; r += c == 0xFF ? "^?" : S(1, c - 0x80); }
        else if (c >= 0x80) { r += '~'; r += (char) (c - 0x40); }
        else r += (char) c;
    return r;
}
static const int PER_LINE = 16, LINES_SHOWN = 90;
static bool displayed(char32_t c) { return c >= 0x20 && c != '"' && c != '\\' && c != 0x7f && (c < 0xD800 || c > 0xDFFF) && iswprint(c) && wcwidth(c) >= 1; }

static void characters(uint32_t from)
{
    setup();
    const S cs = S("C") + US + std::to_string(from);
    std::vector<S> lines;
    S doc = "[";
    uint32_t c = from;
    const uint32_t to = from + PER_LINE * LINES_SHOWN;
    while (c < to)
    {
        S line = "x";
        for (int i = 0; i < PER_LINE && c < to; ++i, ++c) if (displayed(c)) line += term::utf8(c);
        if (line.size() == 1) continue;
        doc += (lines.empty() ? "\"" : ",\n\"") + line + "\"";
        lines.push_back(line);
    }
    if (lines.empty()) return;
    mc::begin(cs);
    FILE *o = fopen("chars.json", "w");
    fwrite((doc + "]").data(), 1, doc.size() + 1, o);
    fclose(o);
    Terminal t;
    t.open("", LINES_SHOWN + 5, 250);
    t.start({"chars.json"}, "vt-check", "");
    S bad;
    bool narrowed = false;
    auto same = [&](bool nar)
    {
        for (size_t i = 0; i < lines.size(); ++i)
        {
            S row;
            for (int x = 0; x < t.emu.cols; ++x) { const char32_t ch = t.emu.cells[(i + 2) * t.emu.cols + x].ch; if (ch) row += term::utf8(ch); }
            while (!row.empty() && row.back() == ' ') row.pop_back();
            S want = "    " + (nar ? narrow(lines[i]) : lines[i]);
            while (!want.empty() && want.back() == ' ') want.pop_back();
            if (row != want) { bad = "expected <" + want + ">, displayed <" + row + ">"; return false; }
        }
        return true;
    };
    const bool good = t.until([&] { mc::sh->transitions = mc::sh->transitions + 1; if (t.status >= 0) return true; if (same(false)) return true; return narrowed = same(true); }, patience());
    if (t.status >= 0) return mc::violation(cs, "ended", "the program ended");
    if (!good) return mc::violation(cs, "characters", bad);
    mc::outcome(cs + (narrowed ? "narrow" : ""));
    if (narrowed && from == 0) mc::violation(S("C") + US + "0", "characters", "characters other than ASCII are not displayed as they are, but for instance as " + narrow("\xc3\xa9") + " instead of \xc3\xa9: the program is built with the library which only knows 8-bit characters");
    t.type("q");
    if (!t.until([&] { return t.status >= 0; }, patience())) return mc::violation(cs, "end", "the program does not end");
    S why;
    if (!t.until([&] { return (why = t.given()).empty(); }, patience())) return mc::violation(cs, "end", why);
}

// ---------------------------------------------------------------- enumeration

static S join(const S &inputs, const S &opts, const S &terminal, const S &modes, const S &keys) { return inputs + US + opts + US + terminal + US + modes + US + keys; }

static S readable(const S &keys)
{
    S r;
    for (char k : keys) r += (r.empty() ? "" : " ") + (k == '\x1a' ? S("^Z-fg") : k == '\x19' ? S("^Z-resize-fg") : k == '\x1c' ? S("^Z-width-fg") : k == '\x1d' ? S("^Z-height-fg") : k == '\x03' ? S("^C") : k == T_CONT ? S("HANGUP") : tokenName(k));
    return r;
}
static void check(const S &c)
{
    if (c.substr(0, 2) == S("C") + US) return characters(atoi(c.c_str() + 2));
    setup();
    mc::begin(c);
    Run r(c);
    mc::sample("inputs " + r.f[0] + " options " + r.f[1] + " terminal " + r.f[2] + r.f[3] + " keys " + readable(r.f[4]));
    try { r.go(); }
    catch (const Ended &e) { mc::violation(c, e.why.substr(0, e.why.find(';')), e.why + "\n  inputs " + r.f[0] + " options " + r.f[1] + " terminal " + r.f[2] + " modes " + r.f[3] + " keys " + readable(r.f[4])); }
}
static void cleanup()
{
    if (scratch.empty()) return;
    for (const Text &x : docs()) unlink((scratch + "/" + x.name).c_str());
    for (const char *n : {"/chars.json", "/jsonstroll", "/terminfo/v/vt-check", "/terminfo/v/vt-mono"}) unlink((scratch + n).c_str());
    for (const char *n : {"/terminfo/v", "/terminfo", ""}) rmdir((scratch + n).c_str());
    scratch.clear();
}

static std::vector<S> cases;
static void all()
{
    const bool th = thorough();
    const S ends[] = {"q", S(1, T_TERM), S(1, T_INT), "\x03", S(1, T_CONT)};
    const std::vector<S> keys = {S(1, T_DOWN), S(1, T_RIGHT), S(1, T_LEFT), "/1\n", "/1\x1a", "/x\x1b", S(1, T_SIZE1), S(1, T_SIZE2), "\x1a", "\x19", "\x1c", "\x1d", "\x17"};
    const std::vector<S> inputs = {"A", "sA", "tA", "AB", "AD"};
    // every way to start, to end, and every terminal
    for (const S &in : inputs)
        for (const S &t : {S("c"), S("m")})
            for (const S &mode : {S(""), S("e"), S("r"), S("x"), S("ex")})
                for (const S &o : {S(""), S("n")})
                    for (const S &e : ends)
                        for (const S &k : {S(""), S("\x1a"), S("/1"), S("\x02")})
                        {
                            if (in[0] == 't' && mode == "r") continue;
                            S s = in.back() == 'B' ? "\x02q" : "";
                            if (k == "/1" && e == "q") continue; // typed in the prompt
                            cases.push_back(join(in, o, t, mode, s + k + e));
                        }
    for (const S &in : {S("AC"), S("BC")})
        for (const S &t : {S("c"), S("m")})
            for (const S &mode : {S(""), S("e"), S("x")})
                for (const S &e : ends)
                    for (const S &k : {S(""), S("\x1a"), S("\x19"), S("/1"), S("\x02\x17w")})
                        if (!(k == "/1" && e == "q")) cases.push_back(join(in, "d", t, mode, k + e));
    for (const S &t : {S("u"), S("e")}) for (const S &mode : {S(""), S("e"), S("r"), S("x")}) for (const S &o : {S(""), S("W"), S("n")})
    {
        for (const S &in : inputs) if (in[0] != 't' || mode != "r") cases.push_back(join(in, o, t, mode, ""));
        cases.push_back(join("AC", "d" + o, t, mode, ""));
    }
    // sequences
    const size_t depth = th ? 4 : 3;
    for (const S &c : {S("A c"), S("B m"), S("AC c"), S("sA c")})
    {
        const bool d = c[1] == 'C';
        const S in = c.substr(0, c.find(' ')), t = c.substr(c.find(' ') + 1);
        std::function<void(const S &, size_t)> rec = [&](const S &k, size_t n)
        {
            if (n == 0) { cases.push_back(join(in, d ? "d" : "", t, "", k + "q")); return; }
            for (const S &x : keys) rec(k + x + (x == "/1\x1a" ? "\n" : ""), n - 1);
        };
        rec("", c == "A c" || d ? depth : depth - 1);
    }
    for (uint32_t c = 0; c < 0x110000; c += PER_LINE * LINES_SHOWN) cases.push_back(S("C") + US + std::to_string(c));
}

static std::vector<S> unitsOf()
{
    all();
    std::vector<S> r;
    for (int i = 0; i < 128; ++i) r.push_back(std::to_string(i));
    return r;
}

int main(int argc, char **argv)
{
    setlocale(LC_ALL, "C.UTF-8");
    mc::Harness h;
    h.units = unitsOf;
    h.run = [](const S &u) { for (size_t i = atoi(u.c_str()); i < cases.size(); i += 128) check(cases[i]); cleanup(); };
    h.replay = [](const S &c) { check(c); cleanup(); };
    return mc::harnessMain(argc, argv, h);
}
