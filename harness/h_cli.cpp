// The whole program, main() included, run in a child process for each case: command lines, inputs and environment
// answers are enumerated. The process runs as an unprivileged user in a scratch directory of its own.
#include "common.hh"
#include "refjson.hh"
#include "cli_ref.hh"
#include <dirent.h>
#include <errno.h>
#include <poll.h>
#include <grp.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <iostream>
#include <stdarg.h>
struct screen;
typedef struct screen SCREEN;

using mc::prop;
using mc::tier;
typedef std::string S;
typedef std::vector<S> Args;

int jsonstroll_main(int, char **);

static bool thorough() { return tier == "thorough"; }

// ---------------------------------------------------------------- environment

struct Faults
{
    int stdoutTty = 0;
    int openAt = 0, openErrno = 0, openCount = 1;   // creation number openAt.. fails
    int forkErrno = 0;
    int eintr = 0;                  // this many interrupted waits first
    int waitErrno = 0;
    long fsize = -1;                // files cannot be bigger than that
    int kill = 0, exitCode = 0;     // of the command
};

struct Shm { volatile int viewer, opens, forks, waits; };
static Shm *shm;
static Faults faults;

extern "C" {
SCREEN *__wrap_newterm(const char *, FILE *, FILE *)
{
    shm->viewer = shm->viewer + 1;
    std::cout.flush();
    fflush(nullptr);
    _exit(0);
}
int __wrap_isatty(int fd) { return fd == 1 ? faults.stdoutTty : 1; }
FILE *__real_fopen(const char *, const char *);
FILE *__wrap_fopen(const char *p, const char *m)
{
    if (!strcmp(p, "/dev/tty")) p = "/dev/null";
    return __real_fopen(p, m);
}
int __real_open(const char *, int, ...);
static bool openFails(int flags)
{
    if (!(flags & O_CREAT)) return false;
    shm->opens = shm->opens + 1;
    if (faults.openAt && shm->opens >= faults.openAt && shm->opens < faults.openAt + faults.openCount)
    {
        errno = faults.openErrno;
        return true;
    }
    return false;
}
int __wrap_open(const char *p, int flags, ...)
{
    va_list l;
    va_start(l, flags);
    mode_t m = (flags & O_CREAT) ? va_arg(l, mode_t) : 0;
    va_end(l);
    return openFails(flags) ? -1 : __real_open(p, flags, m);
}
int __wrap_open64(const char *p, int flags, ...)
{
    va_list l;
    va_start(l, flags);
    mode_t m = (flags & O_CREAT) ? va_arg(l, mode_t) : 0;
    va_end(l);
    return openFails(flags) ? -1 : __real_open(p, flags, m);
}
pid_t __real_fork();
pid_t __wrap_fork()
{
    if (faults.forkErrno && shm)
    {
        shm->forks = shm->forks + 1;
        errno = faults.forkErrno;
        return -1;
    }
    return __real_fork();
}
pid_t __real_waitpid(pid_t, int *, int);
pid_t __wrap_waitpid(pid_t p, int *st, int o)
{
    if (shm && getpid() != 0 && (faults.eintr || faults.waitErrno))
    {
        shm->waits = shm->waits + 1;
        if (shm->waits <= faults.eintr) { errno = EINTR; return -1; }
        if (faults.waitErrno) { __real_waitpid(p, st, 0); errno = faults.waitErrno; return -1; }
    }
    return __real_waitpid(p, st, o);
}
}

// ---------------------------------------------------------------- scratch

static S scratch;   // the program runs here
static S helper;    // stand-in for a diff command
static uid_t uid;

static void writeFile(const S &p, const S &c)
{
    FILE *f = fopen(p.c_str(), "w");
    if (!f) { perror(p.c_str()); _exit(99); }
    fwrite(c.data(), 1, c.size(), f);
    fclose(f);
}

static S readFile(const S &p)
{
    S r;
    char b[65536];
    size_t n;
    FILE *f = fopen(p.c_str(), "r");
    if (!f) return "<missing>";
    while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n);
    fclose(f);
    return r;
}

static std::vector<S> leftovers();
static void setup()
{
    if (!scratch.empty()) return;
    const char *base = getenv("VERIF_TMP");
    char t[256], exe[4096];
    snprintf(t, sizeof t, "%s/verif_cli.XXXXXX", base ? base : "/tmp");
    ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
    exe[n] = 0;
    S dir(exe);
    dir = dir.substr(0, dir.rfind('/'));
    if (!mkdtemp(t)) { perror("mkdtemp"); _exit(99); }
    scratch = t;
    helper = scratch + "/helper";
    writeFile(helper, readFile(dir + "/helper"));
    chmod(helper.c_str(), 0755);
    mkdir((scratch + "/d").c_str(), 0755);
    uid = 200000 + getpid();
    if (chown(scratch.c_str(), uid, uid) || chown((scratch + "/d").c_str(), uid, uid) || setgroups(0, nullptr) || setresgid(uid, uid, uid) || setresuid(uid, uid, uid) || chdir((scratch + "/d").c_str()))
    {
        perror("cannot become an unprivileged user");
        _exit(99);
    }
    umask(022);
    for (const S &l : leftovers()) unlink(l.c_str()); // of an explorer which had the same number and was stopped
    shm = (Shm *) mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}

static void cleanup()
{
    if (scratch.empty()) return;
    for (const S &d : {scratch + "/d", scratch})
    {
        if (DIR *x = opendir(d.c_str()))
        {
            while (dirent *e = readdir(x))
                if (e->d_name[0] != '.') unlink((d + "/" + e->d_name).c_str());
            closedir(x);
        }
        rmdir(d.c_str());
    }
    scratch.clear();
}

// Files of ours outside the scratch directory
static std::vector<S> leftovers()
{
    std::vector<S> r;
    for (const char *d : {"/tmp", "/var/tmp", "/dev/shm"})
        if (DIR *x = opendir(d))
        {
            while (dirent *e = readdir(x))
            {
                const S p = S(d) + "/" + e->d_name;
                struct stat st;
                if (p.compare(0, 10, "/tmp/verif") && lstat(p.c_str(), &st) == 0 && st.st_uid == uid) r.push_back(p);
            }
            closedir(x);
        }
    return r;
}

struct Result { int status = -1; S out, err, log; bool viewer = false; };

static Result run(const Args &args, const S &in, const Faults &f)
{
    Result r;
    int po[2], pe[2];
    faults = f;
    *shm = Shm();
    unlink("../log");
    writeFile("../stdin", in);
    if (pipe(po) || pipe(pe)) _exit(99);
    pid_t pid = __real_fork();
    if (pid == 0)
    {
        int fd = __real_open("../stdin", O_RDONLY);
        dup2(fd, 0); dup2(po[1], 1); dup2(pe[1], 2);
        close(fd); close(po[0]); close(po[1]); close(pe[0]); close(pe[1]);
        setenv("HELPER_LOG", (scratch + "/log").c_str(), 1);
        unsetenv("TMPDIR");
        if (f.kill) setenv("HELPER_KILL", std::to_string(f.kill).c_str(), 1);
        if (f.exitCode) setenv("HELPER_EXIT", std::to_string(f.exitCode).c_str(), 1);
        if (f.eintr) { setenv("HELPER_SLEEP", "3000", 1); setenv("HELPER_AGAIN", "1", 1); }
        if (f.fsize >= 0)
        {
            struct rlimit l = {(rlim_t) f.fsize, RLIM_INFINITY};
            signal(SIGXFSZ, SIG_IGN);
            setrlimit(RLIMIT_FSIZE, &l);
        }
        std::vector<char *> av;
        av.push_back(strdup("jsonstroll"));
        for (const S &a : args) av.push_back(strdup(a.c_str()));
        av.push_back(nullptr);
        exit(jsonstroll_main(av.size() - 1, av.data()));
    }
    close(po[1]); close(pe[1]);
    struct pollfd p[2] = {{po[0], POLLIN, 0}, {pe[0], POLLIN, 0}};
    int open = 2;
    char b[65536];
    while (open)
    {
        poll(p, 2, -1);
        for (int i = 0; i < 2; ++i)
            if (p[i].fd >= 0 && p[i].revents)
            {
                ssize_t n = ::read(p[i].fd, b, sizeof b);
                if (n <= 0) { close(p[i].fd); p[i].fd = -1; --open; }
                else (i ? r.err : r.out).append(b, n);
            }
    }
    int st = 0;
    __real_waitpid(pid, &st, 0);
    r.status = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
    r.viewer = shm->viewer;
    r.log = readFile("../log");
    if (r.log == "<missing>") r.log.clear();
    return r;
}

// What the stand-in command saw
struct Seen { std::vector<S> argv; std::vector<char> kind; std::vector<S> content; S again; };

static bool parseLog(const S &log, std::vector<Seen> &runs)
{
    size_t p = 0;
    auto blob = [&](S &out)
    {
        size_t c = log.find(':', p);
        if (c == S::npos) return false;
        size_t n = strtoul(log.c_str() + p, nullptr, 10);
        out = log.substr(c + 1, n);
        p = c + 1 + n;
        return true;
    };
    while (p < log.size() && log.compare(p, 4, "RUN ") == 0)
    {
        Seen s;
        p += 4;
        int n = strtol(log.c_str() + p, nullptr, 10);
        p = log.find(' ', p) + 1;
        for (int i = 0; i < n; ++i)
        {
            S a, c;
            if (!blob(a)) return false;
            char k = log[p++];
            if (k != 'N' && !blob(c)) return false;
            s.argv.push_back(a); s.kind.push_back(k); s.content.push_back(c);
        }
        ++p;
        while (p < log.size() && (log[p] == '0' || log[p] == '1')) s.again += log[p++];
        runs.push_back(s);
    }
    return p == log.size();
}

// ---------------------------------------------------------------- reference

struct Flags { bool strict = true, ascii = false, sorted = true, compress = false; };

static void sortObj(ref::Val &v)
{
    for (auto &x : v.arr) sortObj(x);
    for (auto &x : v.obj) sortObj(x.second);
    std::stable_sort(v.obj.begin(), v.obj.end(), [](const std::pair<S, ref::Val> &a, const std::pair<S, ref::Val> &b) { return a.first < b.first; });
}

// Document expected from a text, or false if it must be refused
static bool expected(const S &text, const Flags &f, ref::Val &v, unsigned &warnings, bool *escape = nullptr)
{
    ref::Opts o;
    o.lenient = !f.strict;
    o.ascii = f.ascii;
    const ref::Result r = ref::parse(text, o);
    v = r.v;
    warnings = r.warnings;
    if (escape) *escape = text.substr(0, r.end).find("\\u") != S::npos;
    if (f.sorted) sortObj(v);
    return r.status == ref::Result::OK;
}

// Is the (front of) text that document, the escapes being kept or not?
static bool isDoc(const S &text, size_t &pos, const ref::Val &v, const Flags &f, S &err)
{
    ref::Opts o;
    o.lenient = true;
    o.ascii = true;
    const S rest = text.substr(pos);
    const ref::Result r = ref::parse(rest, o);
    if (r.status != ref::Result::OK) { err = "no document in " + rest; return false; }
    if (!ref::eq(v, r.v, true)) { err = "document " + ref::show(r.v) + " instead of " + ref::show(v); return false; }
    const S doc = rest.substr(0, r.end);
    bool white = false, in = false;
    for (size_t i = 0; i < doc.size(); ++i)
        if (in && doc[i] == '\\') ++i;
        else if (doc[i] == '"') in = !in;
        else if (!in && (doc[i] == '\n' || doc[i] == ' ')) white = true;
    if (white == f.compress && (v.t == ref::Val::ARR || v.t == ref::Val::OBJ)) { err = f.compress ? "compressed document has white space: " + doc : "document is not prettified: " + doc; return false; }
    pos += r.end;
    if (!f.compress && text[pos] != '\n') { err = "no end of line after the document"; return false; }
    if (text[pos] == '\n') ++pos;
    return true;
}

// unicode escapes are shown as such or not
static bool asciiOk(const S &text, const Flags &f, bool hasEscape)
{
    if (!hasEscape) return true;
    return f.ascii ? text.find("\\u00e9") != S::npos && text.find("\xc3\xa9") == S::npos : text.find("\\u") == S::npos && text.find("\xc3\xa9") != S::npos;
}

struct Doc { const char *name; S text; };
static const std::vector<Doc> &docs()
{
    static const std::vector<Doc> d = {
        {"a.json", "{\"b\":1,\"a\":[true,\"\\u00e9\"]}\n"},
        {"b.json", "[1.50, {} ,null]"},
        {"warn.json", "{\"k\":1,\"b\":2,\n\"k\":TRUE}"},
        {"bad.json", "[1,\n  }"},
        {"cut.json", "[1"},
        {"empty.json", ""},
        {"dup.json", "{\"x\":{\"x\":1},\"a\":2, \"x\":[]}"},
        {"str.json", "\"s\\\"t\""},
    };
    return d;
}

static S docText(const S &name)
{
    for (const Doc &d : docs()) if (name == d.name) return d.text;
    return "";
}

static S join(const Args &a)
{
    S r;
    for (const S &x : a) r += " '" + x + "'";
    return r;
}

#define FAIL(key, msg) do { mc::violation(c, key, S(msg) + "\n  command line:" + join(args) + "\n  status " + std::to_string(r.status) + "\n  stdout: " + r.out.substr(0, 1500) + "\n  stderr: " + r.err.substr(0, 1500) + "\n  command log: " + r.log.substr(0, 600)); return; } while (0)

static S checkShown(const S &out, const S &err, const std::vector<Shown> &inputs, const Flags &f)
{
    size_t pos = 0, i = 0;
    std::vector<unsigned> warnings;
    bool failed = false;
    S msg;
    for (; i < inputs.size() && !failed; ++i)
    {
        ref::Val v;
        unsigned w;
        bool escape;
        if (!expected(inputs[i].text, f, v, w, &escape)) { failed = true; break; }
        warnings.push_back(w);
        const size_t from = pos;
        if (!isDoc(out, pos, v, f, msg)) return "input " + inputs[i].name + ": " + msg;
        if (!asciiOk(out.substr(from, pos - from), f, escape)) return "unicode escapes of " + inputs[i].name;
    }
    if (pos != out.size()) return "unexpected output: " + out.substr(pos);
    if (!checkStderr(err, inputs, i, failed, warnings, msg)) return msg;
    return "";
}

// ---------------------------------------------------------------- P13 command lines

static const std::vector<S> &words()
{
    static const std::vector<S> w = {
        "-W", "--ascii", "--keep-order", "--compress", "a.json", "warn.json", "b.json", "--", "[1,\"\\u00e9\"]", "--diff", "--diff-cmd", "@helper", "{}", ";",
        "--color", "--color=never", "--color=always", "--color=x", "--help", "-h", "--version", "-v", "--bogus", "-", "none.json", "", "bad.json"};
    return w;
}

// words of a string given after --
static const std::vector<S> &inString()
{
    static const std::vector<S> w = {"", "x", "--", "-W", " ", "\\", "--help", "{}", ";", "a.json", "\xc3\xa9"};
    return w;
}

// words of an external command
static const std::vector<S> &inCommand()
{
    static const std::vector<S> w = {"x", "{}", ";x", "x;", ";;", "; ", " ;", "", " ", "{", "{}}", "x{}", "--", "-W", "--help", "--diff-cmd", "--diff", "-", "\\;", "a.json", "\xc3\xa9", "*", "$HOME", "'", "\""};
    return w;
}

// almost the name of an option
static const std::vector<S> &unknown()
{
    static const std::vector<S> w = {
        "-w", "-WW", "-W ", " -W", "-Wx", "--W", "-ascii", "--ascii=1", "--asci", "--asciii", "--ASCII", "---ascii", "--compres", "--compress ", "--compress=yes", "-compress", "--keep", "--keep-order=1",
        "--keep_order", "--diff=1", "-diff", "--dif", "--diffcmd", "--diff-cm", "--diff-cmd=@helper", "--colo", "--color=", "--color=neve", "--color=Never", "--color=always ", "--color=auto", "--colour", "--helpme", "-help", "-hh",
        "-H", "-V", "-vv", "--versio", "--version=1", "---", "--- ", "-- ", "-a", "-?", "-0", "--\xc3\xa9"};
    return w;
}

static void checkCommandLine(const S &c)
{
    // case: tty, then word numbers; or 2, then words of a string after --; or 3, then words of a command; or 4, then the name of an option
    // or 5, then tty, flags, number of files, place of --diff, number of words of a command, 1 for another one, 1 for a string after --
    Args args;
    Faults f;
    f.stdoutTty = c[0] == '1';
    if (c[0] == '2')
    {
        args = {"--compress", "--", "[\"a"};
        for (size_t i = 1; i < c.size(); ++i) args.push_back(inString()[c[i] - 'A']);
        args.push_back("b\"]");
    }
    else if (c[0] == '3')
    {
        args = {"--diff-cmd", helper};
        for (size_t i = 1; i < c.size(); ++i) args.push_back(inCommand()[c[i] - 'A']);
        args.push_back(";");
        args.push_back("b.json");
    }
    else if (c[0] == '4')
    {
        args = {unknown()[c[2] - 'A'], "a.json"};
        if (c[1] == '1') std::swap(args[0], args[1]);
        if (c[1] == '2') args.insert(args.begin(), "-W");
        if (c[1] == '3') args.push_back("--help");
    }
    else if (c[0] == '5')
    {
        f.stdoutTty = c[1] == '1';
        const int flags = c[2] - '0', files = c[3] - '0', n = c[5] - '0', twice = c[6] - '0';
        for (int i = 0; i < 5; ++i) if (flags & 1 << i) args.push_back((const char *[]) {"-W", "--ascii", "--keep-order", "--compress", "--color"}[i]);
        const auto option = [&](char at)
        {
            if (c[4] == at) args.push_back("--diff");
            for (int k = 0; at == 's' && n && k <= twice; ++k)
            {
                args.insert(args.end(), {"--diff-cmd", helper});
                for (int i = 1; i < n; ++i) args.push_back(i % 2 ? "{}" : "x");
                args.push_back(";");
            }
        };
        option('s');
        for (int i = 0; i < files; ++i) { args.push_back((const char *[]) {"a.json", "b.json", "dup.json", "str.json", "warn.json"}[i]); if (!i) option('m'); }
        option('e');
        if (c[7] == '1') args.insert(args.end(), {"--", "[2]"});
    }
    else for (size_t i = 1; i < c.size(); ++i)
    {
        S w = words()[c[i] - 'A'];
        args.push_back(w == "@helper" ? helper : w);
    }
    const S in = "{\"r\":\"\\u00e9\",\"k\":0,\"k\":Null}";
    mc::begin(c);
    mc::distinct(c);
    mc::sh->transitions = mc::sh->transitions + args.size();
    const Result r = run(args, in, f);
    mc::outcome(std::to_string(r.status) + r.out + "|" + r.err.substr(0, r.err.find("/tmp")) + (r.viewer ? "V" : "") + std::to_string(r.log.size()));
    mc::sample(join(args) + " -> " + std::to_string(r.status) + " " + r.out.substr(0, 40));
    if (r.status >= 1000 || r.err.find("AddressSanitizer") != S::npos || r.err.find("runtime error") != S::npos) FAIL("crash", "crash");

    // reference interpretation
    Flags fl;
    std::vector<Shown> inputs;
    enum { RUN, ERROR, HELP, VERSION, COUNT } action = RUN;
    bool diff = false, hasCmd = false, inCmd = false, dashes = false, first = true;
    std::vector<S> cmd;
    for (const S &a : args)
    {
        if (action != RUN) break;
        if (dashes) { inputs.back().text += (first ? "" : " ") + a; first = false; }
        else if (inCmd) { if (a == ";") { if (cmd.empty()) action = ERROR; inCmd = false; } else cmd.push_back(a); }
        else if (a == "--") { dashes = true; inputs.push_back({"ARGS", ""}); }
        else if (a == "-W") fl.strict = false;
        else if (a == "--ascii") fl.ascii = true;
        else if (a == "--keep-order") fl.sorted = false;
        else if (a == "--compress") fl.compress = true;
        else if (a == "--diff") diff = true;
        else if (a == "--color" || a == "--color=never" || a == "--color=always") ;
        else if (a == "--help" || a == "-h") action = HELP;
        else if (a == "--version" || a == "-v") action = VERSION;
        else if (a == "--diff-cmd") { if (hasCmd) action = ERROR; hasCmd = inCmd = true; }
        else if (a.empty() || a[0] == '-' || access(a.c_str(), R_OK)) action = ERROR;
        else
        {
            for (const Shown &s : inputs) if (s.name == a) action = ERROR;
            inputs.push_back({a, docText(a)});
        }
    }
    if (action == RUN && inCmd && cmd.empty()) action = ERROR;
    if (action == RUN && diff && (inputs.size() < 2 || inputs.size() > 3)) action = COUNT;
    if (inputs.empty()) inputs.push_back({"STDIN", in});

    const bool usage = r.out.find("Usage: ") != S::npos;
    if (action == ERROR)
    {
        if (r.status != EXIT_FAILURE || !usage || r.err.empty() || r.viewer || !r.log.empty()) FAIL("error", "invalid command line must be refused with the usage");
        return;
    }
    if (action == COUNT)
    {
        if (!usage || r.err.empty() || r.viewer || !r.log.empty()) FAIL("count", "wrong number of files to compare must be refused with the usage");
        return;
    }
    if (action == HELP || action == VERSION)
    {
        if (r.status || usage != (action == HELP) || !r.err.empty() || r.viewer || !r.log.empty() || (action == VERSION && r.out.find("version") == S::npos)) FAIL("help", "help or version expected");
        return;
    }
    if (r.status != 0) FAIL("status", "unexpected exit status");
    if (usage) FAIL("usage", "unexpected usage message");

    bool allRead = true, firstRead = true;
    for (size_t i = 0; i < inputs.size(); ++i)
    {
        ref::Val v;
        unsigned w;
        if (!expected(inputs[i].text, fl, v, w)) { allRead = false; if (i == 0) firstRead = false; }
    }
    if (hasCmd)
    {
        std::vector<Seen> runs;
        if (!parseLog(r.log, runs)) FAIL("log", "bad log");
        const bool should = allRead && !cmd.empty() && cmd[0] == helper;
        if (runs.size() != (should ? 1 : 0)) FAIL("command", should ? "command was not run" : "command must not be run");
        if (!r.out.empty() || r.viewer) FAIL("output", "nothing is displayed with an external command");
        if (should)
        {
            // arguments, each {} replaced by all the files
            size_t k = 0;
            for (const S &a : cmd)
                if (a == "{}")
                    for (size_t i = 0; i < inputs.size(); ++i, ++k)
                    {
                        ref::Val v;
                        unsigned w;
                        S msg;
                        size_t pos = 0;
                        expected(inputs[i].text, fl, v, w);
                        if (k >= runs[0].argv.size() || runs[0].kind[k] != 'F') FAIL("argv", "argument is not a file");
                        if (!isDoc(runs[0].content[k], pos, v, fl, msg) || pos != runs[0].content[k].size()) FAIL("content", msg);
                    }
                else if (k >= runs[0].argv.size() || runs[0].argv[k++] != a)
                    FAIL("argv", "wrong argument");
            if (k != runs[0].argv.size()) FAIL("argv", "too many arguments");
        }
        else if (r.err.empty()) FAIL("silent", "failure without a message");
    }
    else if (diff)
    {
        if (r.viewer != allRead) FAIL("diff", allRead ? "comparison was not displayed" : "comparison displayed without all the inputs");
        if (!r.out.empty()) FAIL("output", "unexpected output");
    }
    else if (f.stdoutTty && !fl.compress)
    {
        if (r.viewer != firstRead) FAIL("viewer", firstRead ? "viewer was not started" : "viewer started without a document");
        if (!r.out.empty()) FAIL("output", "unexpected output");
    }
    else
    {
        if (r.viewer) FAIL("viewer", "viewer started although output is redirected");
        const S msg = checkShown(r.out, r.err, inputs, fl);
        if (!msg.empty()) FAIL("output", msg);
    }
    const std::vector<S> left = leftovers();
    for (const S &l : left) unlink(l.c_str());
    if (!left.empty()) FAIL("leftover", "file left behind: " + left[0]);
}

// ---------------------------------------------------------------- P14 inputs

// Documents with a mistake after n characters
static const char SIZED[] = "ewdlcum";
static std::vector<Doc> sizedDocs(char kind, int n)
{
    S t;
    switch (kind)
    {
    case 'e': t = "[\"" + S(n, 'x') + "\",}]"; break;
    case 'w': t = "[\"" + S(n, 'x') + "\",True]"; break;
    case 'd': t = "{\"" + S(n, 'k') + "\":1,\"b\":2,\"" + S(n, 'k') + "\":3}"; break;
    case 'l': t = "[" + S(n, '\n') + "1,\n\"" + S(n, 'y') + "\" x"; break;
    case 'c': t = "[\"" + S(n, 'x') + "\""; break;
    case 'u': t = "[\"" + S(n, 'x') + "\\u12x\"]"; break;
    case 'm': for (int i = 0; i < n / 8; ++i) t += (i ? ",TRUE" : "[TRUE"); t += t.empty() ? "[nulL]" : ",nulL]"; break;
    }
    return {{"a.json", "[0]"}, {"sized.json", t}, {"b.json", "[1.50, {} ,null]"}};
}

static void checkInputs(const S &c)
{
    // case: source ('f'iles, 's'tdin, 'a'rguments, 'x' files then arguments), flags digit, document numbers
    // or '-', kind and size of the documents
    std::vector<Doc> made;
    // or '=', and pairs of name and document
    static const char *const names[] = {"ARGS", "STDIN", "ARGS''", "ARGS'", "a b", "\xc3\xa9", "{}", "a--color=never", "x-W", "b--diff"};
    if (c[2] == '=') for (size_t i = 3; i + 1 < c.size(); i += 2) made.push_back({names[c[i] - '0'], docs()[c[i + 1] - 'A'].text});
    else if (c[2] == '-') made = sizedDocs(c[3], atoi(c.c_str() + 4));
    else for (size_t i = 2; i < c.size(); ++i) made.push_back(docs()[c[i] - 'A']);
    const int fl = c[1] - 'A';
    Flags f;
    f.strict = !(fl & 1); f.ascii = fl & 2; f.sorted = !(fl & 4); f.compress = fl & 8;
    Args args;
    if (!f.strict) args.push_back("-W");
    if (f.ascii) args.push_back("--ascii");
    if (!f.sorted) args.push_back("--keep-order");
    if (f.compress) args.push_back("--compress");
    std::vector<Shown> inputs;
    S in = "[\"not read\"]";
    for (size_t i = 0; i < made.size(); ++i)
    {
        const Doc &d = made[i];
        const bool last = i + 1 == made.size();
        if (c[0] == 's') { inputs.push_back({"STDIN", d.text}); in = d.text; }
        else if (c[0] == 'a' || (c[0] == 'x' && last))
        {
            // cut at white space: arguments are joined by one space
            args.push_back("--");
            S t, joined;
            for (char ch : d.text)
                if (ch == ' ' || ch == '\n') { args.push_back(t); joined += t + " "; t.clear(); }
                else t += ch;
            args.push_back(t);
            joined += t;
            inputs.push_back({"ARGS", joined});
        }
        else
        {
            const S name = c[2] == '=' ? S(d.name) : std::to_string(i + 2) + d.name;
            writeFile(name, d.text);
            args.push_back(name);
            inputs.push_back({name, d.text});
        }
    }
    mc::begin(c);
    mc::distinct(c);
    mc::sh->transitions = mc::sh->transitions + inputs.size();
    const Result r = run(args, in, Faults());
    mc::outcome(r.out + "|" + r.err);
    mc::sample(join(args) + " -> " + r.out.substr(0, 60));
    if (r.status != 0) FAIL("status", "unexpected exit status");
    const S msg = checkShown(r.out, r.err, inputs, f);
    if (!msg.empty()) FAIL("output", msg);
    for (const Shown &s : inputs)
        if (s.name != "STDIN" && s.name != "ARGS" && readFile(s.name) != s.text) FAIL("modified", "input file was modified");
}

// ---------------------------------------------------------------- P15, P16 external command

static const std::vector<S> &cmdWords()
{
    static const std::vector<S> w = {"{}", "-x", "{}{}", "", "{} ", "a b", "--", "-W", "--ascii", "--compress", "--diff", "--diff-cmd", "--help", "a.json", "-", "\\;"};
    return w;
}

// sets of inputs: names (some with the same tail, as long as what a name hash may keep) and documents
struct InputSet { std::vector<Shown> files; };
static const std::vector<InputSet> &inputSets()
{
    static std::vector<InputSet> s;
    if (s.empty())
    {
        S big = "[";
        for (int i = 0; i < 500; ++i) big += "{\"k" + std::to_string(i) + "\":[1,2,\"\\u00e9\"]},";
        big += "0]";
        s = {
            {{{"a.json", docText("a.json")}}},
            {{{"a.json", docText("a.json")}, {"b.json", docText("b.json")}}},
            {{{"one_twenty_six_chars_name.json", "{\"n\":1}"}, {"two_twenty_six_chars_name.json", "{\"n\":2}"}}},
            {{{"b.json", docText("b.json")}, {"./b.json", docText("b.json")}, {"../d/b.json", docText("b.json")}}},
            {{{"warn.json", docText("warn.json")}, {"dup.json", docText("dup.json")}}},
            {{{"big.json", big}, {"str.json", docText("str.json")}}},
            {{{"a.json", docText("a.json")}, {"bad.json", docText("bad.json")}, {"b.json", docText("b.json")}}},
            {{{"cut.json", docText("cut.json")}, {"a.json", docText("a.json")}}},
            {{{"a.json", docText("a.json")}, {"empty.json", ""}}},
            {{{"STDIN", docText("a.json")}}},
            {{{"a.json", docText("a.json")}, {"ARGS", "[4]"}}},
        };
    }
    return s;
}

static S occupied; // a file which must not be touched

static void checkExternal(const S &c, const Args &cmd, int set, int fl, const Faults &faults, bool occupy)
{
    Flags f;
    f.strict = !(fl & 1); f.ascii = fl & 2; f.sorted = !(fl & 4); f.compress = fl & 8;
    Args args;
    if (!f.strict) args.push_back("-W");
    if (f.ascii) args.push_back("--ascii");
    if (!f.sorted) args.push_back("--keep-order");
    if (f.compress) args.push_back("--compress");
    args.push_back("--diff-cmd");
    args.insert(args.end(), cmd.begin(), cmd.end());
    args.push_back(";");
    S in = "[\"not read\"]";
    std::vector<Shown> inputs = inputSets()[set].files;
    for (Shown &s : inputs)
        if (s.name == "STDIN") in = s.text;
        else if (s.name == "ARGS") { args.push_back("--"); args.push_back(s.text); }
        else
        {
            // names of this process: those of temporary files can depend on the end of them
            s.name.insert(s.name.size() - 5, std::to_string(uid));
            writeFile(s.name, s.text);
            args.push_back(s.name);
        }
    mc::begin(c);
    mc::distinct(c);
    Result r;
    std::vector<S> others;
    if (occupy)
    {
        // Whatever the names used by a first run, they belong to someone else in the second one
        r = run(args, in, Faults());
        std::vector<Seen> first;
        parseLog(r.log, first);
        for (const Seen &s : first)
            for (size_t i = 1; i < s.argv.size(); ++i)
                if (s.kind[i] == 'F')
                {
                    // (another explorer can use the same name)
                    const int fd = __real_open(s.argv[i].c_str(), O_WRONLY | O_CREAT | O_EXCL, 0644);
                    if (fd == -1) continue;
                    if (write(fd, "not yours", 9) != 9) _exit(99);
                    close(fd);
                    others.push_back(s.argv[i]);
                }
    }
    r = run(args, in, faults);
    std::vector<S> left = leftovers();
    bool touched = false;
    for (const S &o : others)
    {
        touched = touched || readFile(o) != "not yours";
        unlink(o.c_str());
        left.erase(std::remove(left.begin(), left.end(), o), left.end());
    }
    for (const S &l : left) unlink(l.c_str());
    mc::outcome(std::to_string(r.status) + r.out + "|" + std::to_string(count(r.log, "RUN")) + r.err.substr(0, 60) + std::to_string(set) + std::to_string(fl));
    mc::sample(join(args) + " -> " + std::to_string(r.log.size()) + " bytes seen by the command");

    if (touched) FAIL("overwritten", "a file which existed was overwritten or removed");
    if (r.status >= 1000 || r.err.find("AddressSanitizer") != S::npos || r.err.find("runtime error") != S::npos) FAIL("crash", "crash");
    if (!left.empty()) FAIL("leftover", "file left behind: " + left[0]);
    for (const Shown &s : inputs)
        if (s.name != "STDIN" && s.name != "ARGS" && readFile(s.name) != s.text) FAIL("modified", "input file was modified");
    if (r.viewer || !r.out.empty()) FAIL("output", "nothing is displayed with an external command");

    std::vector<Seen> runs;
    if (!parseLog(r.log, runs)) FAIL("log", "bad log");
    mc::sh->transitions = mc::sh->transitions + 1 + shm->opens + shm->forks + shm->waits + (runs.empty() ? 0 : runs[0].argv.size());
    bool allRead = true;
    std::vector<ref::Val> vals(inputs.size());
    std::vector<unsigned> warnings;
    size_t failedAt = inputs.size();
    long created = 0;
    for (size_t i = 0; i < inputs.size() && allRead; ++i)
    {
        unsigned w = 0;
        if (!expected(inputs[i].text, f, vals[i], w)) { allRead = false; failedAt = i; }
        warnings.push_back(w);
        ++created;
    }
    const bool environment = faults.openAt || faults.forkErrno || faults.fsize >= 0;
    const bool runnable = cmd[0] == helper;
    if (runs.size() > 1) FAIL("twice", "command was run more than once");
    if (!environment && runs.size() != (allRead && runnable ? 1 : 0)) FAIL("command", allRead ? "command was not run" : "command was run without all the inputs");
    if (runs.empty() && r.err.empty()) FAIL("silent", "command was not run, without a message");
    if (!allRead && !runs.empty()) FAIL("command", "command was run without all the inputs");
    if (faults.forkErrno && shm->forks && !runs.empty()) FAIL("command", "command was run although it cannot be");
    if (!environment && allRead && runnable)
    {
        S msg;
        if (!checkStderr(r.err, inputs, inputs.size(), false, warnings, msg)) FAIL("messages", msg);
    }
    if (!environment && !allRead)
    {
        S msg;
        std::vector<unsigned> none(inputs.size(), 0);
        if (count(r.err, "Error: ") + count(r.err, " error while reading") != 1 || r.err.find(inputs[failedAt].name) == S::npos) FAIL("messages", "error about " + inputs[failedAt].name + " expected");
    }
    if (runs.empty())
        return;
    // arguments, each {} replaced by all the files, whose content is the document
    const Seen &s = runs[0];
    size_t k = 0;
    std::set<S> firstGroup;
    std::vector<S> group;
    for (const S &a : cmd)
        if (a == "{}")
        {
            std::vector<S> g;
            for (size_t i = 0; i < inputs.size(); ++i, ++k)
            {
                S msg;
                size_t pos = 0;
                if (k >= s.argv.size() || s.kind[k] != 'F') FAIL("argv", "argument " + std::to_string(k) + " is not a file");
                if (!isDoc(s.content[k], pos, vals[i], f, msg) || pos != s.content[k].size()) FAIL("content", "file of " + inputs[i].name + ": " + msg);
                if (!asciiOk(s.content[k], f, inputs[i].text.find("\\u") != S::npos)) FAIL("content", "unicode escapes of " + inputs[i].name);
                g.push_back(s.argv[k]);
            }
            if (std::set<S>(g.begin(), g.end()).size() != g.size()) FAIL("shared", "two inputs share a file");
            if (!group.empty() && g != group) FAIL("argv", "files are not the same in all places");
            group = g;
        }
        else if (k >= s.argv.size() || s.argv[k++] != a)
            FAIL("argv", "wrong argument " + std::to_string(k));
    if (k != s.argv.size()) FAIL("argv", "wrong number of arguments");
    if (faults.eintr)
        for (size_t i = 0; i < s.again.size(); ++i)
            if (s.kind[i + 1] == 'F' && s.again[i] != '1') FAIL("early", "files were removed before the end of the command");
    if (faults.eintr && s.again.size() + 1 != s.argv.size()) FAIL("early", "did not wait for the end of the command");
}

static void checkExternalCase(const S &c)
{
    // P15: set, flags, occupy, command words
    // P16: set, fault kind, parameters (text)
    if (prop == "P15")
    {
        Args cmd = {helper};
        for (size_t i = 3; i < c.size(); ++i) cmd.push_back(cmdWords()[c[i] - 'A']);
        return checkExternal(c, cmd, c[0] - 'A', c[1] - 'A', Faults(), c[2] == '1');
    }
    Faults f;
    Args cmd = {helper, "{}"};
    int set = c[0] - 'A';
    // list of deviations: letter and number
    size_t p = 1;
    while (p < c.size())
    {
        const char k = c[p++];
        const long n = strtol(c.c_str() + p, nullptr, 10);
        while (p < c.size() && (isdigit((unsigned char) c[p]) || c[p] == '-')) ++p;
        static const int errs[] = {EACCES, ENOSPC, EMFILE, ENOENT, EINTR, EROFS};
        switch (k)
        {
        case 'o': f.openAt = 1 + n / 6; f.openErrno = errs[n % 6]; break;
        case 'O': f.openAt = 1 + n / 6; f.openErrno = errs[n % 6]; f.openCount = 1 << 30; break;
        case 'E': f.openAt = 1; f.openErrno = EEXIST; f.openCount = n; break;
        case 'f': f.forkErrno = n ? ENOMEM : EAGAIN; break;
        case 'i': f.eintr = n; break;
        case 'w': f.waitErrno = n ? EINVAL : ECHILD; break;
        case 's': f.fsize = n; break;
        case 'k': f.kill = n; break;
        case 'x': f.exitCode = n; break;
        case 'c': cmd[0] = n == 0 ? S("./nowhere") : n == 1 ? S("a.json") : n == 2 ? S("/") : n == 3 ? S("nosuchcommandatall") : S("{}"); break;
        }
    }
    checkExternal(c, cmd, set, 0, f, false);
}

// ---------------------------------------------------------------- enumeration

static void check(const S &c)
{
    setup();
    for (const Doc &d : docs()) writeFile(d.name, d.text);
    if (prop == "P13") checkCommandLine(c);
    else if (prop == "P14") checkInputs(c);
    else checkExternalCase(c);
}

static std::vector<S> units()
{
    std::vector<S> r;
    if (prop == "P13")
    {
        for (char tty : S("01"))
            for (size_t i = 0; i < words().size(); ++i)
                for (size_t j = 0; j < words().size(); ++j)
                    r.push_back(S(1, tty) + (char) ('A' + i) + (char) ('A' + j));
        r.push_back("2");
        for (size_t i = 0; i < inString().size(); ++i) r.push_back(S("2") + (char) ('A' + i));
        for (size_t i = 0; i < inCommand().size(); ++i) r.push_back(S("3") + (char) ('A' + i));
        for (char k : S("0123")) r.push_back(S("4") + k);
        for (char tty : S("01")) for (int flags = 0; flags < 32; ++flags) r.push_back(S("5") + tty + (char) ('0' + flags));
    }
    else if (prop == "P14")
    {
        for (int f = 0; f < 16; ++f)
            for (size_t i = 0; i < docs().size(); ++i)
                for (char s : S("fsax"))
                    r.push_back(S(1, s) + (char) ('A' + f) + (char) ('A' + i));
        for (char k : S(SIZED)) for (int n = 0; n < 160; n += 8) r.push_back(S("-") + k + std::to_string(n));
        for (char n : S("0123456789")) for (char d : S("ACD")) r.push_back(S("=") + n + d);
    }
    else if (prop == "P15")
    {
        for (size_t s = 0; s < inputSets().size(); ++s)
            for (int f = 0; f < 16; ++f)
                for (char o : S("01"))
                    r.push_back(S(1, 'A' + s) + (char) ('A' + f) + o);
    }
    else
        for (size_t s = 0; s < inputSets().size(); ++s)
            for (int part = 0; part < 8; ++part)
                r.push_back(S(1, 'A' + s) + std::to_string(part));
    return r;
}

static void explore(const S &c, const std::function<size_t(size_t)> &width, size_t depth)
{
    check(c);
    if (!depth) return;
    for (size_t i = 0; i < width(c.size()); ++i)
        explore(c + (char) ('A' + i), width, depth - 1);
}

static void runUnit(const S &u)
{
    setup();
    if (prop == "P13" && u[0] == '2')
    {
        if (u.size() == 1) check(u);
        else explore(u, [&](size_t) { return inString().size(); }, thorough() ? 3 : 2);
    }
    else if (prop == "P13" && u[0] == '3') explore(u, [&](size_t) { return inCommand().size(); }, thorough() ? 2 : 1);
    else if (prop == "P13" && u[0] == '4') for (size_t i = 0; i < unknown().size(); ++i) check(u + (char) ('A' + i));
    else if (prop == "P13" && u[0] == '5')
    {
        for (char files : S("012345")) for (char at : S("smen")) for (char string : S("01"))
        {
            if (at == 'm' && files == '0') continue;
            check(u + files + at + "00" + string);
            if (files > '2' && !thorough()) continue;
            for (char n : S("123456")) for (char twice : S("01")) if (thorough() || (u[2] == '0' && (n < '5' || at == 'n')) || (n == '3' && at == 'n')) check(u + files + at + n + twice + string);
        }
    }
    else if (prop == "P13")
    {
        if (u[1] == 'A')
        {
            // short command lines, once
            if (u[2] == 'A') check(u.substr(0, 1));
            check(u.substr(0, 1) + u[2]);
        }
        check(u);
        const size_t n = words().size(), shorter = thorough() ? n : 14;
        for (size_t i = 0; i < (u[0] == '1' && !thorough() ? 12 : n); ++i)
        {
            check(u + (char) ('A' + i));
            // longer ones, with the first words
            if (u[1] < (char) ('A' + shorter) && u[2] < (char) ('A' + shorter) && i < shorter && (thorough() || (u[1] == (char) ('A' + 10) && u[0] == '0') || (u[1] == (char) ('A' + 3) && u[0] == '1' && i > 3 && i < 9)))
                for (size_t j = 0; j < shorter; ++j)
                    check(u + (char) ('A' + i) + (char) ('A' + j));
        }
    }
    else if (prop == "P14" && u[0] == '-')
        for (int n = atoi(u.c_str() + 2), i = 0; i < 8; ++i)
            for (char s : S("fx"))
                for (char f : S(thorough() ? "ABEFIJMN" : "AB"))
                    check(S(1, s) + f + "-" + u[1] + std::to_string(n + i));
    else if (prop == "P14" && u[0] == '=')
    {
        std::function<void(const S &, int)> rec = [&](const S &k, int more)
        {
            for (char f : S("AB")) { check(S("f") + f + "=" + k); if (k.size() == 4) for (char d : S("ACD")) check(S("x") + f + "=" + k + "0" + d); }
            for (char n : S("0123456789"))
            {
                bool used = false;
                for (size_t i = 0; i < k.size(); i += 2) used |= k[i] == n;
                if (more && !used) for (char d : S("ACD")) rec(k + n + d, more - 1);
            }
        };
        rec(u.substr(1), thorough() ? 2 : 1);
        for (char d : S("ACD")) for (char f : S("AB")) check(S("x") + f + "=" + u.substr(1) + "0" + d);
    }
    else if (prop == "P14")
    {
        const size_t n = docs().size();
        const int extra = u[0] == 's' || u[0] == 'a' ? 0 : thorough() ? 3 : (u[1] - 'A') % 3 == 0 ? 2 : 1;
        explore(u, [&](size_t) { return n; }, extra);
    }
    else if (prop == "P15")
    {
        const int depth = thorough() ? 4 : u[2] == '1' || u[0] == 'F' ? 1 : u[1] == 'A' ? 3 : (u[1] - 'A') % 5 == 0 ? 2 : 1;
        if (u[2] == '1') check(u + 'A');
        // all the words for two files without options, the first ones in the other cases
        const bool more = u == "BA0" || (thorough() && u[1] == 'A' && u[2] == '0');
        explore(u, [&](size_t) { return more ? cmdWords().size() : 6; }, depth);
    }
    else
    {
        const S set = u.substr(0, 1);
        const int part = u[1] - '0';
        std::vector<S> dev;
        for (int i = 0; i < 24; ++i) { dev.push_back("o" + std::to_string(i)); dev.push_back("O" + std::to_string(i)); }
        for (int i : {1, 2, 5, 999, 1000, 1001, 5000}) dev.push_back("E" + std::to_string(i));
        for (int i : {0, 1}) dev.push_back("f" + std::to_string(i));
        for (int i : {1, 2, 3, 50}) dev.push_back("i" + std::to_string(i));
        for (int i : {0, 1}) dev.push_back("w" + std::to_string(i));
        for (int i : {SIGKILL, SIGTERM, SIGSEGV, SIGABRT, SIGHUP}) dev.push_back("k" + std::to_string(i));
        for (int i : {1, 2, 127, 255}) dev.push_back("x" + std::to_string(i));
        for (int i : {0, 1, 2, 3, 4}) dev.push_back("c" + std::to_string(i));
        const long max = u[0] == 'F' ? 40000 : 200;
        for (long i = 0; i < max; i += u[0] == 'F' ? (thorough() ? 127 : 2047) : (thorough() ? 1 : 3)) dev.push_back("s" + std::to_string(i));
        for (size_t i = 0; i < dev.size(); ++i)
        {
            if ((int) (i % 8) != part) continue;
            check(set + dev[i]);
            // two deviations
            for (size_t j = 0; j < dev.size(); ++j)
                if (dev[j][0] != dev[i][0] && (thorough() || (dev[i][0] != 's' && dev[j][0] != 's' && dev[i][0] != 'O' && dev[j][0] != 'O' && j % 3 == i % 3 && i < j)))
                    check(set + dev[i] + dev[j]);
        }
    }
}

int main(int argc, char **argv)
{
    mc::Harness h;
    h.units = units;
    h.run = [](const S &u) { runUnit(u); cleanup(); };
    h.replay = [](const S &c) { check(c); cleanup(); };
    return mc::harnessMain(argc, argv, h);
}
