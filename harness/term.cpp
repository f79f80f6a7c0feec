#include "term.hh"
#include <locale.h>
#include <string.h>
#include <wchar.h>

static bool inside; // our own calls

namespace term {
int rows = 24, cols = 80;
bool failTerm;
unsigned ended;
bool tty[3] = {true, true, true};
bool noTty;
FILE *openedTty;
void (*onStart)(FILE *, FILE *);
int (*onWait)(WINDOW *);
bool everyCall;

void setSize(int r, int c) { rows = r; cols = c; }

std::string utf8(char32_t c)
{
    std::string s;
    if (c < 0x80) s += (char) c;
    else if (c < 0x800) { s += (char) (0xC0 | c >> 6); s += (char) (0x80 | (c & 63)); }
    else if (c < 0x10000) { s += (char) (0xE0 | c >> 12); s += (char) (0x80 | ((c >> 6) & 63)); s += (char) (0x80 | (c & 63)); }
    else { s += (char) (0xF0 | c >> 18); s += (char) (0x80 | ((c >> 12) & 63)); s += (char) (0x80 | ((c >> 6) & 63)); s += (char) (0x80 | (c & 63)); }
    return s;
}

Screen capture()
{
    Screen s;
    int cy, cx;
    getyx(curscr, cy, cx);
    getmaxyx(curscr, s.h, s.w);
    s.cells.resize(s.h * s.w);
    static std::vector<cchar_t> line;
    line.resize(s.w + 1);
    for (int y = 0; y < s.h; ++y)
    {
        mvwin_wchnstr(curscr, y, 0, line.data(), s.w);
        for (int x = 0; x < s.w; ++x)
        {
            Cell &c = s.cells[y * s.w + x];
            c.ch = line[x].chars[0] ? line[x].chars[0] : U' ';
            if (line[x].attr & A_ALTCHARSET) c.ch = c.ch == 'q' ? 0x2500 : c.ch == 'x' ? 0x2502 : 0x253c; // a frame
            c.reverse = line[x].attr & A_REVERSE;
            c.pair = line[x].ext_color;
        }
    }
    wmove(curscr, cy, cx);
    return s;
}
}

extern "C" FILE *__real_fopen(const char *, const char *);
static FILE *nowhere()
{
    return __real_fopen("/dev/null", "r+");
}

extern "C" {
SCREEN *__real_newterm(const char *, FILE *, FILE *);
static FILE *termIn, *termOut;
SCREEN *__wrap_newterm(const char *, FILE *out, FILE *in)
{
    if (term::onStart) term::onStart(out, in);
    if (term::failTerm) return nullptr;
    if (!termIn) { termIn = nowhere(); termOut = nowhere(); }
    use_env(FALSE);
    SCREEN *s = __real_newterm("xterm", termOut, termIn);
    if (s) resize_term(term::rows, term::cols);
    if (s && term::everyCall) term::onCall();
    return s;
}
int __wrap_ioctl(int, unsigned long req, ...)
{
    va_list l;
    va_start(l, req);
    struct winsize *w = va_arg(l, struct winsize *);
    va_end(l);
    if (req != TIOCGWINSZ || term::rows < 0) { errno = ENOTTY; return -1; }
    w->ws_row = term::rows;
    w->ws_col = term::cols;
    return 0;
}
int __wrap_isatty(int fd) { return fd >= 0 && fd < 3 ? term::tty[fd] : 1; }
FILE *__wrap_fopen(const char *p, const char *m)
{
    if (strcmp(p, "/dev/tty")) return __real_fopen(p, m);
    if (term::noTty) { errno = ENXIO; return nullptr; }
    return term::openedTty = __real_fopen("/dev/null", m);
}
int __wrap_wgetch(WINDOW *w)
{
    // As the real one: the window is refreshed first
    inside = true;
    if (w && is_wintouched(w)) wrefresh(w);
    inside = false;
    return term::onWait(w);
}
int __real_wmove(WINDOW *, int, int);
int __wrap_wmove(WINDOW *w, int y, int x) { if (!inside) term::onCall(); return __real_wmove(w, y, x); }
int __real_wclear(WINDOW *);
int __wrap_wclear(WINDOW *w) { if (!inside) term::onCall(); return __real_wclear(w); }
int __real_wrefresh(WINDOW *);
int __wrap_wrefresh(WINDOW *w) { if (!inside) term::onCall(); return __real_wrefresh(w); }
int __wrap_printw(const char *f, ...)
{
    if (!inside) term::onCall();
    va_list l;
    va_start(l, f);
    const int r = vw_printw(stdscr, f, l);
    va_end(l);
    return r;
}
int __wrap_mvprintw(int y, int x, const char *f, ...)
{
    if (!inside) term::onCall();
    if (__real_wmove(stdscr, y, x) == ERR) return ERR;
    va_list l;
    va_start(l, f);
    const int r = vw_printw(stdscr, f, l);
    va_end(l);
    return r;
}
int __real_endwin();
int __wrap_endwin() { if (!inside) term::onCall(); term::ended++; return __real_endwin(); }
int __real_cbreak();
int __wrap_cbreak() { if (term::everyCall) term::onCall(); return __real_cbreak(); }
int __real_curs_set(int);
int __wrap_curs_set(int v) { if (term::everyCall) term::onCall(); return __real_curs_set(v); }
int __real_init_pair(short, short, short);
int __wrap_init_pair(short p, short f, short b) { if (term::everyCall) term::onCall(); return __real_init_pair(p, f, b); }
void __real_delscreen(SCREEN *);
void __wrap_delscreen(SCREEN *s) { if (term::everyCall) term::onCall(); __real_delscreen(s); }
}
