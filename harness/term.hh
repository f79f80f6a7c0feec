// A terminal under control: the real ncurses writes to a file nobody reads, what is displayed is read back from
// ncurses' idea of the physical screen each time the program waits for a key, and the keys, signals and sizes of the
// terminal come from the harness.
#pragma once
#include <ncurses.h>
#undef OK
#undef timeout
#include <deque>
#include <errno.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <string>
#include <sys/ioctl.h>
#include <vector>

namespace term {

struct Cell
{
    char32_t ch = ' ';
    bool reverse = false;
    short pair = 0;
};

std::string utf8(char32_t);

struct Screen
{
    int h = 0, w = 0;
    std::vector<Cell> cells;
    const Cell &at(int y, int x) const { return cells[y * w + x]; }
    std::string row(int y) const
    {
        std::string r;
        for (int x = 0; x < w; ++x) r += utf8(at(y, x).ch);
        return r;
    }
    std::string dump() const
    {
        std::string r;
        for (int y = 0; y < h; ++y)
        {
            bool rev = false;
            for (int x = 0; x < w; ++x)
            {
                if (at(y, x).reverse != rev) { r += rev ? ">>" : "<<"; rev = !rev; }
                r += utf8(at(y, x).ch);
            }
            if (rev) r += ">>";
            r += "|\n";
        }
        return r;
    }
    uint64_t hash() const
    {
        uint64_t h = 1469598103934665603ULL ^ w;
        for (const Cell &c : cells) h = (h ^ (c.ch | (uint64_t) c.reverse << 32 | (uint64_t) c.pair << 34)) * 1099511628211ULL;
        return h ^ (h >> 29);
    }
};

extern int rows, cols;          // size of the terminal
extern bool failTerm;           // newterm() fails
extern bool tty[3];              // which of the standard streams are a terminal
extern bool noTty;              // /dev/tty cannot be opened
extern FILE *openedTty;         // what was opened instead of it
extern void (*onStart)(FILE *, FILE *); // a viewer takes the terminal
extern unsigned ended;          // number of times the terminal was given back
// Called when the program waits for a key: returns it, or ERR. May raise signals.
extern int (*onWait)(WINDOW *);

extern bool everyCall;          // also those which prepare the terminal, or give it back
// Called at each call to the terminal library (but those which wait for a key)
void onCall();
Screen capture();
// Run f() with this terminal size
void setSize(int r, int c);
}
