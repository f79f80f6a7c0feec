// Exploration runtime shared by all harnesses.
// A harness enumerates a finite set of work units; each unit explores a subtree of cases and is run in a forked
// child, so that a crash, sanitizer report or hang of the code under test is observed (with the case that caused it)
// instead of ending the exploration.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace mc {

static const size_t CASE_MAX = 1 << 16;
static const size_t SET_BITS = 1 << 22; // distinct outcome estimation (bitmap of hashes)

struct Shared
{
    volatile uint64_t execs;        // executions of the real code
    volatile uint64_t transitions;  // steps compared with the reference
    volatile uint64_t states;       // distinct states (explicit-state harnesses)
    volatile uint64_t validated;    // executions whose whole outcome was compared with the reference
    volatile uint64_t nontrivial;
    volatile uint64_t caselen;
    volatile uint64_t violations;
    char current[CASE_MAX];
    unsigned char outcomes[SET_BITS / 8];
};

extern Shared *sh;
extern std::string prop, tier, outDir;
extern FILE *vioFile, *sampleFile;
extern uint64_t nbSamples;
extern bool replaying;

inline uint64_t hashStr(const std::string &s)
{
    uint64_t h = 1469598103934665603ULL;
    for (unsigned char c : s)
        h = (h ^ c) * 1099511628211ULL;
    return h ^ (h >> 29);
}

inline std::string hex(const std::string &s)
{
    static const char *d = "0123456789abcdef";
    std::string r;
    for (unsigned char c : s)
        (r += d[c >> 4]) += d[c & 15];
    return r;
}

inline std::string unhex(const std::string &s)
{
    std::string r;
    for (size_t i = 0; i + 1 < s.size(); i += 2)
        r += (char) strtol(s.substr(i, 2).c_str(), nullptr, 16);
    return r;
}

inline std::string printable(const std::string &s)
{
    std::string r;
    char b[8];
    for (unsigned char c : s)
        if (c >= 32 && c < 127)
            r += c;
        else
        {
            snprintf(b, sizeof b, "\\x%02x", c);
            r += b;
        }
    return r;
}

// Announce the case about to be executed (so that a crash can be attributed)
inline void begin(const std::string &c)
{
    size_t n = c.size() < CASE_MAX ? c.size() : CASE_MAX;
    memcpy(sh->current, c.data(), n);
    sh->caselen = n;
    sh->execs = sh->execs + 1;
}

// Count the distinct states visited by a unit
inline bool distinct(const std::string &state)
{
    static std::unordered_set<uint64_t> seen;
    if (!seen.insert(hashStr(state)).second)
        return false;
    sh->states = sh->states + 1;
    return true;
}

inline void outcome(const std::string &o)
{
    uint64_t h = hashStr(o) % SET_BITS;
    if (!(sh->outcomes[h >> 3] & (1 << (h & 7))))
    {
        sh->outcomes[h >> 3] |= 1 << (h & 7);
        sh->nontrivial = sh->nontrivial + 1;
    }
}

inline void sample(const std::string &s)
{
    if (nbSamples < 3 && sampleFile)
    {
        nbSamples++;
        fprintf(sampleFile, "%s\n", printable(s).c_str());
        fflush(sampleFile);
    }
}

struct StopUnit {};

// Report a violation: `key` identifies the failing input (used by the known findings file)
inline void violation(const std::string &caseStr, const std::string &key, const std::string &msg)
{
    fprintf(vioFile, "%s\t%s\t%s\n", hex(caseStr).c_str(), printable(key).c_str(), printable(msg).c_str());
    fflush(vioFile);
    sh->violations = sh->violations + 1;
    if (sh->violations >= 5)
        _exit(0);
}

struct Harness
{
    // Names of the work units for this property and tier
    std::function<std::vector<std::string>()> units;
    // Explore a unit
    std::function<void(const std::string &)> run;
    // Execute a single case again
    std::function<void(const std::string &)> replay;
};

int harnessMain(int argc, char **argv, const Harness &);

} // namespace mc
