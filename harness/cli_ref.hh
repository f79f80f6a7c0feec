// Messages of the program about its inputs.
#pragma once
#include <string>
#include <vector>

typedef std::string S;

static size_t count(const S &s, const S &what)
{
    size_t n = 0;
    for (size_t p = 0; (p = s.find(what, p)) != S::npos; p += what.size()) ++n;
    return n;
}

// Inputs displayed one after the other, stopping at the first which cannot be read
struct Shown { S name, text; };

static bool checkStderr(const S &err, const std::vector<Shown> &inputs, size_t upTo, bool failed, const std::vector<unsigned> &warnings, S &msg)
{
    // the failing input is the only one with an error
    const size_t nbErr = count(err, "Error: ") + count(err, " error while reading");
    if (nbErr != (failed ? 1 : 0)) { msg = std::to_string(nbErr) + " errors reported"; return false; }
    if (failed)
    {
        size_t p = err.find("Error: ");
        if (p == S::npos) p = 0; // end of file
        const size_t e = err.find('\n', p);
        if (err.substr(p, e - p).find(inputs[upTo].name) == S::npos) { msg = "error does not name " + inputs[upTo].name; return false; }
    }
    size_t total = 0, p = 0;
    for (size_t i = 0; i < upTo; ++i)
        for (unsigned w = 0; w < warnings[i]; ++w, ++total)
        {
            p = err.find("Warning: ", p);
            if (p == S::npos) { msg = "missing warning about " + inputs[i].name; return false; }
            const size_t e = err.find('\n', p);
            if (err.substr(p, e - p).find(inputs[i].name) == S::npos) { msg = "warning does not name " + inputs[i].name; return false; }
            p = e;
        }
    if (count(err, "Warning: ") != total) { msg = "unexpected warning"; return false; }
    // each message is followed by the excerpt, and a mark below its last character
    for (p = 0; (p = err.find(") while reading\n", p)) != S::npos; )
    {
        p = err.find('\n', p) + 1;
        size_t e = err.find('\n', p);
        if (e == S::npos) { msg = "no excerpt"; return false; }
        const size_t len = e - p;
        const size_t m = e + 1;
        size_t me = err.find('\n', m);
        if (me == S::npos) { msg = "no mark"; return false; }
        const S mark = err.substr(m, me - m);
        if (mark != S(len ? len - 1 : 0, '~') + "^") { msg = "mark is not below the end of the excerpt"; return false; }
        p = me;
    }
    return true;
}
