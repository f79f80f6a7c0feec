// Access to the code under test: reading an input, extracting the tree, building program parameters.
#pragma once
#include <istream>
#include <memory>
#include <sstream>
#include "streamConsumer.hh"
#include "simpleOutput.hh"
#include "jsonObject.hh"
#include "jsonArray.hh"
#include "jsonObjectEntry.hh"
#include "jsonPrimitive.hh"
#include "jsonException.hh"
#include "params.hh"
#include "refjson.hh"

namespace impl {

// Byte source which knows how much has been consumed
class Source: public std::streambuf
{
    const std::string &s;
    size_t pos = 0;
    char ch = 0;

public:
    explicit Source(const std::string &str): s(str) {}
    size_t consumed() const { return pos; }

protected:
    int_type underflow() override { return pos < s.size() ? traits_type::to_int_type(s[pos]) : traits_type::eof(); }
    int_type uflow() override { return pos < s.size() ? traits_type::to_int_type(s[pos++]) : traits_type::eof(); }
    int_type pbackfail(int_type c) override
    {
        if (pos == 0)
            return traits_type::eof();
        --pos;
        return traits_type::eq_int_type(c, traits_type::eof()) ? traits_type::to_int_type(s[pos]) : c;
    }
    std::streamsize showmanyc() override { return s.size() - pos; }
    pos_type seekoff(off_type off, std::ios_base::seekdir d, std::ios_base::openmode) override
    {
        off_type base = d == std::ios_base::beg ? 0 : d == std::ios_base::cur ? (off_type) pos : (off_type) s.size();
        if (base + off < 0 || base + off > (off_type) s.size())
            return pos_type(off_type(-1));
        pos = base + off;
        return pos_type(off_type(pos));
    }
    pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }
};

struct Config: public AParams
{
    bool ascii = false, strict = true, color = false, sorted = true;
    bool isIgnoringUnicode() const { return ascii; }
    bool isStrict() const { return strict; }
    bool colorEnabled() const { return color; }
    bool sortObjects() const { return sorted; }
};

inline bool extract(const JSonElement *e, ref::Val &v, std::string &err)
{
    if (!e) { err = "null element"; return false; }
    if (const JSonObject *o = dynamic_cast<const JSonObject *>(e))
    {
        v.t = ref::Val::OBJ;
        for (const JSonElement *c : *o)
        {
            const JSonObjectEntry *ent = dynamic_cast<const JSonObjectEntry *>(c);
            if (!ent) { err = "child of an object is not an entry"; return false; }
            ref::Val child;
            if (!extract(**ent, child, err)) return false;
            v.rawKeys.push_back(ent->stringify());
            v.obj.emplace_back(ref::decodeStored(ent->stringify()), child);
        }
    }
    else if (const JSonArray *a = dynamic_cast<const JSonArray *>(e))
    {
        v.t = ref::Val::ARR;
        for (const JSonElement *c : *a)
        {
            v.arr.emplace_back();
            if (!extract(c, v.arr.back(), err)) return false;
        }
    }
    else if (auto s = dynamic_cast<const JSonPrimitive<std::string> *>(e))
    {
        v.t = ref::Val::STR;
        v.raw = s->stringify();
        v.s = ref::decodeStored(v.raw);
        if (s->getValue() != v.raw) { err = "string: value and text differ"; return false; }
    }
    else if (auto b = dynamic_cast<const JSonPrimitive<bool> *>(e))
    {
        v.t = ref::Val::BOOL;
        v.b = b->getValue();
        if (b->stringify() != (v.b ? "true" : "false")) { err = "bool: value and text differ"; return false; }
    }
    else if (dynamic_cast<const JSonPrimitive<Null> *>(e))
    {
        v.t = ref::Val::NUL;
        if (e->stringify() != "null") { err = "null: wrong text"; return false; }
    }
    else
    {
        v.t = ref::Val::NUM;
        v.s = e->stringify();
        double d;
        if (auto i = dynamic_cast<const JSonPrimitive<int> *>(e)) d = i->getValue();
        else if (auto l = dynamic_cast<const JSonPrimitive<long long> *>(e)) d = l->getValue();
        else if (auto f = dynamic_cast<const JSonPrimitive<double> *>(e)) d = f->getValue();
        else { err = "unknown kind of element"; return false; }
        double want = strtod(v.s.c_str(), nullptr);
        if (std::isinf(want)) want = want > 0 ? std::numeric_limits<double>::max() : -std::numeric_limits<double>::max();
        if (std::isinf(d)) d = d > 0 ? std::numeric_limits<double>::max() : -std::numeric_limits<double>::max();
        if (d != want) { err = "number: value and text differ"; return false; }
    }
    return true;
}

struct Outcome
{
    enum Kind { TREE, NO_ROOT, JSON_ERROR, EOF_ERROR, OTHER } kind = OTHER;
    std::string what, excerpt;
    unsigned line = 0, col = 0;
    size_t consumed = 0;
    struct Warn { std::string what, excerpt; unsigned line, col; };
    std::vector<Warn> warnings;
    std::unique_ptr<StreamConsumer> consumer;
    const JSonElement *root = nullptr;
};

inline void read(const std::string &in, const AParams *cfg, Outcome &o)
{
    Source src(in);
    std::istream is(&src);
    o.consumer.reset(new StreamConsumer(is));
    o.consumer->withConfig(cfg);
    try
    {
        o.consumer->read();
        o.root = o.consumer->getRoot();
        o.kind = o.root ? Outcome::TREE : Outcome::NO_ROOT;
    }
    catch (JsonException &e)
    {
        o.kind = Outcome::JSON_ERROR;
        o.what = e.what();
        o.excerpt = e.getHistory();
        o.line = e.currentLine();
        o.col = e.currentCol();
    }
    catch (EofException &e)
    {
        o.kind = Outcome::EOF_ERROR;
    }
    catch (std::exception &e)
    {
        o.kind = Outcome::OTHER;
        o.what = e.what();
    }
    o.consumed = src.consumed();
    for (const Warning &w : o.consumer->getMessages())
        o.warnings.push_back({w().what(), w().getHistory(), w().currentLine(), w().currentCol()});
}

// Position described by (line, column, excerpt) after having read a prefix of the input
struct Pos
{
    unsigned line = 1, col = 0;
    std::string excerpt;
    // The excerpt may lack one character: the reader gives back the one it has read ahead
    bool is(unsigned l, unsigned c, const std::string &e) const
    { return line == l && col == c && (excerpt == e || (excerpt.size() == 45 && excerpt.compare(1, 44, e) == 0)); }
};

inline Pos position(const std::string &in, size_t n, size_t maxExcerpt = 45)
{
    Pos p;
    std::string line;
    for (size_t i = 0; i < n; ++i)
    {
        const bool end = in[i] == '\n' || in[i] == '\r';
        if (!end)
        {
            line += in[i];
            continue;
        }
        // CR LF is only one line ending
        size_t last = i;
        if (in[i] == '\r' && i + 1 < n && in[i + 1] == '\n')
            last = i + 1;
        if (last + 1 >= n) // nothing read on the next line yet: still on the line which ends here
            break;
        p.line++;
        line.clear();
        i = last;
    }
    p.col = line.size();
    p.excerpt = line.size() > maxExcerpt ? line.substr(line.size() - maxExcerpt) : line;
    return p;
}

// The positions of all the prefixes of an input, in order: position(in, p) for each p, without starting again
struct Walker
{
    const std::string &in;
    size_t p = 0, start = 0, contentEnd = 0;
    unsigned ends = 0; // characters of the end of line which was read last, if nothing follows
    unsigned line = 1;
    explicit Walker(const std::string &i): in(i) { }
    void next()
    {
        const char c = in[p];
        if (ends == 1 && c == '\n' && in[p - 1] == '\r') { ends = 2; ++p; return; }
        if (ends) { line++; start = p; ends = 0; }
        if (c == '\n' || c == '\r') { ends = 1; contentEnd = p; }
        ++p;
    }
    Pos pos() const
    {
        Pos r;
        r.line = line;
        r.col = (ends ? contentEnd : p) - start;
        r.excerpt = r.col > 45 ? in.substr(start + r.col - 45, 45) : in.substr(start, r.col);
        return r;
    }
    bool is(unsigned l, unsigned col, const std::string &excerpt) const
    {
        return l == line && col == (ends ? contentEnd : p) - start && pos().is(l, col, excerpt);
    }
};

} // namespace impl
