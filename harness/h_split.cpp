// The viewer of the comparison of two documents.
#include "split.hh"

void term::onCall() { onCallOf<SplitView>(); }

// ---------------------------------------------------------------- spaces

static const std::vector<std::pair<S, S>> &special()
{
    static const std::vector<std::pair<S, S>> v = {
        {"[]", "[]"}, {"{}", "[]"}, {"1", "1"}, {"1", "2"}, {"1", "\"x\""}, {"1", "[1]"}, {"[[1],2]", "[1,2]"}, {"[1,2]", "[[1],2]"},
        {"{\"a\":1,\"b\":2}", "{\"a\":[1],\"b\":2}"}, {"{\"a\":[1],\"b\":2}", "{\"a\":[2],\"b\":2}"}, {"{\"a\":[1,2],\"b\":2}", "{\"a\":[1,3],\"b\":2}"},
        {"{\"a\":[1,[2,3],{\"x\":1}],\"b\":{\"y\":[4]}}", "{\"a\":[1,[2,5],{\"x\":1,\"z\":2}],\"b\":{\"y\":[4,6]}}"},
        {"[1,2,3,4,5,6,7,8,9,10]", "[1,2,3,11,12,4,5,7,8,9,10]"}, {"[1,2,3,4,5,6,7,8,9,10]", "[10,9,8]"},
        {"[\"0123456789abcdef0123456789abcdef0123456789\",1,2]", "[\"0123456789abcdef0123456789abcdef0123\",1,3,2]"},
        {"{\"a\":{\"b\":{\"c\":{\"d\":1}}}}", "{\"a\":{\"b\":{\"c\":{\"d\":2}}},\"e\":1}"},
        {"{\"k1\":\"abcdefghij\",\"k2\":\"x\"}", "{\"k1\":\"abcdefghiX\",\"k3\":\"x\"}"},
        {"[[],{},[1]]", "[[],[],{}]"}, {"[{\"a\":1,\"b\":2},{\"a\":3}]", "[{\"a\":1,\"b\":3},{\"a\":3,\"c\":[]}]"},
        {"{\"\xc3\xa9\":\"\xe2\x82\xac\xc3\xa9\"}", "{\"\xc3\xa9\":\"\xe2\x82\xac\xc3\xa8\",\"z\":null}"},
        {"[12345678901,1.5,7,false]", "[12345678902,1.5,8,false]"},
        {"{\"long-key-0123456789-0123456789\":[1,2],\"z\":1}", "{\"long-key-0123456789-0123456789\":[1,3],\"z\":true}"},
    };
    return v;
}

// Texts which differ, but are matched, and have not the same number of lines
static std::vector<S> wrapped()
{
    std::vector<S> r;
    auto text = [](int n, char last) { S t; for (int i = 0; i < n - 1; ++i) t += (char) ('a' + i % 26); return t + last; };
    for (int n = 7; n <= 34; n += 1)
        for (int more : {0, 1, 2, 3, 5, 7})
        {
            const S a = "[1,\"" + text(n, 'Y') + "\",[2],{\"a\":3}]", b = "[1,\"" + text(n + more, 'Z') + "\",[2],{\"a\":4}]";
            r.push_back(a + RS + b);
            if (more) r.push_back(b + RS + a);
            if (thorough() || n % 3 == 0) r.push_back("{\"k" + text(n, 'Y') + "\":true,\"z\":[0]}" + RS + "{\"k" + text(n + more, 'Y') + "\":true,\"z\":[0]}");
        }
    return r;
}

// All pairs of documents of up to n values
static std::vector<S> pairs(int n)
{
    std::vector<S> r;
    // texts of the second document: as the first one, or another value
    for (const S &a : shapes(n))
        for (const S &b : shapes(n))
        {
            r.push_back(document(a, 0) + RS + document(b, 0));
        }
    return r;
}

static std::vector<Job> jobs()
{
    std::vector<Job> r;
    const int depth = thorough() ? 4 : 3;
    if (prop == "P28")
    {
        for (const S &p : pairs(depth)) { addJob(r, p, "c", 12, 60, each("\x02\x06")); addJob(r, p, "", 6, 24, each("\x02\x06")); }
        for (const S &p : wrapped()) for (int cols : {20, 27, 44}) { addJob(r, p, cols == 27 ? "c" : "", 12, cols, each("\x02")); r.back().prefix = ""; }
        for (int n = 1; n < (thorough() ? 260 : 132); n += n < 70 || thorough() ? 1 : 3) for (const char *ch : {"x", "\xc3\xa9", "\xe2\x82\xac"})
        {
            S t, k;
            for (int i = 0; i < n; ++i) { t += i % 10 == 9 ? S("-") : S(ch); if (i < n / 2) k += ch; }
            addJob(r, "[\"" + t + "\",{\"" + k + "\":\"" + t + "\",\"z" + t + "\":[]}]" + RS + "[\"" + t + (n % 3 ? "" : ch) + "\",{\"" + k + "\":\"" + t + "\",\"z" + t + (n % 2 ? "" : "y") + "\":[]}]", n % 2 ? "c" : "", 12 + n / 10, 43, each("\x02"));
            r.back().prefix = "";
        }
        for (const auto &p : special()) for (int rows : {4, 5, 8, 24}) for (int cols : {20, 31, 60}) addJob(r, p.first + RS + p.second, cols == 60 ? "c" : rows == 5 ? "k" : "", rows, cols, Keys{"\x17w"} + each("\x02\x03\x06"));
    }
    else if (prop == "P29")
    {
        for (const S &p : pairs(2)) addJob(r, p, "", 8, 40, Keys{"\x17w", "\x17l", "\x17h"} + each(NAV));
        for (const S &p : pairs(3)) addJob(r, p, "", 8, 40, thorough() ? Keys{"\x17w"} + each(NAV) : Keys{"\x17w"} + each("\x02\x06"));
        // containers that are the values of object's keys, with all the keys that move
        for (const char *p : {"{\"a\":{\"b\":1,\"c\":[2]}}\x1e{\"a\":{\"b\":1,\"c\":[3]}}", "[{\"a\":[1]}]\x1e[{\"a\":[1]},2]", "{\"a\":{\"b\":{}}}\x1e{\"a\":{\"b\":{\"c\":1}}}", "[[[1],2]]\x1e[[[1,2]]]"})
            addJob(r, p, "", 12, 40, Keys{"\x17w"} + each(NAV));
        for (const auto &p : special())
            for (int rows : {5, 12})
            {
                const S doc = p.first + RS + p.second;
                const bool small = doc.size() < 30 || thorough();
                addJob(r, doc, "c", rows, 50, small ? Keys{"\x17w", "\x17\x06", "/1\n", "/x\n"} + each("n\x01\x02\x04\x05\x06") : Keys{"\x17w", "/1\n"} + each("n\x02\x06"));
            }
    }
    else if (prop == "P30")
    {
        S all;
        for (int c = 1; c < 256; ++c) if (c != 25 && c != 31) all += (char) c;
        for (const auto &p : special())
        {
            const S doc = p.first + RS + p.second;
            for (int rows : {1, 2, 3, 4, 5}) for (int cols : {1, 2, 3, 4, 5, 6, 7, 9, 12})
            {
                addJob(r, doc, "", rows, cols, each("\x01\x02\x04\x06\x10\x11"));
                r.back().exactScreen = false;
            }
            addJob(r, doc, "", 6, 24, Keys{"\x17w"} + each(doc.size() < 30 || thorough() ? "\x02\x06\x10\x11\x13\x14" : "\x02\x10\x11"));
            for (int n = 1; (doc == "[1,2]\x1e[[1],2]" || doc.size() > 80) && n < (thorough() ? 150 : 60); n += thorough() ? 1 : 2) { addJob(r, doc, "c", 6, 30, Keys(), ""); r.back().early = n; }
            if (doc == "[1,2]\x1e[[1],2]" || doc.size() == 29 || thorough())
                // in the middle of what is displayed
                for (int n = 0; n < 60; n += 1)
                {
                    Keys k = each("\x02\x06");
                    k.push_back("\x17w");
                    for (char key : S("\x01\x02\x05\x06/n")) k.push_back(S("\x19") + (char) (32 + n) + key);
                    addJob(r, doc, "", 7, 30, k);
                    r.back().maxBuf = 0;
                }
            if (doc == "[]\x1e[]" || (doc.size() < 12 && thorough())) { addJob(r, doc, "", 6, 24, each(all)); r.back().maxBuf = 0; }
        }
    }
    return r;
}

int main(int argc, char **argv) { return sessionMain<SplitView>(argc, argv); }
