// The viewer of one document.
#include "session.hh"
#include "curseSimpleOutput.hh"

struct SimpleView: Viewer
{
    typedef view::Model Model;
    std::vector<S> args;
    std::vector<char *> av;
    std::unique_ptr<Params> params;
    std::unique_ptr<std::stringstream> in;
    std::unique_ptr<StreamConsumer> reader;

    void open(const Job &job)
    {
        args = {"jsonstroll", job.opts.find('c') != S::npos ? "--color=always" : "--color=never"};
        if (job.opts.find('k') != S::npos) args.push_back("--keep-order");
        view::rawEscapes = job.opts.find('a') != S::npos;
        if (view::rawEscapes) args.push_back("--ascii");
        av.clear();
        for (S &a : args) av.push_back(&a[0]);
        av.push_back(nullptr);
        params.reset(new Params(av.data()));
        params->read();
        in.reset(new std::stringstream(job.doc));
        reader.reset(new StreamConsumer(*in));
        reader->withConfig(params.get());
        reader->read();
        if (!d.els.empty()) return;
        ref::Opts o;
        o.ascii = view::rawEscapes;
        const ref::Result r = ref::parse(job.doc, o);
        sorted = job.opts.find('k') == S::npos;
        d.add(r.v, -1, sorted);
    }
    void reset(Model &) const {}
    void run(const std::function<void(const std::function<void()> &)> &guard)
    {
        CurseSimpleOutput out(*params);
        guard([&] { out.run(reader->getRoot(), "name"); });
    }
    S check(const term::Screen &s, const Model &m, bool color) const { return Viewer::check(s, m, "name", color); }
};

void term::onCall() { onCallOf<SimpleView>(); }

static const std::vector<S> &special()
{
    static const std::vector<S> v = {
        "[]", "{}", "1", "\"\"", "\"a long string at the root of the document\"",
        "{\"b\":{\"d\":[1,{\"x\":null}],\"c\":[]},\"a\":[[2,3],{}],\"e\":\"end\"}",
        "[[[[[[[[[[[[[1]]]]]]]]]]]],2]]",
        "{\"a\":{\"b\":{\"c\":{\"d\":{\"e\":[1,2]}}}}}",
        "[\"0123456789abcdef0123456789abcdef0123456789\",1,\"0123456789abcdef0123456789\",{\"0123456789abcdef\":\"0123456789abcdef0123456789\",\"z\":[\"0123456789abcdef0123456789abcdef\"]}]",
        "[1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20]",
        "{\"k1\":[1,2,3],\"k2\":{\"a\":[4,5],\"b\":[6]},\"k3\":[[7],[8]],\"k4\":null}",
        "[\"\xc3\xa9\xc3\xa8\xc3\xa0\xe2\x82\xac\xc3\xa9\xc3\xa8\xc3\xa0\xe2\x82\xac\xc3\xa9\xc3\xa8\",{\"\xc3\xa9\xc3\xa8\xe2\x82\xac\":\"\xe2\x82\xac\"}]",
        "[{},[],{\"a\":{},\"b\":[]},[[]],[{}]]",
        "{\"a\":1.5e300,\"b\":-0.001,\"c\":123456789012345678901234567890,\"c2\":12345678901,\"d\":true,\"e\":false}",
        "[\"a\\nb\",\"\\u0041\\u001b\\t\",{\"\\\\\":\"/\"}]",
    };
    return v;
}

// ---------------------------------------------------------------- spaces

static bool small(const S &doc) { return doc.size() <= 60 && std::count_if(doc.begin(), doc.end(), [](char c) { return c == '[' || c == '{'; }) < 6; }

static std::vector<Job> jobs()
{
    std::vector<Job> r;
    const int depth = thorough() ? 5 : 4;
    if (prop == "P19") // what is shown
    {
        for (const S &s : shapes(depth)) for (int style = 0; style < 2; ++style)
            for (int cols : {80, 13, 10, 7})
                addJob(r, document(s, style), cols == 80 || cols == 10 ? "c" : "", cols == 80 ? 12 : cols == 13 ? 4 : 6, cols, each("\x02\x05\x06"));
        // texts of any length, whose characters take 1, 2 or 3 bytes
        for (int n = 1; n < (thorough() ? 260 : 132); n += n < 70 || thorough() ? 1 : 3) for (const char *ch : {"x", "\xc3\xa9", "\xe2\x82\xac"})
        {
            S t, k;
            for (int i = 0; i < n; ++i) { t += i % 10 == 9 ? S("-") : S(ch); if (i < n / 2) k += ch; }
            addJob(r, "[\"" + t + "\",{\"" + k + "\":\"" + t + "\",\"z" + t + "\":[]}]", n % 2 ? "c" : "", 9 + n / 12, 25, each("\x02\x04"));
        }
        for (const S &d : special()) for (int cols : {3, 5, 8, 11, 14, 17, 20, 23, 40, 80}) for (int rows : {3, 6, 24})
            for (const char *o : {"", "k", "c"}) if (thorough() || *o != 'k' || d.find('{') != S::npos) addJob(r, d, o, rows, cols, each("\x02\x03\x04"));
    }
    else if (prop == "P20") // moving
    {
        for (const S &s : shapes(depth)) for (int size = 0; size < 3; ++size)
            addJob(r, document(s, size == 1), "", (int[]) {3, 5, 12}[size], (int[]) {17, 11, 40}[size], each(NAV));
        for (const S &d : special()) for (int rows : {2, 3, 4, 7, 24}) for (int cols : {12, 40}) addJob(r, d, "k", rows, cols, !small(d) ? each("\x01\x02\x03\x04\x05") : each(NAV));
        for (const char *d : {"[1,[2],{\"a\":3}]", "{\"a\":{\"b\":1},\"c\":[2]}"}) addJob(r, d, "", 6, 20, each("kjlhKJLH"));
    }
    else if (prop == "P21") // folding
    {
        for (const S &s : shapes(depth + 1)) addJob(r, document(s, 0), "", 24, 30, each("\x02\x04\x05\x06"));
        for (const S &s : shapes(depth)) addJob(r, document(s, 1), "", 4, 14, each("\x01\x02\x05\x06"));
        for (const char *d : {"{\"a\":{\"b\":[1,{}]},\"c\":[[2]]}", "[[[[1]]],{\"a\":{\"b\":{\"c\":{}}}}]", "{\"a\":[],\"b\":{},\"c\":[[],{}]}", "[]", "{}", "1"})
            for (int rows : {3, 5, 20}) addJob(r, d, "k", rows, 25, each(NAV + "hl"));
    }
    else if (prop == "P22") // searching
    {
        for (const S &s : shapes(depth)) for (const char *p : {"/a\n", "/k\n"})
            addJob(r, document(s, 0), "c", 8, 30, Keys{p} + each("n\x02\x06"));
        const Keys patterns = {"/x\n", "/b\n", "/z\n", "/B/i\n", "/x/o\n", "/x/s\n", "/ \n", "/\n", "/(/e\n", "/x\x1b", "/1/n\n", "/b\r", "/b\x07"};
        for (const char *d : {"{\"x\":[\"x\",1,\"bx\"],\"b\":{\"c\":\"b\",\"x\":11}}", "[\"x\",[\"x\",[\"x\",[\"x\"]]],{\"b\":\"x\"},true]", "[]", "\"x\"", "{\"b\":{},\"x\":[[[\"b\"]]]}", "[1,2,3,4,5,6,7,8,9,\"b\",11,12,13,[14,{\"x\":15}]]"})
            for (int rows : {3, 5, 24})
            {
                addJob(r, d, "c", rows, 40, patterns + each("n\x02"));
                addJob(r, d, "c", rows, 25, Keys{"/x\n", "/b\n"} + each("n\x02\x06"));
                addJob(r, d, "", rows, 40, Keys{"/x\n", "/b\n"} + each("N\x01\x05\x06"));
            }
        // escapes in the pattern denote characters, except with --ascii
        const Keys escapes = {"/\\u00e9\n", "/\\u00E9\n", "/\xc3\xa9\n", "/u00e9\n", "/\\u00\n", "/\\u00e\n", "/\\u00zz\n", "/\\u0061\n", "/a\\u00e9\\u0062/i\n", "/\\u20ac\n", "n", "\x02"};
        addJob(r, "[\"a\\u00e9b\",\"\\u00e9\",{\"\\u00e9\":1},\"u00e9\",\"a\\\\u00zz\"]", "a", 9, 40, escapes);
        addJob(r, "[\"a\\u00e9b\",\"\xc3\xa9\",{\"\\u00e9\":1},\"u00e9\",\"a\\\\u00zz\",\"\\u20ac\"]", "", 9, 40, escapes);
    }
    else if (prop == "P33") // typing at the prompt
    {
        // printable characters, then what ends or edits
        const Keys text[] = {{"x", "\xc3\xa9"}, {"x", " "}, {"x", "/"}, {"\xc3\xa9", "/"}, {"\xe2\x82\xac", "x"}, {"1", "q"}};
        const Keys others[] = {{"\x7f", "\x1b", "\n"}, {"\x08", "\r", "\x15"}, {"\x0f", "\x07", "\x0e", "\x1b"}};
        for (const char *d : {"[\"x\",\"\xc3\xa9\",{\"x\xc3\xa9\":1}]", "{\"a\":[\"xx\"]}"})
            for (const Keys &t : text)
                for (const Keys &o : others)
                {
                    addJob(r, d, "c", 5, 40, Keys{"/"} + t + o);
                    r.back().maxBuf = thorough() ? 6 : 4;
                    addJob(r, d, "", 3, 6, Keys{"/"} + t + o);
                    r.back().maxBuf = thorough() ? 7 : 5;
                }
    }
    else if (prop == "P24") // resizing
    {
        for (const S &s : shapes(depth)) addJob(r, document(s, 1), "", 6, 12, each("\x02\x06\x10\x11\x12"));
        for (const S &d : special()) addJob(r, d, "c", 5, 20, each("\x02\x04\x10\x11\x13\x14\x1a"));
        for (const char *d : {"{\"x\":[\"x\",1,\"bx\"],\"b\":{\"c\":\"b\"}}", "[\"x\",[\"x\"]]"})
        {
            addJob(r, d, "", 6, 20, Keys{"/x\n", "n"} + each("\x02\x06\x10\x11\x14"));
            addJob(r, d, "", 6, 20, each("/x\n\x1b\x10\x11\x12\x14\x1a\x0e"));
            r.back().maxBuf = 4;
        }
        // in the middle of what is displayed
        for (const char *d : {"{\"x\":[\"x\",1,\"bx\"],\"b\":{\"c\":\"b\"}}", "[[1,2],{\"a\":\"0123456789012345678901234567890123456789\"},3]", "{\"a\":{\"b\":{\"c\":[]}}}"})
            for (int n = 0; n < 24; ++n)
            {
                Keys k = each("\x02\x06");
                for (char key : S("\x01\x02\x05\x06/n")) k.push_back(S("\x19") + (char) (32 + n) + key);
                addJob(r, d, "", 7, 30, k);
                r.back().maxBuf = 0;
            }
    }
    else if (prop == "P23") // any key, any size
    {
        S all;
        for (int c = 1; c < 256; ++c) if (c != 25 && c != 31) all += (char) c;
        for (const char *d : {"[1]", "{\"a\":{\"b\":[]}}"}) for (int rows : {1, 2, 5})
        {
            addJob(r, d, "", rows, 12, each(all));
            r.back().maxBuf = 0;
            r.back().exactScreen = rows > 2;
            Keys typed = each("\x02");
            for (char c : all) if (S("\x1b\n\r\x07").find(c) == S::npos) { typed.push_back(S("/") + c + "\x1b"); if (thorough() && c != '\\') typed.push_back(S("/") + c + "\n"); }
            addJob(r, d, "", rows, 12, typed);
            r.back().exactScreen = rows > 2;
            addJob(r, d, "", rows + 2, 12, Keys{"\x17w", "\x17W", "\x17l", "\x17h", "\x17\x05", "\x17\x06", "\x17\x17l", "\x17\x0e\x0el", "\x1b\x1bq", "^q", "\x17q"} + each(NAV), "");
        }
        for (const S &d : special()) for (int rows : {1, 2, 3}) for (int cols : {1, 2, 3, 4, 6, 9})
        {
            if (!thorough() && rows == 2 && cols > 2) continue;
            addJob(r, d, cols == 3 ? "c" : "", rows, cols, !small(d) ? each("\x01\x02\x04\x05\x10\x11") : each(NAV + "\x10\x11"), "");
            r.back().exactScreen = false;
            addJob(r, d, "", rows, cols, Keys{"/\n", "/e\n", "/(/e\n", "n", "/0123456789\x1b"} + each("\x02\x04\x14"), "");
            r.back().exactScreen = false;
        }
        for (const char *d : {"[1,{\"a\":2}]", "1"}) for (const char *p : {"", "/", "/x", "/1\n", "\x02", "\x17", "\x06", "n"}) for (char sig : {T_INT, T_TERM})
            addJob(r, d, "", 6, 20, Keys{S(1, sig)}, p);
        for (int n = 1; n < 40; ++n)
        {
            addJob(r, "[1,{\"a\":2}]", "c", 6, 20, Keys(), "");
            r.back().early = n;
        }
    }
    return r;
}

int main(int argc, char **argv) { return sessionMain<SimpleView>(argc, argv); }
