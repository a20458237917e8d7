// Escape codes in text: splitting, decoding, processing, emulated terminal.
#pragma GCC optimize("O0")
#include "vdrv.h"
#include <core/str.h>
#include <core/settings.h>
#include <terminal/ecma48_iter.h>
#include <terminal/ecma48_wrapper.h>
#include <terminal/screen_buffer.h>
#include <ecma48_terminal_out.h>

// Records what the terminal is asked to do.
class rec_screen : public screen_buffer
{
public:
    jout& j;
    std::string pending;
    rec_screen(jout& j) : j(j) {}
    void fl() { if (!pending.empty()) { j.arr().s("write").s(pending).aend(); pending.clear(); } }
    void call(const char* n) { fl(); j.arr().s(n).aend(); }
    void call(const char* n, int a) { fl(); j.arr().s(n).i(a).aend(); }
    void call(const char* n, int a, int b) { fl(); j.arr().s(n).i(a).i(b).aend(); }
    void open() override {}
    void begin() override {}
    void end() override {}
    void close() override {}
    void write(const char* data, int32 length) override { pending.append(data, length < 0 ? strlen(data) : length); }
    void flush() override {}
    int32 get_columns() const override { return 80; }
    int32 get_rows() const override { return 25; }
    int32 get_top() const override { return 0; }
    bool get_cursor_pos(int16&, int16&) const override { return false; }
    bool get_line_text(int32, str_base&) const override { return false; }
    bool has_native_vt_processing() const override { return false; }
    void clear(clear_type t) override { call("clear", t); }
    void clear_line(clear_type t) override { call("clear_line", t); }
    void set_horiz_cursor(int32 c) override { call("column", c); }
    void set_cursor_pos(int32 c, int32 r) override { call("position", c, r); }
    void move_cursor(int32 dx, int32 dy) override { call("move", dx == INT_MIN ? -1000000 : dx, dy); }
    void save_cursor() override { call("save"); }
    void restore_cursor() override { call("restore"); }
    void insert_chars(int32 n) override { call("insert", n); }
    void delete_chars(int32 n) override { call("delete", n); }
    void set_attributes(const attributes a) override
    {
        fl();
        j.arr().s("attr");
        auto color = [&](attributes::attribute<attributes::color> c) {
            if (!c) j.arr().s("unset").aend();
            else if (c.is_default) j.arr().s("default").aend();
            else if (c.value.is_rgb) j.arr().s("rgb").i(c.value.r).i(c.value.g).i(c.value.b).aend();
            else j.arr().s("index").i(c.value.value).aend();
        };
        auto flag = [&](attributes::attribute<bool> b) { j.s(!b ? "unset" : b.value ? "on" : "off"); };
        color(a.get_fg()); color(a.get_bg());
        flag(a.get_bold()); flag(a.get_underline()); flag(a.get_reverse());
        j.aend();
    }
    bool find_best_palette_match(attributes&) const override { return false; }
    int32 is_line_default_color(int32) const override { return 1; }
    int32 line_has_color(int32, const BYTE*, int32, BYTE) const override { return 0; }
    int32 find_line(int32, int32, const char*, find_line_mode, const BYTE*, int32, BYTE) const override { return 0; }
};

static void one_piece(jout& j, const ecma48_code& code)
{
    static const char* const c_types[] = { "none", "chars", "c0", "c1", "icf" };
    j.obj();
    const int t = code.get_type();
    j.ks("k", t >= 0 && t <= 4 ? c_types[t] : "bad");
    j.ki("c", t == ecma48_code::type_chars ? 0 : code.get_code());
    j.k("s").s(code.get_pointer(), code.get_length());
    ecma48_code::csi<8> csi;
    if (t == ecma48_code::type_c1 && code.decode_csi(csi))
    {
        j.ki("final", (unsigned char)csi.final).ki("inter", (unsigned char)csi.intermediate).kt("priv", csi.private_use).k("p").arr();
        for (int i = 0; i < csi.param_count; ++i) j.i(csi.params[i]);
        j.aend();
    }
    j.end();
}

VMODULE(ecma)
{
    for (const auto& f : script)
    {
        jout j;
        const std::string& op = f[0];
        j.obj().ks("op", op);
        if (op == "reset")
            SetEnvironmentVariableW(L"VDRV_X", L"v\u00e9\u4e2d");
        else if (op == "split")
        {
            // The text comes in chunks.
            ecma48_state state;
            std::string all;
            for (size_t i = 1; i < f.size(); ++i) all += f[i];
            j.ks("t", all).k("cuts").arr();
            for (size_t i = 1, n = 0; i + 1 < f.size(); ++i) j.i(n += f[i].size());
            j.aend().k("out").arr();
            for (size_t i = 1; i < f.size(); ++i)
            {
                ecma48_iter iter(f[i].c_str(), state, int32(f[i].size()));
                while (const ecma48_code& code = iter.next())
                    one_piece(j, code);
            }
            j.aend();
        }
        else if (op == "proc")
        {
            const int flags = atoi(f[1].c_str());
            j.ki("flags", flags).ks("t", f[2]);
            SetConsoleTitleW(L"none");
            str<> out;
            uint32 cells = 12345, cells2 = 12345;
            ecma48_processor(f[2].c_str(), &out, &cells, ecma48_processor_flags(flags));
            ecma48_processor(f[2].c_str(), nullptr, &cells2, ecma48_processor_flags(flags));
            str<> out2;
            ecma48_processor(f[2].c_str(), &out2, nullptr, ecma48_processor_flags(flags));
            j.ks("out", out.c_str()).ki("cells", cells).ki("cells2", cells2).ks("out2", out2.c_str());
            int32 end = -1;
            j.ki("count", cell_count(f[2].c_str())).ki("count2", cell_count(f[2].c_str(), int32(f[2].size()), &end)).ki("endoff", end);
        }
        else if (op == "wrap")
        {
            const int w = atoi(f[1].c_str());
            j.ki("w", w).ks("t", f[2]).k("out").arr();
            ecma48_wrapper wrapper(f[2].c_str(), w);
            str<> line;
            while (wrapper.next(line)) j.s(line.c_str(), line.length());
            j.aend();
        }
        else if (op == "term")
        {
            // f[1]: write everything at once, or byte by byte.
            std::string all;
            for (size_t i = 2; i < f.size(); ++i) all += f[i];
            j.ks("t", all).k("out").arr();
            {
                rec_screen screen(j);
                ecma48_terminal_out out(screen);
                for (size_t i = 2; i < f.size(); ++i)
                {
                    if (f[1] == "bytes")
                        for (char c : f[i]) out.write(&c, 1);
                    else
                        out.write(f[i].c_str(), int32(f[i].size()));
                }
                screen.fl();
            }
            j.aend();
        }
        else if (op == "long")
        {
            // A run of `n` x's between two codes.
            const int n = atoi(f[1].c_str());
            std::string s = "\x1b[1m" + std::string(n, 'x') + "\x1b[m";
            ecma48_state state;
            ecma48_iter iter(s.c_str(), state);
            j.ki("n", n).k("out").arr();
            while (const ecma48_code& code = iter.next()) j.i(code.get_length());
            j.aend().ki("count", cell_count(s.c_str()));
        }
        else { fprintf(stderr, "bad op\n"); return 77; }
        j.end().flush();
    }
    return 0;
}
