// Terminals for the line editor: input from a string, output collected.
#pragma once
#include <terminal/terminal_in.h>
#include <terminal/terminal_out.h>
#include <terminal/attributes.h>
#include <core/str.h>
#include <string>
#include <vector>
struct v_terminal_in : public terminal_in
{
    int32 began = 0; std::string q; size_t head = 0; key_tester* keys = nullptr;
    void set(const std::string& s) { q = s; head = 0; }
    int32 begin(bool) override { return ++began; }
    int32 end(bool) override { return --began; }
    void override_handle() override {}
    bool available(uint32) override { return head < q.size(); }
    void select(input_idle*, uint32) override {}
    int32 read() override { return head < q.size() ? uint8(q[head++]) : int32(terminal_in::input_none); }
    int32 peek() override { return head < q.size() ? uint8(q[head]) : int32(terminal_in::input_none); }
    bool send_terminal_request(const char*, const char*, const char*, uint32, uint32, str_base& out) override { out.clear(); return false; }
    key_tester* set_key_tester(key_tester* k) override { key_tester* r = keys; keys = k; return r; }
};
struct v_terminal_out : public terminal_out
{
    std::string text; int cols = 80, rows = 25;
    void open() override {}
    void begin() override {}
    void end() override {}
    void close() override {}
    void write(const char* c, int32 n) override { text.append(c, n < 0 ? strlen(c) : n); }
    void flush() override {}
    int32 get_columns() const override { return cols; }
    int32 get_rows() const override { return rows; }
    int32 get_top() const override { return 0; }
    bool get_cursor_pos(int16& x, int16& y) const override { x = y = 0; return false; }
    bool get_line_text(int32, str_base& o) const override { o.clear(); return true; }
    int32 is_line_default_color(int32) const override { return true; }
    int32 line_has_color(int32, const BYTE*, int32, BYTE) const override { return false; }
    int32 find_line(int32, int32, const char*, find_line_mode, const BYTE*, int32, BYTE) const override { return 0; }
    void set_attributes(const attributes)  {}
};
