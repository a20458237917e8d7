// The line editor: commands and what the line becomes.
#include "vdrv.h"
#include <core/str.h>
#include <core/settings.h>
#include <core/os.h>
#include <lib/line_editor.h>
#include <lib/line_buffer.h>
#include <lib/editor_module.h>
#include <lib/doskey.h>
#include <lib/line_queue.h>
#include <lib/matches.h>
#include <lib/match_generator.h>
#include <lib/cmd_tokenisers.h>
#include <lib/rl_integration.h>
#include <terminal/terminal_in.h>
#include <terminal/terminal_out.h>
#include <terminal/printer.h>
#include <terminal/terminal_helpers.h>
#include "vterm.h"
#include <rl/rl_commands.h>
#include <memory>
extern "C" {
#include <readline/readline.h>
#include <readline/history.h>
#include <readline/rldefs.h>
#include <readline/rlprivate.h>
extern int _rl_match_hidden_files;
extern char* _rl_term_forward_char;
}
struct own_clipboard : public os::clipboard_provider
{
    std::string text; bool has = false;
    bool get_clipboard_text(str_base& out) override { out = text.c_str(); return has; }
    bool set_clipboard_text(const char* t, int32 length) override { text.assign(t, length < 0 ? strlen(t) : length); has = true; return true; }
};
struct cmd_module : public editor_module
{
    void bind_input(binder&) override {}
    void on_begin_line(const context&) override {}
    void on_end_line() override {}
    void on_need_input(int32&) override {}
    void on_input(const input&, result&, const context&) override {}
    void on_matches_changed(const context&, const line_state&, const char*) override {}
    void on_terminal_resize(int32, int32, const context&) override {}
    void on_signal(int32) override {}
};
// One function runs whatever command the script names, so every command has a key.
static rl_command_func_t* s_func;
extern void initialise_readline(const char* shell_name, const char* state_dir, const char* default_inputrc, bool no_user=false);
VMODULE(editor)
{
    own_clipboard clip;
    line_queue queue;
    os::set_clipboard_provider(&clip);
    v_terminal_in in;
    v_terminal_out out;
    printer prn(out);
    printer_context pc(&out, &prn);
    cmd_command_tokeniser ct; cmd_word_tokeniser wt;
    line_editor::desc desc(nullptr, nullptr, nullptr, nullptr);
    desc.input = &in; desc.output = &out; desc.printer = &prn;
    desc.command_tokeniser = &ct; desc.word_tokeniser = &wt;
    initialise_readline("clink", ".", "", true);
    line_editor* ed = line_editor_create(desc);
    cmd_module cm;
    ed->add_module(cm);
    std::vector<std::string> done;
    auto pump = [&](const std::string& keys) {
        in.set(keys);
        do { if (!ed->update()) { str<> l; ed->get_line(l); done.push_back(l.c_str()); if (!ed->update()) break; } }
        while (rl_has_queued_input() || in.available(0));
    };
    auto show = [&](jout& j) {
        j.ks("text", std::string(rl_line_buffer, rl_end)).ki("pt", rl_point).ki("an", cua_get_anchor()).ki("nul", strlen(rl_line_buffer)).ks("clip", clip.text)
         .ki("hist", where_history()).k("done").arr();
        for (auto& d : done) j.s(d);
        j.aend().k("queued").arr();
        str<> l; dequeue_flags fl;
        while (queue.dequeue_line(l, fl)) j.s(((fl & dequeue_flags::edit_line) != dequeue_flags::none ? std::string("e") : std::string("r")) + l.c_str());
        j.aend();
        done.clear();
    };
    bool begun = false, first = true;
    for (const auto& f : script)
    {
        jout j;
        j.obj().ks("op", f[0]);
        const std::string& op = f[0];
        if (op == "reset")
        {
            if (begun) { pump("\r"); done.clear(); }
            clear_history();
            clip.text.clear(); clip.has = false;
            for (size_t i = 1; i < f.size(); ++i) add_history(f[i].c_str());
            using_history();
            if (!begun) { ed->update(); begun = true; }
            settings::find("clink.paste_crlf")->set("crlf");
            rl_variable_bind("completion-ignore-case", "off");
            // The kill ring outlives the line: fill it, so that what it holds is known.
            j.k("ring").arr();
            if (!first)
                for (int i = 0; i < 10; ++i) { std::string c(1, char('0' + i)); pump(c + "\x15"); pump("-"); pump("\x08"); j.s(c); }
            j.aend();
            if (!first) { pump("\r"); done.clear(); }
            first = false;
            j.k("lines").arr();
            for (size_t i = 1; i < f.size(); ++i) j.s(f[i]);
            j.aend();
            show(j);
        }
        else if (op == "type") { pump(f[1]); j.ks("s", f[1]); show(j); }
        else if (op == "cmd")
        {
            // cmd NAME [ARG]: the command bound to a key, with a numeric argument
            s_func = rl_named_function(f[1].c_str());
            if (!s_func) { fprintf(stderr, "no command %s\n", f[1].c_str()); return 77; }
            rl_bind_keyseq("\\C-xq", s_func);
            std::string keys;
            if (f.size() > 2) { keys = "\x18" "a"; }
            rl_bind_keyseq("\\C-xa", rl_named_function("digit-argument"));
            std::string arg;
            if (f.size() > 2) { for (char c : f[2]) { arg += '\x1b'; arg += c; } }
            pump(arg + "\x18q");
            j.ks("c", f[1]).ki("n", f.size() > 2 ? atoi(f[2].c_str()) : 1).kt("arg", f.size() > 2);
            show(j);
        }
        else if (op == "clip") { clip.text = f[1]; clip.has = true; j.ks("s", f[1]); show(j); }
        else if (op == "crlf") { settings::find("clink.paste_crlf")->set(f[1].c_str()); j.ks("v", f[1]); show(j); }
        else { fprintf(stderr, "bad op\n"); return 77; }
        j.end().flush();
    }
    return 0;
}
