// Recalling remembered lines: the real line editor with a real history file,
// begun, ended and saved as the host does it.
#include "vdrv.h"
#include "vterm.h"
#include <core/settings.h>
#include <core/str.h>
#include <core/str_compare.h>
#include <lib/host_callbacks.h>
#include <lib/history_db.h>
#include <lib/line_editor.h>
#include <lib/line_state.h>
#include <lib/matches.h>
#include <lib/cmd_tokenisers.h>
#include <lib/rl_integration.h>
#include <lib/sticky_search.h>
#include <terminal/printer.h>
#include <terminal/terminal_helpers.h>
#include <memory>
extern "C" {
#include <readline/readline.h>
#include <readline/history.h>
}
struct recall_host : public host_callbacks
{
    void filter_prompt() override {}
    void filter_transient_prompt(bool final) override {}
    bool can_suggest(const line_state& l) override { return false; }
    bool suggest(const line_states& lines, matches* m, int32 id) override { return false; }
    bool filter_matches(char**) override { return false; }
    bool call_lua_rl_global_function(const char*, const line_state*) override { return false; }
    const char** copy_dir_history(int32* total) override { *total = 0; return nullptr; }
    void send_event(const char*) override {}
    void send_oncommand_event(line_state&, const char*, bool, recognition, const char*) override {}
    void send_oninputlinechanged_event(const char*) override {}
    bool has_event_handler(const char*) override { return false; }
    bool get_command_word(line_state&, str_base&, bool&, recognition&, str_base&) override { return false; }
};
extern void initialise_readline(const char* shell_name, const char* state_dir, const char* default_inputrc, bool no_user=false);
VMODULE(recall)
{
    v_terminal_in in;
    v_terminal_out out;
    printer prn(out);
    printer_context pc(&out, &prn);
    cmd_command_tokeniser ct; cmd_word_tokeniser wt;
    recall_host host;
    line_editor::desc desc(nullptr, nullptr, nullptr, &host);
    desc.input = &in; desc.output = &out; desc.printer = &prn;
    desc.command_tokeniser = &ct; desc.word_tokeniser = &wt;
    desc.prompt = "% ";
    out.cols = 200;
    initialise_readline("clink", ".", "", true);
    settings::find("clink.colorize_input")->set("false");
    settings::find("autosuggest.hint")->set("false");
    settings::find("autosuggest.async")->set("false");
    settings::find("history.show_preview")->set("false");
    settings::find("history.time_stamp")->set("off");
    rl_bind_keyseq("\\C-xu", rl_named_function("kill-whole-line"));
    rl_bind_keyseq("\\C-xa", rl_named_function("digit-argument"));
    std::unique_ptr<history_database> db;
    std::unique_ptr<str_compare_scope> scope; // As host::edit_line has it.
    line_editor* ed = nullptr;
    bool done = false; str<> line;
    int n_file = 0;
    auto pump = [&](const std::string& keys) {
        in.set(keys);
        do { if (!ed->update()) { ed->get_line(line); done = true; break; } }
        while (rl_has_queued_input() || in.available(0));
    };
    auto begin = [&]() {
        if (!rl_has_saved_history()) { db->initialise(); db->load_rl_history(); }
        ed = line_editor_create(desc);
        done = false;
        ed->update();
    };
    auto end = [&]() { line_editor_destroy(ed); ed = nullptr; };
    for (const auto& f : script)
    {
        jout j;
        const std::string& op = f[0];
        auto arg = [&](size_t i) -> std::string { return i < f.size() ? f[i] : std::string(); };
        auto num = [&](size_t i) { return atoi(arg(i).c_str()); };
        j.obj().ks("op", op);
        if (op == "reset")
        {
            // reset FOLD POINT_AT_END STICKY DUPE_MODE
            if (ed)
            {
                settings::find("history.sticky_search")->set("false");
                pump("\r"); end();
                clear_sticky_search_position();
                if (rl_has_saved_history()) { begin(); pump("\r"); end(); } // (Takes its effect.)
            }
            db.reset();
            clear_history();
            rl_last_func = nullptr;
            char name[64]; sprintf(name, "recall%d", n_file++); CreateDirectoryA(name, nullptr); strcat(name, "\\clink_history");
            rl_variable_bind("search-ignore-case", num(1) ? "on" : "off");
            rl_variable_bind("history-point-at-end-of-anchored-search", num(2) ? "on" : "off");
            settings::find("history.sticky_search")->set(num(3) ? "true" : "false");
            settings::find("history.dupe_mode")->set(arg(4).c_str());
            scope.reset(); scope.reset(new str_compare_scope(str_compare_scope::exact, false));
            db.reset(new history_database(name, 1, true));
            db->initialise();
            j.ki("fold", num(1)).ki("pae", num(2)).ki("sticky", num(3)).ks("dupe", arg(4));
        }
        else if (!db) return 77;
        else if (op == "hist") { db->add(arg(1).c_str()); j.ks("t", arg(1)); }
        else
        {
            if (op == "start") begin();
            else if (!ed) return 77;
            else if (op == "key") { pump(arg(1)); j.ks("k", arg(1)); }
            else if (op == "cmd")
            {
                rl_command_func_t* fn = rl_named_function(arg(1).c_str());
                if (!fn) { fprintf(stderr, "no command %s\n", arg(1).c_str()); return 77; }
                rl_bind_keyseq("\\C-xq", fn);
                std::string a;
                if (f.size() > 2) a = '\x1b' + arg(2);
                pump(a + "\x18q");
                j.ks("c", arg(1)).ki("n", arg(2) == "-" ? -1 : f.size() > 2 ? num(2) : 1).kt("arg", f.size() > 2);
                if (done)
                {
                    // As host::edit_line.
                    j.ks("out", line.c_str());
                    bool add = true;
                    if (rl_has_saved_history()) add = false;
                    else if (!line.empty() && !can_sticky_search_add_history(line.c_str())) add = false;
                    if (add) clear_sticky_search_position();
                    if (add) db->add(line.c_str());
                    end();
                    begin();
                }
            }
            else return 77;
            j.ks("text", std::string(rl_line_buffer, rl_end)).ki("pt", rl_point).ki("w", where_history());
            j.k("hist").arr();
            for (int i = 0; i < history_length; ++i) j.s(history_list()[i]->line);
            j.aend();
            j.k("db").arr();
            {
                static char buf[65536];
                history_db::iter it = db->read_lines(buf, sizeof(buf));
                str_iter o;
                while (it.next(o, nullptr)) j.s(o.get_pointer(), o.length());
            }
            j.aend();
        }
        j.end(); j.flush();
    }
    return 0;
}
