// Completion commands: what they make of the line in the real line editor.
#include "vdrv.h"
#include "vterm.h"
#include <core/settings.h>
#include <core/str.h>
#include <core/str_compare.h>
#include <lib/host_callbacks.h>
#include <lib/line_editor.h>
#include <lib/line_state.h>
#include <lib/matches.h>
#include <lib/match_generator.h>
#include <lib/cmd_tokenisers.h>
#include <lib/rl_integration.h>
#include <terminal/printer.h>
#include <terminal/terminal_helpers.h>
#include <memory>
extern "C" {
#include <readline/readline.h>
#include <readline/history.h>
}
struct cand { std::string m; int type; char append; int sup; };
struct cand_generator : public match_generator
{
    std::vector<cand> cands;
    char append = 0; int sup = 0, supq = 0, force = 0;
    bool generate(const line_states&, match_builder& b, bool) override
    {
        for (const auto& c : cands)
        {
            match_desc d(c.m.c_str(), nullptr, nullptr, match_type(c.type));
            d.append_char = c.append;
            if (c.sup >= 0) d.suppress_append = char(c.sup);
            b.add_match(d);
        }
        b.set_no_sort();
        if (append) b.set_append_character(append);
        if (sup) b.set_suppress_append(true);
        if (supq) b.set_suppress_quoting(supq);
        if (force) b.set_force_quoting();
        return true;
    }
    void get_word_break_info(const line_state&, word_break_info& i) const override { i.clear(); }
};
struct complete_host : public host_callbacks
{
    void filter_prompt() override {}
    void filter_transient_prompt(bool final) override {}
    bool can_suggest(const line_state& l) override { return false; }
    bool suggest(const line_states& lines, matches* m, int32 id) override { return false; }
    bool filter_matches(char**) override { return false; }
    bool call_lua_rl_global_function(const char*, const line_state*) override { return false; }
    const char** copy_dir_history(int32* total) override { *total = 0; return nullptr; }
    void send_event(const char*) override {}
    void send_oncommand_event(line_state&, const char*, bool, recognition, const char*) override {}
    void send_oninputlinechanged_event(const char*) override {}
    bool has_event_handler(const char*) override { return false; }
    bool get_command_word(line_state&, str_base&, bool&, recognition&, str_base&) override { return false; }
};
extern void initialise_readline(const char* shell_name, const char* state_dir, const char* default_inputrc, bool no_user=false);
VMODULE(complete)
{
    v_terminal_in in;
    v_terminal_out out;
    printer prn(out);
    printer_context pc(&out, &prn);
    cmd_command_tokeniser ct; cmd_word_tokeniser wt;
    complete_host host;
    cand_generator gen;
    line_editor::desc desc(nullptr, nullptr, nullptr, &host);
    desc.input = &in; desc.output = &out; desc.printer = &prn;
    desc.command_tokeniser = &ct; desc.word_tokeniser = &wt;
    desc.prompt = "% ";
    out.cols = 200;
    initialise_readline("clink", ".", "", true);
    settings::find("clink.colorize_input")->set("false");
    settings::find("autosuggest.hint")->set("false");
    settings::find("autosuggest.async")->set("false");
    settings::find("history.show_preview")->set("false");
    settings::find("match.expand_abbrev")->set("false");
    rl_bind_keyseq("\\C-xu", rl_named_function("kill-whole-line"));
    rl_bind_keyseq("\\C-xb", rl_named_function("backward-char"));
    line_editor* ed = nullptr;
    std::unique_ptr<str_compare_scope> scope; // As host::edit_line has it.
    auto pump = [&](const std::string& keys) {
        in.set(keys);
        do { if (!ed->update()) { str<> l; ed->get_line(l); if (!ed->update()) break; } }
        while (rl_has_queued_input() || in.available(0));
    };
    for (const auto& f : script)
    {
        jout j;
        const std::string& op = f[0];
        auto arg = [&](size_t i) -> std::string { return i < f.size() ? f[i] : std::string(); };
        auto num = [&](size_t i) { return atoi(arg(i).c_str()); };
        j.obj().ks("op", op);
        if (op == "reset")
        {
            // reset MODE FOLD WRAP APPEND SUPPRESS_APPEND SUPPRESS_QUOTING FORCE_QUOTING MARK_DIRECTORIES
            if (ed) { pump("\x18u"); pump("\r"); line_editor_destroy(ed); ed = nullptr; }
            clear_history();
            gen = cand_generator();
            settings::find("match.ignore_case")->set(num(1) == 2 ? "relaxed" : num(1) == 1 ? "on" : "off");
            scope.reset(); scope.reset(new str_compare_scope(num(1) == 2 ? str_compare_scope::relaxed : num(1) == 1 ? str_compare_scope::caseless : str_compare_scope::exact, false));
            rl_variable_bind("completion-ignore-case", num(2) ? "on" : "off");
            rl_variable_bind("menu-complete-wraparound", num(3) ? "on" : "off");
            rl_variable_bind("mark-directories", num(8) ? "on" : "off");
            gen.append = arg(4).empty() ? 0 : arg(4)[0]; gen.sup = num(5); gen.supq = num(6); gen.force = num(7);
            j.ki("mode", num(1)).ki("fold", num(2)).ki("wrap", num(3)).ks("append", arg(4)).ki("sup", num(5)).ki("supq", num(6)).ki("force", num(7)).ki("mark", num(8));
        }
        else if (op == "match")
        {
            // match TEXT TYPE APPEND SUPPRESS
            gen.cands.push_back({ arg(1), num(2), arg(3).empty() ? char(0) : arg(3)[0], num(4) });
            j.ks("m", arg(1)).ki("t", num(2)).ks("a", arg(3)).ki("s", num(4));
        }
        else
        {
            if (!ed) { ed = line_editor_create(desc); ed->set_generator(gen); ed->update(); }
            if (op == "line")
            {
                // line TEXT BACK
                std::string keys = "\x18u" + arg(1);
                for (int i = num(2); i-- > 0; ) keys += "\x18""b";
                pump(keys);
                j.ks("t", arg(1)).ki("back", num(2));
            }
            else if (op == "cmd")
            {
                rl_command_func_t* fn = rl_named_function(arg(1).c_str());
                if (!fn) { fprintf(stderr, "no command %s\n", arg(1).c_str()); return 77; }
                rl_bind_keyseq("\\C-xq", fn);
                pump("\x18q");
                j.ks("c", arg(1));
            }
            else return 77;
            j.ks("text", std::string(rl_line_buffer, rl_end)).ki("pt", rl_point);
        }
        j.end(); j.flush();
    }
    return 0;
}
