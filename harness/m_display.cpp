// The line editor's display: everything the editor writes to the terminal, key by key.
#include "vdrv.h"
#include <core/str.h>
#include <core/settings.h>
#include <core/os.h>
#include <lib/line_editor.h>
#include <lib/editor_module.h>
#include <lib/host_callbacks.h>
#include <lib/display_readline.h>
#include <lib/line_queue.h>
#include <lib/cmd_tokenisers.h>
#include <lib/rl_integration.h>
#include <terminal/terminal_in.h>
#include <terminal/terminal_out.h>
#include <terminal/printer.h>
#include <terminal/terminal_helpers.h>
#include "vterm.h"
extern "C" {
#include <readline/readline.h>
#include <readline/history.h>
#include <readline/rldefs.h>
#include <readline/rlprivate.h>
extern int rl_prefer_env_winsize;
}
struct no_clipboard : public os::clipboard_provider
{
    std::string text;
    bool get_clipboard_text(str_base& out) override { out = text.c_str(); return !text.empty(); }
    bool set_clipboard_text(const char* t, int32 length) override { text.assign(t, length < 0 ? strlen(t) : length); return true; }
};
extern void clear_comment_row();
// What the host does when a line is accepted: show the transient prompt, if any.
struct display_host : public host_callbacks
{
    line_editor* ed = nullptr; bool has = false; std::string prompt, rprompt;
    void filter_prompt() override {}
    void filter_transient_prompt(bool final) override
    {
        if (!is_display_readline_initialized()) return;
        if (has) ed->set_prompt(prompt.c_str(), rprompt.c_str(), true, true);
        else clear_comment_row();
    }
    bool can_suggest(const line_state&) override { return false; }
    bool suggest(const line_states&, matches*, int32) override { return false; }
    bool filter_matches(char**) override { return false; }
    bool call_lua_rl_global_function(const char*, const line_state*) override { return false; }
    const char** copy_dir_history(int32* total) override { *total = 0; return nullptr; }
    void send_event(const char*) override {}
    void send_oncommand_event(line_state&, const char*, bool, recognition, const char*) override {}
    void send_oninputlinechanged_event(const char*) override {}
    bool has_event_handler(const char*) override { return false; }
    bool get_command_word(line_state&, str_base&, bool&, recognition&, str_base&) override { return false; }
};
extern void initialise_readline(const char* shell_name, const char* state_dir, const char* default_inputrc, bool no_user=false);
VMODULE(display)
{
    no_clipboard clip;
    os::set_clipboard_provider(&clip);
    v_terminal_in in;
    v_terminal_out out;
    printer prn(out);
    printer_context pc(&out, &prn);
    cmd_command_tokeniser ct; cmd_word_tokeniser wt;
    display_host host;
    line_editor::desc desc(nullptr, nullptr, nullptr, &host);
    desc.input = &in; desc.output = &out; desc.printer = &prn;
    desc.command_tokeniser = &ct; desc.word_tokeniser = &wt;
    rl_prefer_env_winsize = 1;
    initialise_readline("clink", ".", "", true);
    settings::find("autosuggest.strategy")->set("");
    settings::find("clink.colorize_input")->set("false");
    settings::find("history.show_preview")->set("false");
    line_editor* ed = nullptr;
    bool begun = false;
    std::string prompt, rprompt;
    auto pump = [&](const std::string& keys) {
        in.set(keys);
        do { if (!ed->update()) { str<> l; ed->get_line(l); begun = false; break; } }
        while (rl_has_queued_input() || in.available(0));
    };
    auto show = [&](jout& j) {
        j.ks("out", out.text).ks("text", std::string(rl_line_buffer ? rl_line_buffer : "", rl_end)).ki("pt", rl_point).kt("begun", begun);
        out.text.clear();
    };
    for (const auto& f : script)
    {
        jout j;
        j.obj().ks("op", f[0]);
        const std::string& op = f[0];
        if (op == "reset")
        {
            // reset W H MAXROWS HORZ: a new terminal of that size
            if (begun) pump("\r");
            clear_history();
            out.cols = atoi(f[1].c_str()); out.rows = atoi(f[2].c_str());
            SetEnvironmentVariableA("COLUMNS", f[1].c_str()); SetEnvironmentVariableA("LINES", f[2].c_str());
            _putenv(("COLUMNS=" + f[1]).c_str()); _putenv(("LINES=" + f[2]).c_str());
            settings::find("clink.max_input_rows")->set(f[3].c_str());
            rl_variable_bind("horizontal-scroll-mode", f[4] == "1" ? "on" : "off");
            out.text.clear();
            for (size_t i = 5; i < f.size(); ++i) add_history(f[i].c_str());
            using_history();
            j.ki("w", atoi(f[1].c_str())).ki("h", atoi(f[2].c_str())).ki("max", atoi(f[3].c_str())).kt("horz", f[4] == "1");
        }
        else if (op == "print") { out.write(f[1].c_str(), -1); j.ks("out", out.text); out.text.clear(); }
        else if (op == "line")
        {
            // line PROMPT RPROMPT [PROMPT RPROMPT]: start editing a line, with a transient prompt
            if (begun) return 77;
            if (ed) line_editor_destroy(ed);
            prompt = f[1]; rprompt = f[2];
            desc.prompt = prompt.c_str(); desc.rprompt = rprompt.c_str();
            ed = line_editor_create(desc);
            host.ed = ed; host.has = f.size() > 3;
            if (host.has) { host.prompt = f[3]; host.rprompt = f[4]; }
            j.kt("trans", host.has).ks("tprompt", host.has ? f[3] : "").ks("trprompt", host.has ? f[4] : "");
            ed->update(); begun = true;
            j.ks("prompt", f[1]).ks("rprompt", f[2]); show(j);
        }
        else if (op == "prompt")
        {
            // prompt PROMPT RPROMPT: the prompt changes while a line is being edited
            if (!begun) return 77;
            std::string p = f[1], r = f[2];
            ed->set_prompt(p.c_str(), r.c_str(), true);
            prompt = p; rprompt = r;
            desc.prompt = prompt.c_str();
            j.ks("prompt", f[1]).ks("rprompt", f[2]); show(j);
        }
        else if (op == "key") { if (!begun) return 77; pump(f[1]); j.ks("k", f[1]); show(j); }
        else if (op == "cmd")
        {
            if (!begun) return 77;
            rl_command_func_t* fn = rl_named_function(f[1].c_str());
            if (!fn) { fprintf(stderr, "no command %s\n", f[1].c_str()); return 77; }
            rl_bind_keyseq("\\C-xq", fn);
            pump("\x18q");
            j.ks("c", f[1]); show(j);
        }
        else { fprintf(stderr, "bad op\n"); return 77; }
        j.end().flush();
    }
    return 0;
}
