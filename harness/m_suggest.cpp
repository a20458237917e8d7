// Suggestions: the suggesters under the real suggest.lua, and what the line
// editor shows and inserts of what they suggest.
#include "vdrv.h"
#include "vterm.h"
#include <core/settings.h>
#include <core/str.h>
#include <core/str_compare.h>
#include <lib/host_callbacks.h>
#include <lib/line_editor.h>
#include <lib/line_state.h>
#include <lib/matches.h>
#include <lib/match_generator.h>
#include <lib/cmd_tokenisers.h>
#include <lib/suggestions.h>
#include <lib/rl_integration.h>
#include <lua/lua_state.h>
#include <lua/lua_script_loader.h>
#include <lua/suggest.h>
#include <terminal/printer.h>
#include <terminal/terminal_helpers.h>
#include <memory>
extern "C" {
#include <lua.h>
#include <lauxlib.h>
#include <readline/readline.h>
#include <readline/history.h>
}
static const char c_lua[] = R"LUA(
local internal = import_internal
SUG, CALLS, OUT, WORDS = {}, {}, {}, {}
-- A suggester: what it says by rule; a rule applies to lines that start with its key.
function SUGGESTER(name, kind, rules)
    local s = clink.suggester(name)
    SUG[name] = rules
    function s:suggest(line, matches, limit)
        CALLS[#CALLS + 1] = name
        local t = line:getline()
        if kind == "error" then error("boom") end
        for _, r in ipairs(SUG[name]) do
            if t:sub(1, #r.key) == r.key then
                if kind == "many" then
                    local out = {}
                    for _, e in ipairs(r.texts) do out[#out + 1] = { e, r.offset } end
                    return out
                elseif kind == "named" then
                    return { { suggestion=r.texts[1], offset=r.offset } }
                else
                    return r.texts[1], r.offset
                end
            end
        end
    end
end
function RULE(name, key, offset, texts)
    local r = { key=key, offset=offset ~= 0 and offset or nil, texts={} }
    for x in texts:gmatch("[^|]+") do r.texts[#r.texts + 1] = x end
    if texts == "" then r.texts[1] = "" end
    table.insert(SUG[name], r)
end
local mode, result = internal._is_suggestionlist_mode, internal.set_suggestion_result
function LIST(text, ew)
    local line = {
        getline=function() return text end,
        getcursor=function() return #text + 1 end,
        getwordcount=function() return ew > 1 and 2 or 1 end,
        getword=function(_, n) return n == 1 and "x" or text:sub(ew) end,
        getwordinfo=function() return { offset=ew } end,
    }
    internal._is_suggestionlist_mode = function() return true end
    internal.set_suggestion_result = function(l, o, r)
        for _, e in ipairs(r or {}) do OUT[#OUT + 1] = table.concat({ e[1], tostring(e[2] or 0), e.source, tostring(e.history or 0) }, "\t") end
    end
    local typed, found = text:sub(ew), {}
    for _, w in ipairs(WORDS) do
        if #w >= #typed and (w:sub(1, #typed) == typed or (CASELESS and clink.lower(w:sub(1, #typed)) == clink.lower(typed))) then found[#found + 1] = w end
    end
    local matches = {
        getsuppressquoting=function() return false end,
        getmatch=function(_, n) return found[n] end,
        getappendchar=function() return " " end,
        getdescription=function() end,
    }
    clink._internal._suggest(line, {}, matches, nil, 0)
    internal._is_suggestionlist_mode, internal.set_suggestion_result = mode, result
end
print = function() end
)LUA";
struct word_generator : public match_generator
{
    std::vector<std::string> words;
    bool generate(const line_states&, match_builder& b, bool) override { for (auto& w : words) b.add_match(w.c_str(), match_type::file); return true; }
    void get_word_break_info(const line_state&, word_break_info& i) const override { i.clear(); }
};
struct suggest_host : public host_callbacks
{
    suggester* s = nullptr; bool asked = false; std::string line; unsigned ew = 0, wo = 0; bool quoted = false;
    void filter_prompt() override {}
    void filter_transient_prompt(bool final) override {}
    bool can_suggest(const line_state& l) override
    {
        extern bool can_suggest_internal(const line_state&);
        const auto& w = l.get_words();
        ew = l.get_end_word_offset(); wo = w.size() ? w.back().offset : 0; quoted = w.size() && w.back().quoted;
        return s && can_suggest_internal(l);
    }
    bool suggest(const line_states& lines, matches* m, int32 id) override
    {
        const line_state& l = lines.back();
        asked = true; line.assign(l.get_line(), l.get_length());
        return s->suggest(lines, m, id);
    }
    bool filter_matches(char**) override { return false; }
    bool call_lua_rl_global_function(const char*, const line_state*) override { return false; }
    const char** copy_dir_history(int32* total) override { *total = 0; return nullptr; }
    void send_event(const char*) override {}
    void send_oncommand_event(line_state&, const char*, bool, recognition, const char*) override {}
    void send_oninputlinechanged_event(const char*) override {}
    bool has_event_handler(const char*) override { return false; }
    bool get_command_word(line_state&, str_base&, bool&, recognition&, str_base&) override { return false; }
};
extern void initialise_readline(const char* shell_name, const char* state_dir, const char* default_inputrc, bool no_user=false);
class line_editor_impl;
extern void set_active_line_editor(line_editor_impl* editor, host_callbacks* callbacks);
VMODULE(suggest)
{
    v_terminal_in in;
    v_terminal_out out;
    printer prn(out);
    printer_context pc(&out, &prn);
    cmd_command_tokeniser ct; cmd_word_tokeniser wt;
    suggest_host host;
    word_generator gen;
    line_editor::desc desc(nullptr, nullptr, nullptr, &host);
    desc.input = &in; desc.output = &out; desc.printer = &prn;
    desc.command_tokeniser = &ct; desc.word_tokeniser = &wt;
    desc.prompt = "% ";
    out.cols = 200;
    initialise_readline("clink", ".", "", true);
    settings::find("clink.colorize_input")->set("false");
    settings::find("autosuggest.async")->set("false");
    settings::find("autosuggest.hint")->set("false");
    settings::find("history.show_preview")->set("false");
    line_editor* ed = nullptr;
    std::unique_ptr<str_compare_scope> scope; // As host::edit_line has it.
    std::unique_ptr<lua_state> lua;
    std::unique_ptr<suggester> sug;
    lua_State* L = nullptr;
    auto pump = [&](const std::string& keys) {
        in.set(keys);
        do { if (!ed->update()) { str<> l; ed->get_line(l); if (!ed->update()) break; } }
        while (rl_has_queued_input() || in.available(0));
    };
    // What is on the line: drawn anew, escape codes removed.
    auto shown = [&]() {
        out.text.clear();
        rl_forced_update_display();
        std::string s;
        for (size_t i = 0; i < out.text.size(); ++i)
        {
            if (out.text[i] != '\x1b') { if (out.text[i] != '\r' && out.text[i] != '\n') s += out.text[i]; continue; }
            if (++i < out.text.size() && out.text[i] == '[')
                while (++i < out.text.size() && !(out.text[i] >= 0x40 && out.text[i] <= 0x7e)) {}
        }
        const size_t p = s.rfind("% ");
        return p == std::string::npos ? s : s.substr(p + 2);
    };
    auto list = [&](jout& j, const char* name, const char* key) {
        j.k(key).arr();
        lua_getglobal(L, name);
        for (int i = 1, n = int(lua_rawlen(L, -1)); i <= n; ++i) { lua_rawgeti(L, -1, i); j.s(lua_tostring(L, -1)); lua_pop(L, 1); }
        j.aend();
        lua_settop(L, 0);
    };
    auto show = [&](jout& j) {
        j.ks("text", std::string(rl_line_buffer, rl_end)).ki("pt", rl_point).ki("asked", host.asked).ks("for", host.line).ki("ew", host.ew).ki("wo", host.wo).ki("q", host.quoted);
        j.ks("seen", shown());
        host.asked = false; host.line.clear();
    };
    for (const auto& f : script)
    {
        jout j;
        const std::string& op = f[0];
        auto arg = [&](size_t i) -> std::string { return i < f.size() ? f[i] : std::string(); };
        j.obj().ks("op", op);
        if (op == "reset")
        {
            // reset ORIGCASE CASE INLINE DUPE STRATEGY
            host.s = nullptr;
            if (ed) { pump("\x1b"); pump("\r"); line_editor_destroy(ed); ed = nullptr; }
            clear_history();
            gen.words.clear();
            settings::find("autosuggest.original_case")->set(arg(1).c_str()); j.ki("orig", atoi(arg(1).c_str()));
            settings::find("match.ignore_case")->set(arg(2) == "1" ? "on" : "off"); j.ki("caseless", atoi(arg(2).c_str()));
            scope.reset(); scope.reset(new str_compare_scope(arg(2) == "1" ? str_compare_scope::caseless : str_compare_scope::exact, false));
            settings::find("autosuggest.inline")->set(arg(3).c_str()); j.ki("inline", atoi(arg(3).c_str()));
            settings::find("history.dupe_mode")->set(arg(4).c_str()); j.ks("dupe", arg(4));
            settings::find("suggestionlist.num_history")->set(arg(5).c_str()); j.ki("num", atoi(arg(5).c_str()));
            settings::find("autosuggest.strategy")->set(arg(6).c_str()); j.ks("strategy", arg(6));
            sug.reset(); lua.reset();
            lua.reset(new lua_state);
            { lua_state& l = *lua; lua_load_script(l, app, suggest); }
            sug.reset(new suggester(*lua));
            L = lua->get_state();
            if (luaL_dostring(L, c_lua)) { fprintf(stderr, "%s\n", lua_tostring(L, -1)); return 77; }
            lua_pushboolean(L, arg(2) == "1"); lua_setglobal(L, "CASELESS");
        }
        else if (!L) return 77;
        else if (op == "hist") { add_history(arg(1).c_str()); using_history(); j.ks("t", arg(1)); }
        else if (op == "word") { gen.words.push_back(arg(1)); j.ks("t", arg(1)); lua_getglobal(L, "WORDS"); lua_pushstring(L, arg(1).c_str()); lua_rawseti(L, -2, int(lua_rawlen(L, -2)) + 1); lua_settop(L, 0); }
        else if (op == "suggester")
        {
            lua_getglobal(L, "SUGGESTER"); lua_pushstring(L, arg(1).c_str()); lua_pushstring(L, arg(2).c_str()); lua_newtable(L);
            if (lua_pcall(L, 3, 0, 0)) return 77;
            j.ks("name", arg(1)).ks("kind", arg(2));
        }
        else if (op == "rule")
        {
            // rule NAME KEY OFFSET TEXTS
            lua_getglobal(L, "RULE"); lua_pushstring(L, arg(1).c_str()); lua_pushstring(L, arg(2).c_str()); lua_pushinteger(L, atoi(arg(3).c_str())); lua_pushstring(L, arg(4).c_str());
            if (lua_pcall(L, 4, 0, 0)) return 77;
            j.ks("name", arg(1)).ks("key", arg(2)).ki("offset", atoi(arg(3).c_str())).ks("texts", arg(4));
        }
        else if (op == "list")
        {
            lua_getglobal(L, "LIST"); lua_pushstring(L, arg(1).c_str()); lua_pushinteger(L, atoi(arg(2).c_str()));
            if (lua_pcall(L, 2, 0, 0)) { fprintf(stderr, "%s\n", lua_tostring(L, -1)); return 77; }
            j.ks("line", arg(1)).ki("ew", atoi(arg(2).c_str()));
            list(j, "OUT", "out");
            if (luaL_dostring(L, "OUT, CALLS = {}, {}")) return 77;
        }
        else
        {
            if (!ed)
            {
                ed = line_editor_create(desc);
                ed->set_generator(gen);
                host.s = sug.get();
                ed->update();
                if (luaL_dostring(L, "CALLS = {}")) return 77;
                host.asked = false;
            }
            if (op == "key") { pump(arg(1)); j.ks("k", arg(1)); }
            else if (op == "cmd" || op == "quick")
            {
                // quick CMD KEY: the key and the command typed ahead.
                rl_command_func_t* fn = rl_named_function(arg(1).c_str());
                if (!fn) { fprintf(stderr, "no command %s\n", arg(1).c_str()); return 77; }
                rl_bind_keyseq("\\C-xq", fn);
                pump(arg(2) + "\x18q");
                j.ks("c", arg(1)).ks("k", arg(2));
            }
            else return 77;
            show(j);
            list(j, "CALLS", "calls");
            if (luaL_dostring(L, "CALLS = {}")) return 77;
        }
        j.end(); j.flush();
    }
    return 0;
}
