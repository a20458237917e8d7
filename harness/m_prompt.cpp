// Prompt filters: prompt.lua (and config.lua's module loader) with generated
// filters, coroutines and .clinkprompt modules, filtered by prompt_filter.
#include "vdrv.h"
#include "vterm.h"
#include <core/settings.h>
#include <core/os.h>
#include <lib/host_callbacks.h>
#include <lib/line_editor.h>
#include <lib/cmd_tokenisers.h>
#include <lua/lua_state.h>
#include <lua/lua_script_loader.h>
#include <lua/lua_input_idle.h>
#include <lua/prompt.h>
#include <terminal/printer.h>
#include <terminal/terminal_helpers.h>
#include <functional>
#include <memory>
extern "C" {
#include <lua.h>
#include <lauxlib.h>
#include <readline/readline.h>
}
extern bool g_filtering_in_progress;
static const char c_lua[] = R"LUA(
local internal = import_internal
LOG, BODY, DEF, MODS, ID = {}, {}, {}, {}, {}
local function log(...) LOG[#LOG + 1] = table.concat({...}, "\t") end
ADD = log
-- The order in which coroutines get their turns is arbitrary; make it repeat.
local rnd = SEED
local real_pairs = pairs
function pairs(t)
    if type((next(t))) ~= "thread" then return real_pairs(t) end
    local keys, at, made = {}, {}, {}
    for k in real_pairs(t) do keys[#keys + 1] = k end
    table.sort(keys, function (a, b) return (ID[a] or 0) < (ID[b] or 0) end)
    for _, k in ipairs(keys) do rnd = (rnd * 75 + 74) % 65537 at[k] = rnd * 1000 + (ID[k] or 0) end
    table.sort(keys, function (a, b) return at[a] < at[b] end)
    local n = 0
    return function()
        while n < #keys do
            n = n + 1
            if t[keys[n]] ~= nil then return keys[n], t[keys[n]] end
        end
    end
end
local create, made = coroutine.create, 0
coroutine.create = function(f)
    local c = create(f)
    made = made + 1
    ID[c] = made
    return c
end
local function body(key, steps)
    return function(async)
        for k = 1, #steps do
            local o = steps:sub(k, k)
            log("b", key, k, async and "1" or "0")
            if o == "y" then coroutine.yield()
            elseif o == "e" then error("boom")
            elseif o == "f" then clink.refilterprompt()
            elseif o == "n" then return nil
            elseif o == "r" then return "R"..key end
        end
        log("b", key, #steps + 1, async and "1" or "0")
    end
end
local function func(id, name, codes)
    return function(self, x)
        log("c", id, name, x)
        for k = 1, #codes do
            local o = codes:sub(k, k)
            if o == "a" then x = x..id
            elseif o == "p" then x = id..x
            elseif o == "z" then x = id
            elseif o == "l" then x = x.."\n"..id
            elseif o == "k" then x = x.."\n"
            elseif o == "q" then x = "\027]133;A\007"..x
            elseif o == "w" then x = x.."\027]133;B\007"
            elseif o == "e" then error("boom")
            elseif o:match("%d") then
                local cookie = o ~= "0" and o or nil
                local r = clink.promptcoroutine(body(id.."."..o, BODY[id.."."..o] or "r"), cookie)
                x = x..(r or "-")
            elseif o == "." then return x
            elseif o == "!" then return x, false
            elseif o == "T" then return x, true
            elseif o == "n" then return nil
            elseif o == "N" then return nil, false end
        end
    end
end
local function define(d)
    if d.t == "old" then
        clink.prompt.register_filter(function(x)
            log("c", d.id, "f", x)
            clink.prompt.value = clink.prompt.value..d.id
            return d.f == "!"
        end, d.prio)
        return
    end
    local p = clink.promptfilter(d.prio)
    local names = { f="filter", r="rightfilter", t="transientfilter", u="transientrightfilter" }
    for k, n in real_pairs(names) do if d[k] ~= "" then p[n] = func(d.id, k, d[k]) end end
    if d.s then p.surround = function() return d.s[1], d.s[2], d.s[3], d.s[4] end end
end
function DEFINE(id, prio, module, f, r, t, u, s)
    local d = { id=id, prio=tonumber(prio), f=f, r=r, t=t, u=u }
    if s ~= "" then
        d.s = {}
        local n = 0
        for x in (s.."|"):gmatch("([^|]*)|") do n = n + 1 if x ~= "-" then d.s[n] = x end end
    end
    if module == "" then define(d) else table.insert(MODS[module].defs, d) end
end
function DEFMOD(name)
    for _, d in ipairs(MODS[name].defs) do define(d) end
    clink.onbeginedit(function() log("m", name) end)
    log("load", name)
    return {
        dependson=MODS[name].depends,
        onactivate=function() log("on", name) end,
        ondeactivate=function() log("off", name) end,
    }
end
function MODULE(name, depends)
    MODS[name] = { defs={}, depends=depends ~= "" and depends or nil }
end
clink.print = function() end
print = function() end
)LUA";
struct prompt_host : public host_callbacks
{
    prompt_filter* pf = nullptr; std::string p, r; std::function<void(std::vector<std::string>)> log;
    std::string text, rtext;
    void run(bool transient, bool final, const char* a, const char* b)
    {
        if (!pf) return;
        log({"S", transient ? "transient" : "normal"});
        str<> out, rout;
        rollback<bool> rb(g_filtering_in_progress, true);
        bool ok = pf->filter(a, b, out, rout, transient, final);
        text = out.c_str(); rtext = rout.c_str();
        log({"F", out.c_str(), rout.c_str(), ok ? "1" : "0"});
    }
    // As host::filter_prompt.
    void filter_prompt() override { setting_bool* s = (setting_bool*)settings::find("prompt.async"); if (s->get()) run(false, false, p.c_str(), r.c_str()); }
    void filter_transient_prompt(bool final) override {}
    bool can_suggest(const line_state&) override { return false; }
    bool suggest(const line_states&, matches*, int32) override { return false; }
    bool filter_matches(char**) override { return false; }
    bool call_lua_rl_global_function(const char*, const line_state*) override { return false; }
    const char** copy_dir_history(int32* total) override { *total = 0; return nullptr; }
    void send_event(const char*) override {}
    void send_oncommand_event(line_state&, const char*, bool, recognition, const char*) override {}
    void send_oninputlinechanged_event(const char*) override {}
    bool has_event_handler(const char*) override { return false; }
    bool get_command_word(line_state&, str_base&, bool&, recognition&, str_base&) override { return false; }
};
extern void initialise_readline(const char* shell_name, const char* state_dir, const char* default_inputrc, bool no_user=false);
class line_editor_impl;
extern void set_active_line_editor(line_editor_impl* editor, host_callbacks* callbacks);
VMODULE(prompt)
{
    char root[MAX_PATH]; GetCurrentDirectoryA(sizeof root, root);
    CreateDirectoryA("pr", nullptr); SetCurrentDirectoryA("pr");
    GetCurrentDirectoryA(sizeof root, root);
    SetEnvironmentVariableA("CLINK_THEMES_DIR", root);
    CreateDirectoryA("cwd", nullptr); SetCurrentDirectoryA("cwd");
    char cwd[MAX_PATH]; GetCurrentDirectoryA(sizeof cwd, cwd);
    v_terminal_in in;
    v_terminal_out out;
    printer prn(out);
    printer_context pc(&out, &prn);
    cmd_command_tokeniser ct; cmd_word_tokeniser wt;
    prompt_host host;
    line_editor::desc desc(nullptr, nullptr, nullptr, &host);
    desc.input = &in; desc.output = &out; desc.printer = &prn;
    desc.command_tokeniser = &ct; desc.word_tokeniser = &wt;
    initialise_readline("clink", ".", "", true);
    line_editor* ed = line_editor_create(desc);
    set_active_line_editor((line_editor_impl*)ed, &host);
    std::unique_ptr<lua_state> lua;
    std::unique_ptr<lua_input_idle> idle;
    std::unique_ptr<prompt_filter> pf;
    lua_State* L = nullptr;
    auto call = [&](const char* f, const std::vector<std::string>& a) {
        int top = lua_gettop(L);
        lua_getglobal(L, f);
        for (auto& s : a) lua_pushlstring(L, s.data(), s.size());
        bool bad = lua_pcall(L, int(a.size()), 0, 0) != 0;
        if (bad) fprintf(stderr, "%s: %s\n", f, lua_tostring(L, -1));
        lua_settop(L, top);
        return !bad;
    };
    host.log = [&](std::vector<std::string> v) { call("ADD", v); };
    for (const auto& f : script)
    {
        jout j;
        const std::string& op = f[0];
        auto arg = [&](size_t i) -> std::string { return i < f.size() ? f[i] : std::string(); };
        j.obj().ks("op", op);
        if (op == "reset")
        {
            host.pf = nullptr; pf.reset(); idle.reset(); lua.reset();
            SetCurrentDirectoryA(cwd);
            for (char m : std::string("123")) { std::string n = std::string(root) + "/m" + m + ".clinkprompt"; DeleteFileA(n.c_str()); }
            settings::find("prompt.async")->set(arg(1).c_str()); j.ki("async", atoi(arg(1).c_str()));
            settings::find("terminal.shell_integration")->set(arg(2) == "1" ? "on" : "off"); j.ki("ftsc", atoi(arg(2).c_str()));
            const char* vars[] = { "CLINK_PROMPT_PREFIX", "CLINK_PROMPT_SUFFIX", "CLINK_RPROMPT_PREFIX", "CLINK_RPROMPT_SUFFIX" };
            j.k("env").arr();
            for (int i = 0; i < 4; ++i) { std::string v = arg(4 + i); SetEnvironmentVariableA(vars[i], v.empty() ? nullptr : v.c_str()); j.s(v); }
            j.aend();
            lua.reset(new lua_state);
            idle.reset(new lua_input_idle(*lua));
            pf.reset(new prompt_filter(*lua)); host.pf = pf.get();
            { lua_state& l = *lua; lua_load_script(l, app, config); lua_load_script(l, app, prompt); }
            L = lua->get_state();
            lua_pushinteger(L, atoi(arg(3).c_str())); lua_setglobal(L, "SEED");
            if (luaL_dostring(L, c_lua)) { fprintf(stderr, "%s\n", lua_tostring(L, -1)); return 77; }
            // What the two codes are is the terminal's business.
            str<> s;
            j.k("codes").arr();
            for (const char* c : { "133;A", "133;B", "9;9" }) { s.clear(); extern bool make_ftsc(const char*, str_base&); make_ftsc(c, s); j.s(s.c_str()); }
            j.aend();
            j.ks("cwd", cwd);
        }
        else if (!L) return 77;
        else if (op == "body")
        {
            lua_getglobal(L, "BODY"); lua_pushstring(L, arg(2).c_str()); lua_setfield(L, -2, arg(1).c_str()); lua_settop(L, 0);
            j.ks("key", arg(1)); j.k("steps").arr(); for (char c : arg(2)) j.s(std::string(1, c)); j.aend();
        }
        else if (op == "filter")
        {
            // filter ID PRIO MODULE F R T U S
            std::vector<std::string> a;
            for (int i = 1; i <= 8; ++i) a.push_back(arg(i));
            if (!call("DEFINE", a)) return 77;
            j.ks("id", a[0]).ki("prio", atoi(a[1].c_str())).ks("mod", a[2]);
            const char* n[] = { "f", "r", "t", "u" };
            for (int i = 0; i < 4; ++i) { j.k(n[i]).arr(); for (char c : a[3 + i]) j.s(std::string(1, c)); j.aend(); }
            j.ki("old", a[5] == "old");
            j.k("s").arr();
            if (!a[7].empty()) { std::string x = a[7] + "|"; size_t b = 0, e; while ((e = x.find('|', b)) != std::string::npos) { j.s(x.substr(b, e - b)); b = e + 1; } }
            j.aend();
        }
        else if (op == "module")
        {
            if (!call("MODULE", { arg(1), arg(2) })) return 77;
            FILE* h = fopen((std::string(root) + "/" + arg(1) + ".clinkprompt").c_str(), "w");
            fprintf(h, "return DEFMOD(\"%s\")\n", arg(1).c_str()); fclose(h);
            j.ks("name", arg(1)).ks("dep", arg(2));
        }
        else if (op == "activate")
        {
            // activate HOW NAME: by name or by full path.
            std::string n = arg(2);
            if (!n.empty() && arg(1) != "name") n = std::string(root) + (arg(1) == "slash" ? "/" : "\\") + n + ".clinkprompt";
            lua->activate_clinkprompt_module(n.c_str());
            j.ks("name", arg(2)).ks("how", n);
        }
        else if (op == "async") { settings::find("prompt.async")->set(arg(1).c_str()); j.ki("on", atoi(arg(1).c_str())); }
        else if (op == "line")
        {
            host.p = arg(1); host.r = arg(2); j.ks("p", host.p).ks("r", host.r);
            lua->send_event("onbeginedit"); idle->reset();
            host.run(false, false, host.p.c_str(), host.r.c_str());
        }
        else if (op == "transient") { j.ks("p", arg(1)).ks("r", arg(2)); host.run(true, false, arg(1).c_str(), arg(2).c_str()); }
        else if (op == "refilter") { lua_getglobal(L, "clink"); lua_getfield(L, -1, "refilterprompt"); j.ki("err", lua_pcall(L, 0, 0, 0) != 0); lua_settop(L, 0); }
        else if (op == "pass") idle->on_idle();
        else if (op == "wait") { unsigned t = idle->get_timeout(); j.ki("t", t == INFINITE ? -1 : int(t)); }
        else if (op == "expand")
        {
            str<> s;
            os::set_pushd_depth(atoi(arg(3).c_str()));
            bool ok = prompt_utils::expand_prompt_codes(arg(1).c_str(), s, arg(2) == "1" ? expand_prompt_flags::single_line : arg(2) == "2" ? expand_prompt_flags::omit_pushd : expand_prompt_flags::none);
            j.ks("in", arg(1)).ki("flag", atoi(arg(2).c_str())).ki("depth", atoi(arg(3).c_str())).ki("ok", ok).ks("out", s.c_str());
        }
        else return 77;
        j.k("log").arr();
        lua_getglobal(L, "LOG");
        for (int i = 1, n = int(lua_rawlen(L, -1)); i <= n; ++i) { lua_rawgeti(L, -1, i); j.s(lua_tostring(L, -1)); lua_pop(L, 1); }
        j.aend();
        lua_settop(L, 0);
        if (luaL_dostring(L, "for i = #LOG, 1, -1 do LOG[i] = nil end")) return 77;
        lua_settop(L, 0);
        j.end(); j.flush();
    }
    return 0;
}
