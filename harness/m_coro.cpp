// Background coroutines: the scheduler in coroutines.lua, driven by the real
// idle object, with stand-ins for the processes and the clock.
#include "vdrv.h"
#include <core/settings.h>
#include <lua/lua_state.h>
#include <lua/lua_input_idle.h>
#include <memory>
extern "C" {
#include <lua.h>
#include <lauxlib.h>
}
static const char c_lua[] = R"LUA(
local internal = import_internal
LOG, PROG, CAT, IV, CO, PR, FN, PC = {}, {}, {}, {}, {}, {}, {}, {}
NOW = 100
local function log(...) LOG[#LOG + 1] = table.concat({...}, " ") end
local function here() return (os.getcwd():match("[^\\/]*$")) end
os.clock = function() return NOW end
rl_state = 0
local function process(command, need)
    local g = { out=false, exit=false, need=need }
    function g:ready() if self.need then return self.exit end return self.out or self.exit end
    function g:command() return command end
    function g:set_need_completion() self.need = true end
    function g:results() return true, "exit", 7 end
    PR[command] = g
    log("s", command)
    return g
end
io.popenyield_internal = function(command) return { close=function() end }, process(command, false) end
os.executeyield_internal = function(command) return process(command, true) end
-- The order in which coroutines get their turns is arbitrary; make it repeat.
local rnd = SEED
local real_pairs = pairs
function pairs(t)
    if type((next(t))) ~= "thread" then return real_pairs(t) end
    local keys, at = {}, {}
    for id = 1, 9 do if CO[id] and t[CO[id]] ~= nil then
        rnd = (rnd * 75 + 74) % 65537
        at[CO[id]] = rnd * 16 + id
        keys[#keys + 1] = CO[id]
    end end
    for k in real_pairs(t) do if not at[k] then at[k] = #keys * 2000000 keys[#keys + 1] = k end end
    table.sort(keys, function (a, b) return at[a] < at[b] end)
    local n = 0
    return function()
        while n < #keys do
            n = n + 1
            if t[keys[n]] ~= nil then return keys[n], t[keys[n]] end
        end
    end
end
local real = coroutine.resume
local function resume(c, ...)
    local _, ismain = coroutine.running()
    for id, x in real_pairs(CO) do if x == c then log(ismain and "r" or "n", id) end end
    local r = table.pack(real(c, ...))
    return table.unpack(r)
end
coroutine.resume = resume
local function create(id)
    if CO[id] then return end
    local k = 0
    if CAT[id] == "prompt" then coroutine.override_isprompt() end
    if CAT[id] == "generator" then coroutine.override_isgenerator() end
    CO[id] = coroutine.create(function()
        local me = CO[id]
        for _, op in ipairs(PROG[id]) do
            k = k + 1
            local o, n = op:match("^(%a)(%d*)$")
            local cmd = id.."."..k
            n = tonumber(n) or 0
            log("o", cmd, here(), rl_state)
            if o == "y" then coroutine.yield()
            elseif o == "p" then
                local f = io.popenyield(cmd)
                log("g", cmd, type(f) == "table" and "f" or "n")
            elseif o == "q" then
                local f, pc = io.popen(cmd)
                log("g", cmd, type(f) == "table" and "f" or "n")
                PC[id] = pc
            elseif o == "w" then
                local pc = PC[id]
                PC[id] = nil
                if pc then
                    local ok, what, code = pc()
                    log("c", cmd, code)
                end
            elseif o == "x" then
                local ok, what, code = os.execute(cmd)
                log("c", cmd, code)
            elseif o == "m" then clink.runonmain(FN[n])
            elseif o == "e" then error("boom")
            elseif o == "c" then create(n)
            elseif o == "u" then pcall(clink.runcoroutineuntilcomplete, me)
            elseif o == "i" then pcall(clink.setcoroutineinterval, me, n / 4)
            elseif o == "j" then pcall(clink.setcoroutineinterval, me)
            elseif o == "d" then os.chdir(ROOT.."\\d"..n)
            elseif o == "l" then rl_state = n
            elseif o == "r" then if n ~= id and CO[n] and coroutine.status(CO[n]) == "suspended" then coroutine.resume(CO[n]) end
            elseif o == "f" then if n ~= id and CO[n] and coroutine.status(CO[n]) == "suspended" then clink.removecoroutine(CO[n]) end
            elseif o == "z" then
                local till = NOW + n / 4
                local a = { ready=function() return false end, getexpiration=function() return till end, getname=function() return "z" end }
                while NOW < till do
                    clink._internal._set_coroutine_asyncyield(a)
                    coroutine.yield()
                    clink._internal._set_coroutine_asyncyield(nil)
                end
            end
        end
        log("d", id)
    end)
    if IV[id] > 0 then clink.setcoroutineinterval(CO[id], IV[id] / 4) end
end
for n = 1, 40 do
    FN[n] = function()
        log("m", n, here(), rl_state)
        if n > 30 then create(n - 30)
        elseif n > 20 then local c = CO[n - 20] if c and coroutine.status(c) == "suspended" then coroutine.resume(c) end
        elseif n > 10 then error("boom") end
    end
end
function DO(op, a, b)
    local n = tonumber(a) or 0
    if op == "new" then create(n)
    elseif op == "fin" then if PR[a] then PR[a].out = true end
    elseif op == "exit" then if PR[a] then PR[a].exit = true end
    elseif op == "tick" then NOW = NOW + n / 4
    elseif op == "cancel" then if CO[n] then internal._cancel_coroutine(CO[n]) end
    elseif op == "remove" then if CO[n] and coroutine.status(CO[n]) == "suspended" then clink.removecoroutine(CO[n]) end
    elseif op == "until" then if CO[n] then pcall(clink.runcoroutineuntilcomplete, CO[n]) end
    elseif op == "resume" then if CO[n] and coroutine.status(CO[n]) == "suspended" then coroutine.resume(CO[n]) end
    elseif op == "main" then clink.runonmain(FN[n])
    elseif op == "cd" then os.chdir(ROOT.."\\d"..n)
    elseif op == "rl" then rl_state = n
    end
end
function DEAD()
    local r = {}
    for id = 1, 9 do if CO[id] and coroutine.status(CO[id]) == "dead" then r[#r + 1] = id end end
    return table.concat(r, " ")
end
HERE = here
)LUA";
VMODULE(coro)
{
    char root[MAX_PATH]; GetCurrentDirectoryA(sizeof root, root);
    CreateDirectoryA("coro", nullptr); SetCurrentDirectoryA("coro");
    GetCurrentDirectoryA(sizeof root, root);
    for (int i = 0; i < 5; ++i) { char d[] = "d0"; d[1] = char('0' + i); CreateDirectoryA(d, nullptr); }
    SetCurrentDirectoryA("d0");
    std::unique_ptr<lua_state> lua;
    std::unique_ptr<lua_input_idle> idle;
    lua_State* L = nullptr;
    auto run = [&](const char* s) { if (luaL_dostring(L, s)) { fprintf(stderr, "%s\n", lua_tostring(L, -1)); lua_settop(L, 0); return false; } return true; };
    auto get = [&](const char* f) -> std::string { lua_getglobal(L, f); lua_call(L, 0, 1); std::string s = lua_tostring(L, -1); lua_settop(L, 0); return s; };
    for (const auto& f : script)
    {
        jout j;
        const std::string& op = f[0];
        j.obj().ks("op", op);
        if (op == "reset")
        {
            SetCurrentDirectoryA(root); SetCurrentDirectoryA("d0");
            idle.reset(); lua.reset(new lua_state); idle.reset(new lua_input_idle(*lua));
            L = lua->get_state();
            lua_pushstring(L, root); lua_setglobal(L, "ROOT");
            lua_pushinteger(L, atoi(f[2].c_str())); lua_setglobal(L, "SEED");
            if (!run(c_lua)) return 77;
            settings::find("lua.throttle_interval")->set(f[1].c_str()); j.ki("thr", atoi(f[1].c_str()) * 4);
        }
        else if (!L) return 77;
        else if (op == "prog")
        {
            // prog ID CATEGORY INTERVAL OP...
            std::string s = "PROG[" + f[1] + "],CAT[" + f[1] + "],IV[" + f[1] + "]={";
            j.ki("n", atoi(f[1].c_str())).ks("cat", f[2]).ki("iv", atoi(f[3].c_str())).k("prog").arr();
            for (size_t i = 4; i < f.size(); ++i) { s += "'" + f[i] + "',"; j.s(f[i]); }
            j.aend();
            s += "},'" + f[2] + "'," + f[3];
            if (!run(s.c_str())) return 77;
        }
        else if (op == "line") { lua->send_event("onbeginedit"); idle->reset(); }
        else if (op == "pass") idle->on_idle();
        else if (op == "wait") { unsigned t = idle->get_timeout(); j.ki("t", t == INFINITE ? -1 : int(t)); }
        else
        {
            lua_getglobal(L, "DO");
            for (size_t i = 0; i < f.size(); ++i) lua_pushstring(L, f[i].c_str());
            j.ks("a", f.size() > 1 ? f[1] : "");
            bool err = lua_pcall(L, int(f.size()), 0, 0) != 0;
            j.ki("err", err);
            lua_settop(L, 0);
        }
        j.k("log").arr();
        lua_getglobal(L, "LOG");
        for (int i = 1, n = int(lua_rawlen(L, -1)); i <= n; ++i) { lua_rawgeti(L, -1, i); j.s(lua_tostring(L, -1)); lua_pop(L, 1); }
        j.aend();
        lua_settop(L, 0);
        run("for i = #LOG, 1, -1 do LOG[i] = nil end");
        lua_getglobal(L, "clink"); lua_getfield(L, -1, "_internal"); lua_getfield(L, -1, "_has_coroutines"); lua_call(L, 0, 1);
        j.ki("has", lua_toboolean(L, -1)); lua_settop(L, 0);
        j.ks("dead", get("DEAD")).ks("cwd", get("HERE"));
        lua_getglobal(L, "rl_state"); j.ki("rl", lua_isnil(L, -1) ? -1 : int(lua_tointeger(L, -1))); lua_settop(L, 0);
        j.end(); j.flush();
    }
    return 0;
}
