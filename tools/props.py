#!/usr/bin/env python3
"""Source of /verif/properties.jsonl.  Run to regenerate it."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)

prop("C01", "Saved history is never lost, whatever sessions do, exit or crash",
 "Every line a session adds to its history stays recallable, byte for byte, in order and with its own time stamp, by that session, and by every session that loads the history after the adding session has ended, until some session removes it, clears the history, or a rule the user configured (duplicates, maximum size) drops it. This holds for any number of concurrent sessions, with and without a shared history, and when a session ends without any chance to clean up: the next session to start collects what the dead one left, at least once and without disturbing sessions that are still alive.",
 ["histories", "schedules", "crash_points", "configurations"],
 "For all interleavings of start/add/remove/clear/compact/reload/exit/kill of any number of sessions on one profile, and all values of history.shared, history.save, history.max_lines, history.time_stamp, history.dupe_mode.",
 "The tests run a handful of fixed two-session scripts in one process; none kills a session, and none explores interleavings.",
 ["clink/lib/src/history_db.cpp", "clink/lib/include/lib/history_db.h"],
 [("per-session bank appended to the master bank when the session ends", "history_db::reap"),
  ("orphan detection through the alive file", "history_db::reap"),
  ("append only log with in-place tombstones", "history_db::add, write_lock::remove")],
 ["history_db::load_rl_history", "history_db::read_lines", "the files in the profile directory"])

prop("C02", "Removing a history line removes exactly that line",
 "A removal (of a line's text, of an entry by its id, by position, or by the erase_prev duplicate rule) takes away exactly the entries it names and nothing else, in the running session, in the files and for later sessions. A removal that a session could not apply at once to the shared history is applied when that session ends; when the shared history was rewritten in the meantime it still hits the entry it named or nothing, never another entry.",
 ["histories", "schedules", "crash_points"],
 "For all histories of adds and removals in any sessions, with compaction and clearing by other sessions between recording a removal and applying it.",
 "Tests cover one removal recorded before one compaction; which entry an offset denotes depends on the whole history of rewrites.",
 ["clink/lib/src/history_db.cpp"],
 [("concurrency tag checked before applying offsets", "history_db::reap, history_db::remove_internal"),
  ("offset remapping", "rewrite_master_bank")],
 ["history_db::remove", "history_db::read_lines"])

prop("C03", "Compacting, limiting and de-duplicating history keeps what it must keep",
 "Compacting the history never changes which live lines it holds or their order, except that it drops the oldest lines beyond the configured or requested limit and, when asked for unique lines, all but the last occurrence of each; it drops every dead entry it counts as deleted. The configured duplicate rule (add, ignore, erase_prev) and the ignore-leading-space rule decide exactly which lines enter the history.",
 ["histories", "configurations"],
 "For all histories, limits, dupe modes and compaction requests, including compactions while other sessions are alive.",
 "Tests compact small fixed files with one limit; ordering with deletions, stamps and duplicates is a property of all histories.",
 ["clink/lib/src/history_db.cpp"],
 [("compaction", "history_db::compact, rewrite_master_bank"), ("duplicate policy", "history_db::add")],
 ["history_db::compact", "history_db::add"])

prop("C04", "The settings file keeps every value the user chose",
 "Whatever a user sets persists: after any sequence of sets, resets, saves, loads, scripts adding and removing settings, and migrations from old names, loading the settings file gives every setting the value last set for it, or its default (customized by a default_settings file when there is one) if it was reset or never set. Settings that no loaded script currently defines keep their saved values, and setting one setting changes no other.",
 ["histories", "configurations"],
 "For all sequences of operations on all sets of registered and unregistered settings and all file contents.",
 "Tests never save, and register a fixed set; the loss needs a particular order of load, register, save and unregister.",
 ["clink/core/src/settings.cpp", "clink/core/include/core/settings.h", "clink/app/src/loader/set.cpp"],
 [("loaded map retains unknown settings", "settings.cpp: load_internal, save_internal"), ("deferred load", "setting::deferred_load")],
 ["settings::load", "settings::save", "setting::get"])

prop("C05", "A setting only ever holds a value of its type",
 "Setting a value from text either succeeds, and then the setting holds the value that text denotes and formatting it and setting the formatted text gives the same value again, or is refused and changes nothing. Booleans, integers, enumerations (by name in any case, or index) and colours accept exactly their documented spellings.",
 ["inputs", "histories"],
 "For all texts, for each type of setting, from every prior value.",
 "Tests try a few spellings per type.",
 ["clink/core/src/settings.cpp"],
 [("per type parse and format", "settings.cpp: setting_impl<T>::parse, setting_enum::parse, setting_color::parse")],
 ["setting::set", "setting::get"])

prop("C06", "Keys resolve to the longest bound sequence and no keystroke is lost",
 "A sequence of keystrokes is split into commands exactly as the bindings say: the longest sequence bound in the active group wins, the digits typed for a wildcard reach the command as its parameters, keystrokes that match nothing are delivered one by one to the catch-all or dropped whole, keys left over from an unmatched sequence are resolved at once, and every keystroke is consumed exactly once, in order. Binding a sequence makes that sequence, and no other, invoke that command.",
 ["inputs", "configurations"],
 "For all sets of bindings over all groups and all keystroke sequences.",
 "Tests use one fixed tree with a few inputs.",
 ["clink/lib/src/binder.cpp", "clink/lib/src/bind_resolver.cpp"],
 [("trie insertion", "binder::bind, binder::insert_child"), ("stepping and claiming", "bind_resolver::step, bind_resolver::next, binding::claim")],
 ["bind_resolver::next"])

prop("C07", "Queued input lines run once each, in order",
 "Text queued for execution (by scripts, aliases or pasted multi-line input) is delivered exactly once, in the order in which it was queued, front insertions before what is already waiting, split at line ends only, with nothing lost, duplicated or joined, whether it is taken by line or by character.",
 ["histories", "inputs"],
 "For all interleavings of queueing at either end and taking lines or characters.",
 "There are no tests of the queue.",
 ["clink/lib/src/line_queue.cpp"],
 [("queue", "line_queue::enqueue_lines, dequeue_line, dequeue_char")],
 ["line_queue::dequeue_line", "line_queue::dequeue_char"])

prop("C08", "Doskey aliases expand exactly as their definitions say",
 "An input line whose command word is a defined alias is replaced by the alias's definition with its arguments and control tags substituted as CMD documents, split at $T into several commands in order; a line that starts with no alias, or whose command is escaped from aliases by a leading space, comes back unchanged. With enhanced expansion the same applies to each command of a compound line, and text outside the expanded commands is unchanged.",
 ["inputs", "configurations"],
 "For all alias definitions and all input lines, in both expansion modes.",
 "The alias tests need a console service this environment lacks, and sample a few definitions.",
 ["clink/lib/src/doskey.cpp", "clink/lib/src/alias_cache.cpp"],
 [("expansion", "doskey::resolve, doskey::resolve_impl"), ("alias cache", "alias_cache::get_alias")],
 ["doskey::resolve", "doskey_alias::next"])

prop("C09", "A command line is split into commands and words the way CMD splits it",
 "For any input line and cursor position, the line is divided at CMD's separators into commands, each command's words, quotes, redirections and end word are found where CMD would find them, the words lie in order without overlapping inside their command's range, and completing or colouring sees the command the cursor is in. Quoted or escaped separators never split.",
 ["inputs"],
 "For all lines over separators, quotes, carets, redirections, blanks and ordinary characters, and all cursor positions.",
 "Tests sample a few dozen lines.",
 ["clink/lib/src/word_collector.cpp", "clink/lib/src/cmd_tokenisers.cpp", "clink/core/src/str_tokeniser.cpp"],
 [("command tokeniser", "cmd_command_tokeniser::next"), ("word tokeniser", "cmd_word_tokeniser::next"), ("collector", "word_collector::collect_words")],
 ["word_collector::collect_words", "line_state"])
prop("C10", "Completion offers exactly the candidates the typed word selects",
 "Of the candidates the match generators supply, each distinct one (text and type, after untyped ones were resolved to directory or file and slashes were translated as match.translate_slashes says) is offered exactly when the typed word selects it: as its beginning, or as a wildcard pattern when match.wild is on, or, only when that finds nothing and match.substring is on, as a part of it, comparing case, dashes and accents as configured and taking \\ and / as the same; hidden and system files only when configured. The order is the configured one (directories before, with or after files; by name; or the generator's order when it asks for that), narrowing and widening the word never loses or duplicates a candidate, and the common beginning of what is offered is the longest text that begins them all. Any number of candidates may be supplied.",
 ["inputs", "histories", "configurations"],
 "For all sets of candidates of all types, all words and patterns, all sequences of generate, select, restrict, keep, sort, iterate and copy, and all settings that take part.",
 "Tests complete a few words against fixed file trees; which candidates are dropped depends on combinations of types, settings and earlier selections.",
 ["clink/lib/src/match_pipeline.cpp", "clink/lib/src/matches_impl.cpp", "clink/core/include/core/match_wild.h", "clink/core/include/core/str_compare.h"],
 [("select by prefix, pattern or substring", "match_pipeline.cpp: select_matches, prefix_selector, pattern_selector"), ("candidates and duplicates", "matches_impl::add_match, done_building"), ("visible part", "matches_impl::coalesce"), ("order", "match_pipeline.cpp: sort_worker"), ("pattern iterator", "matches_iter::next")],
 ["match_pipeline", "matches::get_match", "matches_iter", "matches::get_lcd"])
prop("C11", "Every editing command changes the line, cursor and selection exactly as documented, and every change can be undone",
 "From any state of the input line, each editing command (typing, moving, selecting, deleting, killing and yanking, cutting, copying and pasting, changing case, transposing, history motion, accepting, inserting) leads to the text, cursor, selection, mark, clipboard and history position its documentation says; the cursor and the selection always lie between characters of the line, multi-byte ones included. Undo brings back each earlier text in turn down to the original; consecutive kills gather in one entry of the kill ring and yank brings it back; going through the history and returning loses neither the new line nor the edits and their undo; the line accepted is the line shown, and pasted lines are run, queued or joined as configured.",
 ["inputs", "histories", "configurations"],
 "For all sequences of editing commands with any numeric arguments, all texts including multi-byte ones, clipboard contents and histories.",
 "Tests press a few keys on fixed lines; most failures need a particular sequence of commands (edit, history motion, undo) or multi-byte text.",
 ["clink/lib/src/rl/rl_commands.cpp", "clink/lib/src/line_buffer.cpp", "clink/lib/src/rl/rl_module.cpp", "clink/lib/src/line_editor_impl.cpp", "readline/readline/undo.c", "readline/readline/kill.c", "readline/readline/text.c", "readline/readline/misc.c"],
 [("selection and clipboard", "rl_commands.cpp: cua_*, clink_paste"), ("undo", "rl_do_undo, rl_add_undo, hook_cua_undo"), ("kill ring", "_rl_copy_to_kill_ring, rl_kill_text"), ("history lines", "rl_maybe_save_line, rl_get_previous_history"), ("input loop", "line_editor_impl::update")],
 ["line_editor::update", "rl_line_buffer", "rl_point", "cua_get_anchor"])

prop("C12", "Escape codes in text are recognised exactly: no visible text is lost or miscounted",
 "However a text mixes characters, control characters and escape codes, it splits into exactly those: every visible character belongs to visible text, in order and complete at any length; every well-formed escape code is one piece with the meaning its parameters have; only malformed or unfinished codes are dropped; and it makes no difference in which chunks the text arrives. From this follow the number of cells a text takes, its plain text, its bracketed form for Readline's prompt, its form without colours (styles kept), environment values and titles in OSC codes, and what the terminal emulation asks of the screen (text, cursor movement, clearing, attributes with 16, 256 and 24-bit colours).",
 ["inputs"],
 "For all texts over visible characters, control characters, well-formed, malformed and truncated escape codes, of any length, in one piece or split anywhere between characters.",
 "Tests parse about thirty fixed codes; a parser's mistakes lie in combinations (what follows a malformed code, nesting, chunk borders, lengths).",
 ["clink/terminal/src/ecma48_iter.cpp", "clink/terminal/include/terminal/ecma48_iter.h", "clink/terminal/src/ecma48_terminal_out.cpp", "clink/terminal/src/ecma48_wrapper.cpp"],
 [("state machine", "ecma48_iter::next"), ("parameters", "ecma48_code::decode_csi, decode_osc"), ("prompt and plain text", "ecma48_processor"), ("terminal emulation", "ecma48_terminal_out::write, set_attributes")],
 ["ecma48_iter::next", "ecma48_processor", "cell_count", "calls on screen_buffer"])
prop("C13", "Path arithmetic never changes which file a path names",
 "Whatever form a path has (relative, rooted, with a drive, drive-relative, UNC, \\\\?\\, \\\\?\\UNC\\ or \\\\.\\; either kind of separator, in runs of any length; elements . and .. and names beginning with dots), cleaning it up names the same place in shortest form, is idempotent, never climbs above the root and leaves the root's form alone; splitting it into directory and name, or parent and child, and joining the parts again gives the same place; getting the drive, directory, name, base name or extension gives exactly that part; joining a rooted path to a directory gives that rooted path; and going to the parent ends at the root and never beyond.",
 ["inputs"],
 "For all paths of every form, of any length, with any runs of separators.",
 "Tests sample some forty paths; the code walks strings with several cursors and special cases for each kind of root, whose mistakes need particular combinations.",
 ["clink/core/src/path.cpp"],
 [("cleaning", "path::normalise"), ("roots", "past_drive, past_ssqs, is_unc, is_rooted"), ("splitting", "path::get_directory, get_name, get_base_name, get_extension, to_parent"), ("joining", "path::append, join")],
 ["path::normalise", "path::append", "path::to_parent", "path::get_directory"])
prop("C14", "Argument matchers offer and color exactly what their definitions say",
 "However scripts build argument matchers (argument positions, flags, links to other matchers, later additions to an existing command's matcher, looping, nofiles, flags not allowed everywhere, an end-of-flags word, hidden flags, chained commands, reset), for every line: each word is read by the matcher and position the definitions put it at; flags take no position; a linked word hands over to its matcher, which hands back when exhausted; redirections and other commands on the line count for nothing; at the end of the line exactly that position's words (or flags, or files) beginning with the typed text are offered, without the hidden ones; and each word is colored as argument, flag, other or none accordingly, so that what is offered is what is recognized.  Building a matcher never fails.",
 ["inputs", "histories"],
 "For all sequences of definitions, including links and merges, and all lines of words, flags, quotes, redirections and command separators.",
 "Tests check some hundred lines against fixed matchers; the reader keeps a stack of matchers and positions with many flags between them, and three separate loops (completion, word breaks, coloring) drive it.",
 ["clink/lua/scripts/arguments.lua"],
 [("building", "_argmatcher:addarg, addflags, hideflags, reset, merge_parsers"), ("reading words", "_argreader:update, next_word, _push, _pop"), ("completion", "_argmatcher:_generate"), ("coloring", "_argreader:classify_word, argmatcher_classifier:classify")],
 ["_argreader:update", "_argreader:_pop", "_argmatcher:_generate"])
prop("C15", "The screen always shows the prompt and the line, with the cursor in its place",
 "While a line is edited, whatever sequence of edits, cursor movement, history recall, prompt changes, redraws and screen clearing led there, what the terminal shows is what was on the screen before, then the current prompt, then the input line wrapped at the terminal's width (or, when the rows it may use do not suffice, a window of it that contains the cursor, with '<' and '>' where text is hidden), the right side prompt where there is room for it, and nothing else: no leftovers of earlier prompts or text. The cursor is on the character being edited. After the line is accepted the line, or the transient prompt and the line, remain, and output continues below them. This holds for wide characters, control characters, line breaks and prompts of any width.",
 ["inputs", "histories", "configurations"],
 "For all lines, prompts, right side and transient prompts, terminal sizes (from 11 columns and 3 rows), settings of horizontal scrolling and maximum input rows, and all sequences of commands.",
 "The tests run without a terminal; what is on the screen depends on the whole history of incremental updates, each computed against what was shown before.",
 ["clink/lib/src/display_readline.cpp", "clink/lib/src/rl_buffer.cpp", "clink/terminal/src/screen_buffer.cpp"],
 [("layout", "display_lines::parse, horz_parse, apply_scroll_markers"), ("update of the screen", "display_manager::display, update_line, finish_pending_wrap"), ("prompt changes", "defer_clear_lines, write_with_clear"), ("right side prompt", "display_manager::print_rprompt")],
 ["display_manager::display", "display_lines::parse", "display_manager::update_line"])
prop("C16", "Background coroutines take turns, one process at a time, and none is forgotten or disturbed",
 "While the editor is idle every coroutine that scripts created is resumed when it is due: at once, or when its interval, its throttling or its sleep is over. Processes that coroutines start (io.popenyield, os.execute) run one at a time per kind of coroutine (prompt, generator); the others queue and go on when the one before has ended, and the editor never waits longer than until the first coroutine that can go on (forever only when none can). Coroutines of an earlier line are dropped, except those marked to run until complete and those whose process still runs. Each coroutine sees its own current directory and line state around each of its turns, and leaves those of the others alone. Functions given to clink.runonmain run exactly once, in order, when control returns to the main coroutine. A coroutine that fails, ends, is canceled or is removed affects no other.",
 ["schedules", "histories", "inputs"],
 "For all programs of up to 6 coroutines made of yields, process starts, exit status requests, sleeps, creations, removals, directory changes and runonmain calls, and all orders of process endings, time steps, new lines and idle passes.",
 "The tests run no coroutine; the outcome depends on the order in which processes end, lines begin and idle passes occur, and on the arbitrary order of turns.",
 ["clink/lua/scripts/coroutines.lua", "clink/lua/src/lua_input_idle.cpp"],
 [("turns", "clink._internal._resume_coroutines, _wait_duration"), ("one process at a time", "io.popenyield, os.execute, set_coroutine_yieldguard, release_coroutine_yieldguard"), ("new line", "clear_coroutines"), ("own state", "save_coroutine_state, restore_coroutine_state"), ("main", "clink.runonmain, coroutine.resume")],
 ["what each coroutine did, in order", "lua_input_idle::get_timeout"])
prop("C17", "The prompt is what the prompt filters make of it, and is refreshed when they learn more",
 "The prompt shown is the given prompt passed through all prompt filters in the order of their priority (equal priorities in any order), each getting the text so far: returning nil changes nothing, returning text and false stops. Right-side, transient and transient right-side filters work alike on their own texts; a transient filter returning nil and false declines the transient prompt. Surround functions and the CLINK_*PROMPT prefix and suffix variables are put around the result, and $-codes are expanded. An error in a filter shows the error prompt, never an ended session. A filter's clink.promptcoroutine gives nil until its function has finished, then its result; the function runs once per filter (or cookie) per line, and the prompt is filtered again, once per pass, when any has finished. When prompt.async is off, and for transient prompts, the coroutine runs to its end at once (at most 25 turns). Filters and event handlers of a .clinkprompt module act exactly while it is the custom prompt, given by name or path, or one it depends on is; its onactivate and ondeactivate run when that begins and ends.",
 ["inputs", "histories", "schedules"],
 "For all sets of filters with any priorities and results, all coroutine bodies, all sequences of lines, idle passes, refreshes and changes of the custom prompt.",
 "The tests run no prompt filter; the prompt depends on the combination of filters, modules, settings, variables and on when coroutines finish.",
 ["clink/app/scripts/prompt.lua", "clink/lua/src/prompt.cpp", "clink/app/scripts/config.lua", "clink/lua/scripts/events.lua"],
 [("filtering", "clink._filter_prompt, prompt_filter::filter"), ("coroutines", "clink.promptcoroutine, clink.refilterprompt"), ("codes", "expand_prompt_codes"), ("modules", "clink._internal._activate_clinkprompt_module, ipairs_active")],
 ["the prompt and right-side prompt given to the editor", "what filters and handlers are called with"])
prop("C18", "A directory shortcut changes to exactly the directory it names, and nothing else is taken for one",
 "A line that is just one word naming an existing directory and ending in a separator (or a ~, or N dots meaning N-1 levels up, or a path of ..) becomes the command that changes to that directory, on any drive; quotes, carets and %VAR% in it mean what they mean in cmd. A line with redirection or pipe characters, unquoted separators or grouping characters, further words, or beginning with a command name such as cd. or md\\ is left alone, as is every line naming no existing directory. `-`, `cd -` and `chdir /d -` change to the previous directory. The directory history never has the same directory twice in a row, with directories.dupe_mode erase_prev never twice at all, never more than 100, and going to the previous directory twice returns to where one was.",
 ["inputs", "histories"],
 "For all lines over the characters of paths, quotes, carets, percent signs, separators and redirection, all existing directories, and all sequences of visited directories.",
 "No test covers it; the outcome depends on combinations of quoting, separators, variables, the current directory and what exists.",
 ["clink/lib/src/intercept.cpp", "clink/app/src/host/host.cpp"],
 [("recognising", "intercept_directory, parse_dir"), ("making the command", "make_cd_command"), ("directory history", "update_dir_history, prev_dir_history")],
 ["the line handed to cmd.exe", "what the previous directory is"])
prop("C19", "What is suggested comes from the first suggester that has something, and accepting it gives what was shown",
 "With the cursor at the end of the line, the suggesters named in autosuggest.strategy are asked in that order, each at most once, until one has a suggestion: history offers the latest entry that goes on where the line ends, match_prev_cmd the latest such entry that followed the command just run (only when history.dupe_mode is add), completion the first completion that is not typed already and needs no quotes added, and scripts what they return. A suggestion that does not agree with the line, or is for another line, is never shown or accepted. Accepting it gives the line that was shown (in the suggestion's capitalization with autosuggest.original_case, else keeping what was typed); accepting a word gives the beginning of it up to the end of the next word, or up to the next blank outside quotes, and the rest stays suggested. Nothing is suggested again right after accepting all of it, or erasing, until the line changes. The suggestion list holds at most 30 suggestions, history first (suggestionlist.num_history of them if others have something else to offer), no two that make the same line, and takes from the other suggesters evenly.",
 ["inputs", "histories"],
 "For all lines, histories, completions, suggesters and settings, and all sequences of typing, erasing, moving and accepting, also with keys typed ahead.",
 "No test covers suggestions; they depend on the combination of line, history, completions, settings and on what was accepted or erased before.",
 ["clink/lib/src/suggestions.cpp", "clink/app/scripts/suggest.lua", "clink/lua/src/internal_api.cpp", "clink/lua/src/suggest.cpp"],
 [("choosing", "_do_suggest, history_suggester"), ("showing", "suggestion_manager::get_visible, set, can_suggest"), ("accepting", "suggestion_manager::insert"), ("listing", "aggregate")],
 ["the line shown and the line after accepting", "the entries of the suggestion list"])
prop("C20", "Completing a word inserts what the candidates share, and changes nothing else",
 "Completion commands change only the word at the cursor: a single candidate is inserted whole, several insert their longest common beginning (menu completion each in turn, coming back to exactly the original word; insert-completions all of them), no candidate changes nothing. What is inserted is quoted exactly when it needs to be for the shell or the word already was (unless a script suppresses or forces quotes), a quote that was there is not doubled, and a single candidate is closed and followed by its append character at the end of the line, except a directory. Undoing a completion restores the line and the cursor.",
 ["inputs", "histories"],
 "For all lines and cursor positions, sets of candidates of all types, append characters, quoting flags and settings, and all sequences of completion commands, edits and undos.",
 "The tests cover some dozen lines; the outcome depends on the combination of candidates, quotes before and after the cursor, flags and on the commands before.",
 ["readline/readline/complete.c", "clink/lib/src/rl/rl_module.cpp", "clink/lib/src/matches_lookaside.cpp", "clink/lib/src/rl/rl_integration.cpp"],
 [("what is shared", "compute_lcd_of_matches, postprocess_matches"), ("quoting", "make_quoted_replacement, adjust_completion_word"), ("appending", "append_to_match, override_match_append"), ("menu completion", "rl_menu_complete, rl_old_menu_complete")],
 ["the line and the cursor after each command"])
prop("C21", "A history reference becomes exactly the text of the history it names",
 "With history expansion on, each reference in an accepted line (an event !!, !n, !-n, !text, !?text?, !# or ^old^new, with words and modifiers as documented) is replaced by the words it designates of the most recent remembered line it matches, and the rest of the line stays as it is; if any reference names nothing or is malformed the whole line stays as it is. References in quotes that history.expand_mode protects, and before blanks, = or the end, are left alone, and nothing is expanded when it is off; a line with :p is shown and not run. The result depends only on the remembered lines as they are now and the last substitution, the preview shows the same, and expanding changes neither the remembered lines nor the position among them.",
 ["inputs", "histories"],
 "For all remembered lines, all lines made of events, words, modifiers, quotes and other text, all modes, and all sequences of previews, expansions and changes of the history.",
 "The tests have some dozen references to a fixed history; the grammar nests events, words, modifiers and quotes, and lookups and substitutions are remembered between lines.",
 ["readline/readline/histexpand.c", "readline/readline/histsearch.c", "readline/readline/history.c", "clink/lib/src/history_db.cpp", "clink/lib/src/line_editor_impl.cpp"],
 [("events", "get_history_event"), ("words", "get_history_word_specifier, history_tokenize_internal, history_arg_extract"), ("modifiers", "history_expand_internal, get_subst_pattern"), ("quotes", "history_expand_control"), ("entry", "history_db::expand, history_expand")],
 ["the expanded line", "the previewed parts of the line"])
prop("C22", "Recalling, searching and reusing remembered lines loses and mixes up none of them",
 "Going back and on through the history (by one, by several, to the ends, to a number) and searching it for what is before the cursor, at the beginning or anywhere, shows exactly the remembered lines in order, search results being the nearest that have the text and differ from the one before; the new line being typed and edits to recalled lines are still there when one comes back to them, and what is saved does not change by moving. Accepting a line saves it as it is (as history.dupe_mode says) unless it is unchanged the line being reused under history.sticky_search, in which case going on continues from there; operate-and-get-next brings the line after it. add-history and remove-history add or remove exactly the line shown, and position and search go on from the neighbour.",
 ["inputs", "histories"],
 "For all histories and settings and all sequences of moving, searching, typing, erasing, adding, removing and accepting, over several lines.",
 "No test covers recalling; what is right depends on where the line came from, what was edited, removed or searched before, and on the line reused last.",
 ["readline/readline/misc.c", "readline/readline/search.c", "readline/readline/history.c", "clink/lib/src/sticky_search.cpp", "clink/lib/src/rl/rl_module.cpp", "clink/app/src/host/host.cpp"],
 [("moving", "rl_get_previous_history, rl_get_next_history, rl_maybe_save_line"), ("searching", "rl_history_search_internal, rl_history_search_reinit"), ("reusing", "save_sticky_search_position, restore_sticky_search_position, can_sticky_search_add_history"), ("adding and removing", "rl_add_history, rl_remove_history"), ("next line", "rl_operate_and_get_next")],
 ["the line and the cursor after each command", "the saved history after each line"])
open(os.path.join(os.path.dirname(__file__), "../properties.jsonl"), "w").write("".join(json.dumps(p) + "\n" for p in P))
