From a08c22d7ec0b9fe47e2c6dc8d8738ae9e1fee26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:26 +0000
Subject: [PATCH 01/86] fix: write a history line, its timestamp, and its
 newline in one write

Dying between the separate writes left an unterminated line or a stray
timestamp, which then merged with whatever line was appended next.
---
 clink/lib/src/history_db.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/clink/lib/src/history_db.cpp b/clink/lib/src/history_db.cpp
index 85a3e9c..34c7147 100644
--- a/clink/lib/src/history_db.cpp
+++ b/clink/lib/src/history_db.cpp
@@ -784,8 +784,11 @@ line_id_impl write_lock::add(const char* line)
     const DWORD offset = SetFilePointer(m_handle_lines, 0, nullptr, FILE_END);
     if (offset == INVALID_SET_FILE_POINTER)
         return line_id_impl();
-    WriteFile(m_handle_lines, line, int32(strlen(line)), &written, nullptr);
-    WriteFile(m_handle_lines, "\n", 1, &written, nullptr);
+    // Write the line and its newline together, so that dying midway can't leave
+    // an unterminated line for the next line to get appended onto.
+    str_moveable tmp(line);
+    tmp << "\n";
+    WriteFile(m_handle_lines, tmp.c_str(), tmp.length(), &written, nullptr);
     if (offset >= c_max_line_id.offset)
         return c_max_line_id;
     return line_id_impl(offset);
@@ -1794,17 +1797,19 @@ bool history_db::add(const char* line, time_t* out_timestamp)
     if (!lock)
         return false;
 
+    // The timestamp and line are written together, so that dying midway can't
+    // leave a stray timestamp to be associated with some other line.
+    str_moveable record;
     if (g_history_timestamp.get() > 0)
     {
-        str<32> timestamp;
         const time_t now = time(0);
         if (out_timestamp)
             *out_timestamp = now;
-        timestamp.format("|\ttime=%u", now);
-        lock.add(timestamp.c_str());
+        record.format("|\ttime=%u\n", now);
     }
 
-    lock.add(line);
+    record << line;
+    lock.add(record.c_str());
     return true;
 }
 
-- 
2.43.0


From 22ac700545bc8c6bd33e85208ebfb98c1f40de9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:26 +0000
Subject: [PATCH 02/86] fix: don't give a removed history line's timestamp to
 the next line

When a line was skipped due to a deferred removal, its timestamp stayed
pending and the next line without a timestamp of its own inherited it.
---
 clink/lib/src/history_db.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/clink/lib/src/history_db.cpp b/clink/lib/src/history_db.cpp
index 34c7147..4ab309c 100644
--- a/clink/lib/src/history_db.cpp
+++ b/clink/lib/src/history_db.cpp
@@ -737,6 +737,11 @@ line_id_impl read_lock::line_iter::next(str_iter& out, str_base* timestamp, hist
         // also test for deferred removals here.
         if (*start == '|' || eating_ctag || (!too_big && m_removals.find(offset) != m_removals.end()))
         {
+            // A preceding timestamp belongs to the line being skipped.
+            if (timestamp)
+                timestamp->clear();
+            if (timestamp_id)
+                *timestamp_id = 0;
             if (!eating_ctag)
                 ++m_deleted;
             continue;
-- 
2.43.0


From 1e3c96a435db98aa8ca4e4bf674b31c95628e6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:26 +0000
Subject: [PATCH 03/86] fix: compacting with unique and a limit could erase the
 whole history

When there were more lines than the limit but fewer unique lines than the
limit, the index wrapped around and no lines were kept.
---
 clink/lib/src/history_db.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clink/lib/src/history_db.cpp b/clink/lib/src/history_db.cpp
index 4ab309c..d13918e 100644
--- a/clink/lib/src/history_db.cpp
+++ b/clink/lib/src/history_db.cpp
@@ -1061,8 +1061,8 @@ static void rewrite_master_bank(write_lock& lock, size_t limit=0, size_t* _kept=
     size_t start = 0;
     if (0 < limit && limit < lines_to_keep.size())
     {
-        for (start = lines_to_keep.size(); limit && start--;)
-            if (lines_to_keep[start].get())
+        for (start = lines_to_keep.size(); limit && start;)
+            if (lines_to_keep[--start].get())
                 --limit;
     }
 
-- 
2.43.0


From b6fd93396e59811dbd04664c17e8a1b85dd6fa12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:26 +0000
Subject: [PATCH 04/86] fix: reload history after trimming so that list indices
 stay in sync

Trimming to history.max_lines removed entries from m_index_map but not
from Readline's history list, so lines beyond the limit remained, and
removing a line by its index in the list removed a different line.
---
 clink/lib/src/history_db.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/clink/lib/src/history_db.cpp b/clink/lib/src/history_db.cpp
index d13918e..9624de7 100644
--- a/clink/lib/src/history_db.cpp
+++ b/clink/lib/src/history_db.cpp
@@ -1555,7 +1555,10 @@ void history_db::load_rl_history(bool can_clean)
     // history file.
     if (can_clean && m_use_master_bank)
     {
-        if (compact())
+        // Trimming updates m_index_map but not Readline's history list, so
+        // reload even if the master bank didn't get rewritten.
+        const size_t num_loaded = m_index_map.size();
+        if (compact() || m_index_map.size() != num_loaded)
             load_internal();
     }
 
-- 
2.43.0


From 24b8f2660cc6411ed1d647b6ab0cb25e66b893c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:55 +0000
Subject: [PATCH 05/86] fix: don't lose deferred history removals after the
 history is cleared

Clearing gives the master bank a new ctag, but a session's removals file
kept the old one (or none), so its later removals were silently ignored.
---
 clink/lib/src/history_db.cpp | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/clink/lib/src/history_db.cpp b/clink/lib/src/history_db.cpp
index 9624de7..0592004 100644
--- a/clink/lib/src/history_db.cpp
+++ b/clink/lib/src/history_db.cpp
@@ -385,6 +385,9 @@ public:
     line_id_impl    add(const char* line);
     bool            remove(line_id_impl id);
     void            append(const read_lock& src);
+
+private:
+    void            ensure_removals_ctag();
 };
 
 //------------------------------------------------------------------------------
@@ -814,6 +817,8 @@ bool write_lock::remove(line_id_impl id)
         str<> s;
         s.format("%d\n", id.offset);
 
+        ensure_removals_ctag();
+
         DWORD written;
         SetFilePointer(m_handle_removals, 0, nullptr, FILE_END);
         WriteFile(m_handle_removals, s.c_str(), s.length(), &written, nullptr);
@@ -828,6 +833,33 @@ bool write_lock::remove(line_id_impl id)
     return true;
 }
 
+//------------------------------------------------------------------------------
+// Deferred removals only apply when their ctag matches the master bank's ctag.
+// If the master bank has been cleared since the removals file was started, then
+// the removals file must start over, or else new removals would be ignored.
+void write_lock::ensure_removals_ctag()
+{
+    concurrency_tag master_ctag;
+    if (!extract_ctag(*this, master_ctag))
+        return;
+
+    char buffer[max_ctag_size];
+    concurrency_tag removals_ctag;
+    file_iter iter(m_handle_removals, buffer);
+    if (extract_ctag(iter, buffer, sizeof(buffer), removals_ctag) &&
+        strcmp(master_ctag.get(), removals_ctag.get()) == 0)
+        return;
+
+    SetFilePointer(m_handle_removals, 0, nullptr, FILE_BEGIN);
+    SetEndOfFile(m_handle_removals);
+
+    str<64> tmp;
+    tmp << master_ctag.get() << "\n";
+
+    DWORD written;
+    WriteFile(m_handle_removals, tmp.c_str(), tmp.length(), &written, nullptr);
+}
+
 //------------------------------------------------------------------------------
 void write_lock::append(const read_lock& src)
 {
-- 
2.43.0


From 54d15bbedfb493faa2e3070bc25076af6336e823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:11 +0000
Subject: [PATCH 06/86] fix: discard leftover history removals that are for a
 different ctag

When a session id was reused after a crash and the master bank had been
cleared or rewritten since, the leftover removals file got a new ctag but
kept its old offsets, so unrelated history lines were removed.
---
 clink/lib/src/history_db.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/clink/lib/src/history_db.cpp b/clink/lib/src/history_db.cpp
index 0592004..1c72978 100644
--- a/clink/lib/src/history_db.cpp
+++ b/clink/lib/src/history_db.cpp
@@ -162,10 +162,21 @@ static void* make_removals_file(const char* path, const char* ctag)
     void* handle = open_file(path);
     if (handle)
     {
-        DWORD written;
-        DWORD len = DWORD(strlen(ctag));
-        WriteFile(handle, ctag, len, &written, nullptr);
-        WriteFile(handle, "\n", 1, &written, nullptr);
+        str<64> tag;
+        tag << ctag << "\n";
+
+        // Removals left by an earlier session with the same id are only
+        // meaningful if they're for the same ctag; otherwise discard them.
+        char existing[64];
+        DWORD read = 0;
+        ReadFile(handle, existing, min<DWORD>(tag.length(), sizeof(existing)), &read, nullptr);
+        if (read != tag.length() || memcmp(existing, tag.c_str(), read) != 0)
+        {
+            DWORD written;
+            SetFilePointer(handle, 0, nullptr, FILE_BEGIN);
+            SetEndOfFile(handle);
+            WriteFile(handle, tag.c_str(), tag.length(), &written, nullptr);
+        }
     }
     return handle;
 }
-- 
2.43.0


From 2edb7e80f08d7edef439c8d1060f9b932b184299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:31 +0000
Subject: [PATCH 07/86] fix: compacting history doesn't let lines already
 removed displace live ones

When the session compacting the history had removals pending (erase_prev
without a shared history), the rewriting of the master bank counted those
lines against the limit and as latest occurrences for uniq, so lines that
should have been kept were dropped.
---
 clink/lib/src/history_db.cpp | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/clink/lib/src/history_db.cpp b/clink/lib/src/history_db.cpp
index 1c72978..6ee616f 100644
--- a/clink/lib/src/history_db.cpp
+++ b/clink/lib/src/history_db.cpp
@@ -28,6 +28,7 @@ extern "C" {
 #include <algorithm>
 #include <memory>
 #include <unordered_set>
+#include <set>
 
 #include <core/debugheap.h>
 
@@ -1021,7 +1022,7 @@ static bool extract_ctag(const read_lock& lock, concurrency_tag& tag)
 }
 
 //------------------------------------------------------------------------------
-static void rewrite_master_bank(write_lock& lock, size_t limit=0, size_t* _kept=nullptr, size_t* _deleted=nullptr, bool uniq=false, size_t* _dups=nullptr, std::map<line_id_impl, line_id_impl>* remap=nullptr)
+static void rewrite_master_bank(write_lock& lock, size_t limit=0, size_t* _kept=nullptr, size_t* _deleted=nullptr, bool uniq=false, size_t* _dups=nullptr, std::map<line_id_impl, line_id_impl>* remap=nullptr, const std::set<line_id_impl>* removed=nullptr)
 {
     history_read_buffer buffer;
     str_map_case<size_t>::type seen;
@@ -1039,6 +1040,7 @@ static void rewrite_master_bank(write_lock& lock, size_t limit=0, size_t* _kept=
     {
         remap_history_line m_line;
         remap_history_line m_timestamp;
+        bool            m_removed;      // Pending removal by this session.
     };
 
     // Read lines to keep into vector.
@@ -1062,8 +1064,12 @@ static void rewrite_master_bank(write_lock& lock, size_t limit=0, size_t* _kept=
         if (!timestamp.empty())
             tmp.format("|\ttime=%s", timestamp.c_str());
 
+        // A line this session has already removed (but the removal hasn't been
+        // applied to the master bank yet) must not displace other lines.
+        const bool is_removed = (removed && removed->find(id) != removed->end());
+
         // Maybe apply uniq and keep only the latest.
-        if (uniq)
+        if (uniq && !is_removed)
         {
             auto const lookup = seen.find(keep->m_line.m_line.get());
             if (lookup != seen.end())
@@ -1083,6 +1089,7 @@ static void rewrite_master_bank(write_lock& lock, size_t limit=0, size_t* _kept=
         keep->m_timestamp.m_line.set(tmp.empty() ? nullptr : tmp.c_str());
         keep->m_timestamp.m_old = timestamp_id;
         keep->m_line.m_old = id;
+        keep->m_removed = is_removed;
 
         // And keep them.
         lines_to_keep.emplace_back(std::move(keep));
@@ -1105,8 +1112,11 @@ static void rewrite_master_bank(write_lock& lock, size_t limit=0, size_t* _kept=
     if (0 < limit && limit < lines_to_keep.size())
     {
         for (start = lines_to_keep.size(); limit && start;)
-            if (lines_to_keep[--start].get())
+        {
+            const auto& keep = lines_to_keep[--start];
+            if (keep && !keep->m_removed)
                 --limit;
+        }
     }
 
     // Write lines from vector.
@@ -1768,11 +1778,24 @@ bool history_db::compact(bool force, bool uniq, int32 _limit)
         }
     });
 
+    // Lines this session has already removed don't count.
+    std::set<line_id_impl> removed;
+    if (m_bank_handles[bank_session].m_handle_removals)
+    {
+        read_lock src(m_bank_handles[bank_session]);
+        if (src && dest)
+        {
+            std::vector<line_id_impl> lines;
+            src.collect_removals(dest, lines);
+            removed.insert(lines.begin(), lines.end());
+        }
+    }
+
     // Rewrite the master bank and apply the limit (if any).  This may also
     // optionally enforce uniqueness.  The result counters are written to
     // the log file.
     std::map<line_id_impl, line_id_impl> remap_removals;
-    rewrite_master_bank(dest, limit, &kept, &deleted, uniq, &dups, &remap_removals);
+    rewrite_master_bank(dest, limit, &kept, &deleted, uniq, &dups, &remap_removals, &removed);
 
     // Extract the new master concurrency tag.
     str<64> old_ctag(m_master_ctag.get());
-- 
2.43.0


From 016b7ecf6c8dde416359c488909c5b86b1325d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:45 +0000
Subject: [PATCH 08/86] fix: doskey expansion keeps the closing parens of a
 parenthesized command

'(foo)' or '(foo arg)' expanded the macro inside the parens but dropped the
closing paren unless the macro used $*, and $* swallowed it.
---
 clink/lib/src/doskey.cpp | 74 ++++++++++++++++++++++++++--------------
 1 file changed, 48 insertions(+), 26 deletions(-)

diff --git a/clink/lib/src/doskey.cpp b/clink/lib/src/doskey.cpp
index 94aa04e..cb76958 100644
--- a/clink/lib/src/doskey.cpp
+++ b/clink/lib/src/doskey.cpp
@@ -29,7 +29,7 @@ setting_bool g_enhanced_doskey(
 
 
 //------------------------------------------------------------------------------
-static bool get_alias(const wchar_t* shell_name, str_iter& in, uint32& skipped, str_base& alias, str_base& text, int32& parens, bool relaxed=false)
+static bool get_alias(const wchar_t* shell_name, str_iter& in, uint32& skipped, str_base& alias, str_base& text, int32& parens, bool& closed, bool relaxed=false)
 {
     alias.clear();
     text.clear();
@@ -62,9 +62,14 @@ static bool get_alias(const wchar_t* shell_name, str_iter& in, uint32& skipped,
 
         if (c == '\0' || c == ' ' || (relaxed && (c == '|' || c == '&')))
         {
-            uint32 len = uint32(in.get_pointer() - start);
-            len = trim_trailing_parens(start, 0, len, parens);
+            const uint32 word_len = uint32(in.get_pointer() - start);
+            const uint32 len = trim_trailing_parens(start, 0, word_len, parens);
             alias.concat(start, len);
+            // When closing parens immediately follow the alias, then there are
+            // no arguments.  Leave the closing parens in the input.
+            closed = (len < word_len);
+            if (closed)
+                in.reset_pointer(start + len);
             break;
         }
 
@@ -77,7 +82,7 @@ fallback:
         in.reset_pointer(orig);
         if (relaxed || !g_enhanced_doskey.get())
             return false;
-        return get_alias(shell_name, in, skipped, alias, text, parens, true);
+        return get_alias(shell_name, in, skipped, alias, text, parens, closed, true);
     }
 
     // Find the alias' text. First check it exists.
@@ -324,7 +329,8 @@ bool doskey::resolve_impl(str_iter& s, str_stream& out, int32* _point)
     str<32> text;
     uint32 skipped;
     int32 parens;
-    if (!get_alias(m_shell_name.data(), in, skipped, alias, text, parens))
+    bool closed = false;
+    if (!get_alias(m_shell_name.data(), in, skipped, alias, text, parens, closed))
         return false;
     out << str_stream::range(s.get_pointer(), skipped);
 
@@ -395,31 +401,40 @@ bool doskey::resolve_impl(str_iter& s, str_stream& out, int32* _point)
             }
         }
     }
-    if (split)
-    {
-        // Restrict to resolve only up to the command separator.
-        const char* start = in.get_pointer();
-        const char* end = in.get_pointer() + in.length();
-        const char* ptr = find_command_end(start, int32(end - start));
-        uint32 len = uint32(ptr - in.get_pointer());
-        len = trim_trailing_parens(start, 0, len, parens);
-        command.truncate(int32(ptr - command.get_pointer()));
-        in.truncate(len);
-
-        // Consume the input up to the command separator.
-        new (&s) str_iter(ptr, int32(end - ptr));
-    }
-    else
-    {
-        // Consume the entire input.
-        new (&s) str_iter(in.get_pointer() + in.length(), 0);
-    }
+    const char* const args_start = in.get_pointer();
+    const char* const input_end = args_start + in.length();
+
+    // Restrict to resolve only up to the command separator, if splitting.
+    const char* const command_end = split ? find_command_end(args_start, int32(input_end - args_start)) : input_end;
+    command.truncate(int32(command_end - command.get_pointer()));
+
+    // The closing parens that match the skipped opening parens are not part of
+    // the arguments; they follow the expanded text.
+    uint32 args_len = uint32(command_end - args_start);
+    args_len = closed ? 0 : trim_trailing_parens(args_start, 0, args_len, parens);
+    in.truncate(args_len);
+    const char* const args_end = args_start + args_len;
+
+    // Consume the input up to the command separator, or the entire input.
+    new (&s) str_iter(command_end, int32(input_end - command_end));
 
     // Don't do point processing if the point is outside the input.
     const bool point_in_command = (point && *point >= out_len && *point <= int32(out_len + command.length()));
     if (point && !point_in_command)
         point = nullptr;
 
+    // If the point is in the closing parens, it stays there.
+    int32 point_ofs_closing = -1;
+    if (point && args_end < command_end)
+    {
+        const int32 closing_start = out_len + int32(args_end - command.get_pointer());
+        if (*point >= closing_start)
+        {
+            point_ofs_closing = *point - closing_start;
+            point = nullptr;
+        }
+    }
+
     // Collect the remaining tokens.
     str_tokeniser tokens(in, " ");
     str_iter token;
@@ -593,9 +608,8 @@ bool doskey::resolve_impl(str_iter& s, str_stream& out, int32* _point)
         // 'c' is now the arg index or -1 if it is all of them to be inserted.
         if (c < 0)
         {
-            const char* end = command.get_pointer() + command.length();
             const char* start = args.front()->ptr;
-            stream << str_stream::range(start, int32(end - start));
+            stream << str_stream::range(start, int32(args_end - start));
         }
         else if (c < arg_count)
         {
@@ -617,6 +631,14 @@ bool doskey::resolve_impl(str_iter& s, str_stream& out, int32* _point)
         *point = max<int32>(out_len, stream.trimmed_length());
     }
 
+    // Closing parens follow the expanded text.
+    if (args_end < command_end)
+    {
+        if (point_ofs_closing >= 0)
+            *_point = stream.length() + point_ofs_closing;
+        stream << str_stream::range(args_end, uint32(command_end - args_end));
+    }
+
     // If the point is still ahead, adjust it by the current command delta.
     if (_point && !point_in_command && *_point >= int32(out_len + command.length()))
     {
-- 
2.43.0


From 72f702648b71fef401b2757826da68d6163ea226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:47 +0000
Subject: [PATCH 09/86] fix: a codepoint after a redirection symbol could drop
 the rest of the words

cmd_word_tokeniser::next() returned the last codepoint truncated to a
char as the token's delimiter.  A codepoint whose low byte is 0xff (e.g.
U+00FF) was then mistaken for the invalid token, and the remaining words
in the command were lost.
---
 clink/lib/src/cmd_tokenisers.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/clink/lib/src/cmd_tokenisers.cpp b/clink/lib/src/cmd_tokenisers.cpp
index 5a37b70..1e4a344 100644
--- a/clink/lib/src/cmd_tokenisers.cpp
+++ b/clink/lib/src/cmd_tokenisers.cpp
@@ -667,5 +667,8 @@ word_token cmd_word_tokeniser::next(uint32& offset, uint32& length)
     if (!redir_arg)
         m_command_word = false;
 
-    return word_token(m_iter.more() ? c : 0, redir_arg);
+    // The token's delim is a char, so a codepoint that ends up in c (e.g. after
+    // a redirection symbol) must not be mistaken for invalid_delim.
+    const bool ascii = (c > 0 && c < 0x80);
+    return word_token((ascii && m_iter.more()) ? c : 0, redir_arg);
 }
-- 
2.43.0


From 0e516abb99f27a08f3e6202a9c9e00462e5a8a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:27 +0000
Subject: [PATCH 10/86] fix: don't read past the last command range for an
 empty end word

---
 clink/lib/src/word_collector.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/clink/lib/src/word_collector.cpp b/clink/lib/src/word_collector.cpp
index 9894d1a..b1d2b86 100644
--- a/clink/lib/src/word_collector.cpp
+++ b/clink/lib/src/word_collector.cpp
@@ -490,8 +490,11 @@ void command_line_states::set(const char* line_buffer,
             assert(command_iter != commands.end());
             while (command_iter->offset + command_iter->length < command_char_offset)
             {
+                // An empty end word can be past the end of the last command
+                // range; e.g. `()` with the cursor at the end.
+                if (command_iter + 1 == commands.end())
+                    break;
                 ++command_iter;
-                assert(command_iter != commands.end());
             }
 
             const bool limit_cursor = (mode == collect_words_mode::stop_at_cursor);
-- 
2.43.0


From c11347c5c4e8c8f41e9f1a46b9d71b56b824b778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:49 +0000
Subject: [PATCH 11/86] fix: saving settings twice could lose a setting whose
 script was unloaded

The loop that clears the saved flags iterated over copies, so a setting
that was registered during an earlier save kept its saved flag and was
omitted from a later save after its script was unloaded.
---
 clink/core/src/settings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/core/src/settings.cpp b/clink/core/src/settings.cpp
index de6b095..e9c1f49 100644
--- a/clink/core/src/settings.cpp
+++ b/clink/core/src/settings.cpp
@@ -612,7 +612,7 @@ static bool save_internal(const char* file, bool migrating)
         return false;
 
     // Clear the saved flag so we can track which ones have been saved so far.
-    for (auto iter : get_loaded_map())
+    for (auto& iter : get_loaded_map())
         iter.second.saved = false;
 
     // Iterate over each setting and write it out to the file.
-- 
2.43.0


From e8165e88882194e218203b382e41db53f6d5c849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:49 +0000
Subject: [PATCH 12/86] fix: don't close the default settings file twice

load_internal() already closes the file.
---
 clink/core/src/settings.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/clink/core/src/settings.cpp b/clink/core/src/settings.cpp
index e9c1f49..16d8b3e 100644
--- a/clink/core/src/settings.cpp
+++ b/clink/core/src/settings.cpp
@@ -319,8 +319,6 @@ static bool parse_ini(FILE* in, std::vector<settings::setting_name_value>& out)
         custom_default.value = value;
         map.emplace(name, std::move(custom_default));
     });
-
-    fclose(in);
 }
 
 
-- 
2.43.0


From 21d36e6bfbe6257050a2594f2f801750649d22c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:49 +0000
Subject: [PATCH 13/86] fix: setting a setting whose script isn't loaded didn't
 replace its value

map::emplace() doesn't replace an existing value, so an overlay (e.g. a
color theme) couldn't change a setting that isn't currently defined if the
settings file already had a value for it.
---
 clink/core/src/settings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/core/src/settings.cpp b/clink/core/src/settings.cpp
index 16d8b3e..4441a67 100644
--- a/clink/core/src/settings.cpp
+++ b/clink/core/src/settings.cpp
@@ -372,7 +372,7 @@ static bool set_setting(const char* name, const char* value, const char* comment
                 loaded.comment = l->second.comment.c_str();
         }
         loaded.value = value;
-        get_loaded_map().emplace(name, std::move(loaded));
+        get_loaded_map()[name] = std::move(loaded);
         return true;
     }
 
-- 
2.43.0


From 998b6d81bda6218397a86b2f7e554e5e4512c55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:49 +0000
Subject: [PATCH 14/86] fix: settings.clear() crashed or didn't update the
 settings file

It passes a nullptr value to sandboxed_set_setting(), which was passed on
to the setting's parser:  that crashed for integer and enum settings, failed
for boolean settings, and stored an empty string for string and color
settings.
---
 clink/core/src/settings.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/clink/core/src/settings.cpp b/clink/core/src/settings.cpp
index 4441a67..7e6a83d 100644
--- a/clink/core/src/settings.cpp
+++ b/clink/core/src/settings.cpp
@@ -771,9 +771,16 @@ bool sandboxed_set_setting(const char* name, const char* value)
     rollback<loaded_settings_map*> rb_loaded(g_loaded_settings, &tmp_loaded_map);
 
     // Load settings.
-    return (load(file, default_file) &&
-            set_setting(name, value) &&
-            save(file));
+    if (!load(file, default_file))
+        return false;
+
+    // Set or clear the setting.
+    if (!value)
+        clear_setting(name);
+    else if (!set_setting(name, value))
+        return false;
+
+    return save(file);
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From d94c88f57a543e5b3c04b4f3c139ae25ab9c7022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:49 +0000
Subject: [PATCH 15/86] fix: updating the settings file didn't roll back
 in-memory color settings

The rollback saved the escape code of a color setting, which set() doesn't
accept, so the in-memory value was silently replaced by the file's value.
---
 clink/core/src/settings.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clink/core/src/settings.cpp b/clink/core/src/settings.cpp
index 7e6a83d..7be3831 100644
--- a/clink/core/src/settings.cpp
+++ b/clink/core/src/settings.cpp
@@ -738,8 +738,9 @@ public:
         str_moveable value;
         for (auto& i : get_map())
         {
+            // The descriptive form is what set() accepts for a color setting.
             setting* iter = i.second;
-            iter->get(value);
+            iter->get_descriptive(value, false/*compat*/);
             m_restore.emplace(iter->get_name(), std::move(value));
         }
     }
-- 
2.43.0


From 5e3997538eb87559498369fcd94e6ab7a5beb538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:49 +0000
Subject: [PATCH 16/86] fix: custom default wasn't applied to an enum setting
 added by a script

The base class constructor can't parse option names, so as with color
settings the default must be (re)applied once the object is constructed.
---
 clink/core/src/settings.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/clink/core/src/settings.cpp b/clink/core/src/settings.cpp
index 7be3831..0a55f5d 100644
--- a/clink/core/src/settings.cpp
+++ b/clink/core/src/settings.cpp
@@ -1467,6 +1467,7 @@ setting_enum::setting_enum(
 , m_options(options)
 {
     m_type = type_enum;
+    set();
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 2b1d3f5312d8bcca0ef30b51b47862c52ebea244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:49 +0000
Subject: [PATCH 17/86] fix: "bright on red" was parsed as white on red

Adding 8 to the "no color" value -1 turned it into 7, which is white.
---
 clink/core/src/settings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/core/src/settings.cpp b/clink/core/src/settings.cpp
index 0a55f5d..5bccf55 100644
--- a/clink/core/src/settings.cpp
+++ b/clink/core/src/settings.cpp
@@ -920,7 +920,7 @@ bool parse_color(const char* value, str_base& out)
         if (strcmpi(token.c_str(), "on") == 0)
         {
             if (pcolor == &bg) return false; // can't use "on" more than once
-            if (!*phex && bright > 0)
+            if (fg >= 0 && !*phex && bright > 0)
                 fg += 8;
             pcolor = &bg;
             phex = &bg_hex;
-- 
2.43.0


From 315c8a123ee55fb12ad26e279bfcbcfaa3f9c3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 18/86] fix: a catch-all key binding took params and keys from
 a partially matched binding

---
 clink/lib/src/bind_resolver.cpp | 42 ++++++++++++++++++++++++++-------
 clink/lib/src/bind_resolver.h   |  2 ++
 2 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/clink/lib/src/bind_resolver.cpp b/clink/lib/src/bind_resolver.cpp
index 9f6cf59..6b542ee 100644
--- a/clink/lib/src/bind_resolver.cpp
+++ b/clink/lib/src/bind_resolver.cpp
@@ -97,11 +97,7 @@ void bind_resolver::set_group(int32 group)
     m_group = group;
     m_node_index = group;
     m_pending_input = true;
-
-    m_params.clear();
-    m_param_accumulator = 0;
-    m_param_len = 0;
-    m_pending_param = false;
+    clear_params();
 }
 
 //------------------------------------------------------------------------------
@@ -146,9 +142,35 @@ bool bind_resolver::step(uint8 key)
     m_keys[m_key_count] = key;
     ++m_key_count;
 
+    // Any preceding input that's still pending comes first.
+    if (m_pending_input)
+    {
+        m_pending_input = false;
+        return step_pending();
+    }
+
     return step_impl(key);
 }
 
+//------------------------------------------------------------------------------
+bool bind_resolver::step_pending()
+{
+    for (int32 i = m_tail, n = m_key_count; i < n; ++i)
+        if (step_impl(m_keys[i]))
+            return true;
+
+    return false;
+}
+
+//------------------------------------------------------------------------------
+void bind_resolver::clear_params()
+{
+    m_params.clear();
+    m_param_accumulator = 0;
+    m_param_len = 0;
+    m_pending_param = false;
+}
+
 //------------------------------------------------------------------------------
 bool bind_resolver::step_impl(uint8 key)
 {
@@ -192,9 +214,7 @@ bind_resolver::binding bind_resolver::next()
             return binding();
         }
 
-        for (int32 i = m_tail, n = m_key_count; i < n; ++i)
-            if (step_impl(m_keys[i]))
-                break;
+        step_pending();
     }
 
     // Go along this depth's nodes looking for valid binds.
@@ -210,6 +230,11 @@ bind_resolver::binding bind_resolver::next()
         // a valid bind (at the point of call).
         if (node.bound)
         {
+            // A catch-all binding gets one key, and no params from keys that
+            // partially matched some other binding.
+            if (!node.depth)
+                clear_params();
+
             const int32 key_index = m_tail + node.depth + m_params.length() - 1;
             assertimplies(node.key, 0 <= key_index);
             assertimplies(node.key, key_index < m_key_count);
@@ -251,6 +276,7 @@ void bind_resolver::claim(binding& binding)
         m_tail += binding.m_len;
         m_node_index = m_group;
         m_pending_input = true;
+        clear_params();
 
         binding.m_outer = nullptr;
     }
diff --git a/clink/lib/src/bind_resolver.h b/clink/lib/src/bind_resolver.h
index 1bc7896..6a2cf80 100644
--- a/clink/lib/src/bind_resolver.h
+++ b/clink/lib/src/bind_resolver.h
@@ -61,6 +61,8 @@ public:
 private:
     void                claim(binding& binding);
     bool                step_impl(uint8 key);
+    bool                step_pending();
+    void                clear_params();
     const binder&       m_binder;
     unsigned short      m_node_index = 1;
     unsigned short      m_group = 1;
-- 
2.43.0


From a8a4b292ad081ac2aacc7d896c4cd961ea984a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 19/86] fix: a binding for NUL acted as a catch-all binding

---
 clink/lib/src/bind_resolver.cpp | 6 +++---
 clink/lib/src/binder.cpp        | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/clink/lib/src/bind_resolver.cpp b/clink/lib/src/bind_resolver.cpp
index 6b542ee..a02d8d4 100644
--- a/clink/lib/src/bind_resolver.cpp
+++ b/clink/lib/src/bind_resolver.cpp
@@ -236,9 +236,9 @@ bind_resolver::binding bind_resolver::next()
                 clear_params();
 
             const int32 key_index = m_tail + node.depth + m_params.length() - 1;
-            assertimplies(node.key, 0 <= key_index);
-            assertimplies(node.key, key_index < m_key_count);
-            if (!node.key || (key_index >= 0 && node.key == m_keys[key_index]))
+            assertimplies(node.depth, 0 <= key_index);
+            assertimplies(node.depth, key_index < m_key_count);
+            if (!node.depth || (key_index >= 0 && node.key == m_keys[key_index]))
                 return binding(this, node_index, m_params);
         }
     }
diff --git a/clink/lib/src/binder.cpp b/clink/lib/src/binder.cpp
index 2a0232c..0d6d7f3 100644
--- a/clink/lib/src/binder.cpp
+++ b/clink/lib/src/binder.cpp
@@ -294,9 +294,9 @@ int32 binder::is_bound(uint32 group, const char* seq, int32 len) const
 
                 // Check to see if where we're currently at a node in the tree
                 // that is a valid bind (at the point of call).
-                if (node.bound && (!node.key || node.key == *seq))
+                if (node.bound && !node.depth)
                 {
-                    if (node.key || !ctrl_or_ext)
+                    if (!ctrl_or_ext)
                         return true;
                     if (node.id == id_catchall_only_printable)
                         return -1;
-- 
2.43.0


From be26815b33a87ed520562519d9fa86f2efe6a9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 20/86] fix: a binding that's a prefix of a partially matched
 binding took its params

---
 clink/lib/src/bind_resolver.cpp | 41 +++++++++++++++++++++++++++------
 clink/lib/src/bind_resolver.h   |  2 ++
 2 files changed, 36 insertions(+), 7 deletions(-)

diff --git a/clink/lib/src/bind_resolver.cpp b/clink/lib/src/bind_resolver.cpp
index a02d8d4..60c13c4 100644
--- a/clink/lib/src/bind_resolver.cpp
+++ b/clink/lib/src/bind_resolver.cpp
@@ -178,7 +178,16 @@ bool bind_resolver::step_impl(uint8 key)
     if (!next)
         return true;
 
-    auto node = m_binder.get_node(next);
+    step_params(next, key);
+
+    m_node_index = next;
+    return (m_binder.get_node(next).child == 0);
+}
+
+//------------------------------------------------------------------------------
+void bind_resolver::step_params(int32 node_index, uint8 key)
+{
+    const auto& node = m_binder.get_node(node_index);
     if (node.has_params)
     {
         assert(key >= '0' && key <= '9');
@@ -194,9 +203,28 @@ bool bind_resolver::step_impl(uint8 key)
         m_param_len = 0;
         m_pending_param = false;
     }
+}
 
-    m_node_index = next;
-    return (node.child == 0);
+//------------------------------------------------------------------------------
+// Collects params from the keys that lead through the first depth nodes.
+void bind_resolver::collect_params(uint32 depth)
+{
+    clear_params();
+
+    int32 node_index = m_group;
+    for (int32 i = m_tail, n = m_key_count; i < n; ++i)
+    {
+        const int32 next = m_binder.find_child(node_index, m_keys[i]);
+        if (!next)
+            break;
+
+        // A node with params stays the same until there's a non-digit.
+        if (next != node_index && !depth--)
+            break;
+
+        step_params(next, m_keys[i]);
+        node_index = next;
+    }
 }
 
 //------------------------------------------------------------------------------
@@ -230,10 +258,9 @@ bind_resolver::binding bind_resolver::next()
         // a valid bind (at the point of call).
         if (node.bound)
         {
-            // A catch-all binding gets one key, and no params from keys that
-            // partially matched some other binding.
-            if (!node.depth)
-                clear_params();
+            // Only this binding's params; not params from keys that partially
+            // matched some longer binding.
+            collect_params(node.depth);
 
             const int32 key_index = m_tail + node.depth + m_params.length() - 1;
             assertimplies(node.depth, 0 <= key_index);
diff --git a/clink/lib/src/bind_resolver.h b/clink/lib/src/bind_resolver.h
index 6a2cf80..00d36ba 100644
--- a/clink/lib/src/bind_resolver.h
+++ b/clink/lib/src/bind_resolver.h
@@ -62,6 +62,8 @@ private:
     void                claim(binding& binding);
     bool                step_impl(uint8 key);
     bool                step_pending();
+    void                step_params(int32 node_index, uint8 key);
+    void                collect_params(uint32 depth);
     void                clear_params();
     const binder&       m_binder;
     unsigned short      m_node_index = 1;
-- 
2.43.0


From fb2e757f74994e796ab4b2972cacc120c87d3e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:33 +0000
Subject: [PATCH 21/86] fix: terminate queued lines from a multi-command alias
 so they run

---
 clink/lib/src/line_queue.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/clink/lib/src/line_queue.cpp b/clink/lib/src/line_queue.cpp
index 482bf67..e4fa475 100644
--- a/clink/lib/src/line_queue.cpp
+++ b/clink/lib/src/line_queue.cpp
@@ -131,7 +131,11 @@ bool line_queue::dequeue_line(str_base& out, dequeue_flags& flags)
     m_queued_lines.pop_front();
 
     for (auto& line : queue)
+    {
+        // Lines at the front must always be terminated with a new line.
+        ensure_crlf(line);
         m_queued_lines.emplace_front(std::move(line), dequeue_flags::hide_prompt|dequeue_flags::no_doskey);
+    }
 
     ensure_crlf(out);
 
-- 
2.43.0


From 164d9d9d6bbfadefc4589d91e200d82fd543f2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:48 +0000
Subject: [PATCH 22/86] fix: match count stays stale when resolving untyped
 matches drops duplicates

---
 clink/lib/src/matches_impl.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clink/lib/src/matches_impl.cpp b/clink/lib/src/matches_impl.cpp
index 4291886..9f47fd3 100644
--- a/clink/lib/src/matches_impl.cpp
+++ b/clink/lib/src/matches_impl.cpp
@@ -1305,7 +1305,10 @@ void matches_impl::done_building()
 
                 // Check if it has become a duplicate.
                 if (m_dedup->find(lookup) != m_dedup->end())
+                {
                     m_infos.erase(m_infos.begin() + i);
+                    --m_count;
+                }
                 else
                     m_dedup->emplace(std::move(lookup));
             }
-- 
2.43.0


From adeb8814339f2c8295700911b8b0671ce04f99d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:48 +0000
Subject: [PATCH 23/86] fix: untyped directory match got no path separator with
 match.translate_slashes=auto

---
 clink/lib/src/matches_impl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/lib/src/matches_impl.cpp b/clink/lib/src/matches_impl.cpp
index 9f47fd3..0386de4 100644
--- a/clink/lib/src/matches_impl.cpp
+++ b/clink/lib/src/matches_impl.cpp
@@ -1273,7 +1273,7 @@ void matches_impl::done_building()
         {
         case slash_translation::slash:      sep = '/'; break;
         case slash_translation::backslash:  sep = '\\'; break;
-        case slash_translation::automatic:  sep = m_sep; break;
+        case slash_translation::automatic:  if (m_sep) sep = m_sep; break;
         }
 
         for (uint32 i = m_count; i--;)
-- 
2.43.0


From 788c16f18eaa91499a570cad478e9d0123b281e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:17 +0000
Subject: [PATCH 24/86] fix: number of matches was kept in 16 bits; 65536 or
 more candidates lost most of them

---
 clink/lib/src/matches_impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/lib/src/matches_impl.h b/clink/lib/src/matches_impl.h
index 671ba1b..760f91b 100644
--- a/clink/lib/src/matches_impl.h
+++ b/clink/lib/src/matches_impl.h
@@ -152,7 +152,7 @@ private:
     store_impl              m_store;
     infos                   m_infos;
     int32                   m_generation_id = -1;
-    unsigned short          m_count = 0;
+    uint32                  m_count = 0;
     bool                    m_any_none_type = false;
     bool                    m_deprecated_mode = false;
     bool                    m_coalesced = false;
-- 
2.43.0


From 72a2b013ddae077f845bb1af95408d3641611032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:17 +0000
Subject: [PATCH 25/86] fix: cua bigword and select-word commands keep their
 selection

---
 clink/lib/src/rl/rl_commands.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clink/lib/src/rl/rl_commands.cpp b/clink/lib/src/rl/rl_commands.cpp
index 3cc02f8..3cfbf10 100644
--- a/clink/lib/src/rl/rl_commands.cpp
+++ b/clink/lib/src/rl/rl_commands.cpp
@@ -1396,8 +1396,11 @@ void cua_after_command(bool force_clear)
         s_map.emplace(cua_forward_char);
         s_map.emplace(cua_backward_word);
         s_map.emplace(cua_forward_word);
+        s_map.emplace(cua_backward_bigword);
+        s_map.emplace(cua_forward_bigword);
         s_map.emplace(cua_beg_of_line);
         s_map.emplace(cua_end_of_line);
+        s_map.emplace(cua_select_word);
         s_map.emplace(cua_select_all);
         s_map.emplace(cua_copy);
         s_map.emplace(cua_cut);
-- 
2.43.0


From e3befe70c430d9b14cec9d3d716925197b0e30e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:17 +0000
Subject: [PATCH 26/86] fix: text typed in a history line right after returning
 to it was lost

---
 clink/lib/src/rl/rl_module.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/clink/lib/src/rl/rl_module.cpp b/clink/lib/src/rl/rl_module.cpp
index 593b857..1af11f9 100644
--- a/clink/lib/src/rl/rl_module.cpp
+++ b/clink/lib/src/rl/rl_module.cpp
@@ -1254,6 +1254,13 @@ const char* get_last_prompt()
 //------------------------------------------------------------------------------
 static int can_concat_undo_hook(UNDO_LIST* undo, const char* string)
 {
+    // A history entry already holds this undo list as of when the entry was
+    // last saved.  Extending the undo entry in place would make it look like
+    // the entry hasn't changed, and the inserted text would be lost.
+    const HIST_ENTRY* const entry = current_history();
+    if (entry && entry->data == undo)
+        return false;
+
     const double clock = os::clock();
     const double delta = clock - undo->clock;
 
-- 
2.43.0


From b7672302d77632bd11e2bb7794426dc6ca4abdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:17 +0000
Subject: [PATCH 27/86] fix: history up at the oldest line lost the line's undo

---
 readline/readline/misc.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/readline/readline/misc.c b/readline/readline/misc.c
index 614428f..a7964ef 100644
--- a/readline/readline/misc.c
+++ b/readline/readline/misc.c
@@ -782,6 +782,17 @@ rl_get_previous_history (int count, int key)
   if (r == 0 && had_saved_line == 0)	/* failed to find previous history */
     _rl_free_saved_history_line ();
 
+/* begin_clink_change */
+  /* Still in the same history entry; restore the undo list that
+     _rl_maybe_replace_line moved into the entry. */
+  if (r == 0)
+    {
+      HIST_ENTRY *cur = current_history ();
+      if (cur)
+	rl_undo_list = (UNDO_LIST *)cur->data;
+    }
+/* end_clink_change */
+
   return 0;
 }
 
-- 
2.43.0


From 903ad87e4c1efd72792da9217980a01e9a12c3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:45 +0000
Subject: [PATCH 28/86] fix: consecutive kills from key sequences weren't saved
 together

In callback mode the first key of a key sequence (e.g. Alt-D) or of a numeric
argument ended the run of kills, because no kill had happened by then.
---
 readline/readline/callback.c | 28 ++++++++++++++++++++++++++--
 readline/readline/readline.c |  6 ++++++
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/readline/readline/callback.c b/readline/readline/callback.c
index f2d51b3..f810f15 100644
--- a/readline/readline/callback.c
+++ b/readline/readline/callback.c
@@ -129,12 +129,28 @@ rl_callback_handler_install (const char *prompt, rl_vcpfunc_t *linefunc)
 #define CALLBACK_READ_RETURN() return
 #endif
 
+/* begin_clink_change */
+/* A command ran (from a key sequence or with a numeric argument).  If there was
+   no change in _rl_last_command_was_kill since LK, then no kill has taken
+   place. */
+static void
+_rl_callback_end_kills (int lk)
+{
+  if (!RL_ISSTATE (RL_STATE_MULTIKEY|RL_STATE_NUMERICARG) &&
+      rl_pending_input == 0 && lk == _rl_last_command_was_kill)
+    _rl_last_command_was_kill = 0;
+}
+/* end_clink_change */
+
 /* Read one character, and dispatch to the handler if it ends the line. */
 void
 rl_callback_read_char (void)
 {
   char *line;
   int eof, jcode;
+/* begin_clink_change */
+  int lk;
+/* end_clink_change */
   static procenv_t olevel;
 
   if (rl_linefunc == NULL)
@@ -176,6 +192,9 @@ rl_callback_read_char (void)
   do
     {
       RL_CHECK_SIGNALS ();
+/* begin_clink_change */
+      lk = _rl_last_command_was_kill;
+/* end_clink_change */
       if  (RL_ISSTATE (RL_STATE_ISEARCH))
 	{
 	  eof = _rl_isearch_callback (_rl_iscxt);
@@ -237,9 +256,13 @@ rl_callback_read_char (void)
 	  eof = _rl_arg_callback (_rl_argcxt);
 	  if (eof == 0 && (RL_ISSTATE (RL_STATE_NUMERICARG) == 0) && RL_ISSTATE (RL_STATE_INPUTPENDING))
 	    rl_callback_read_char ();
-	  /* XXX - this should handle _rl_last_command_was_kill better */
+/* begin_clink_change */
 	  else if (RL_ISSTATE (RL_STATE_NUMERICARG) == 0)
-	    _rl_internal_char_cleanup ();
+	    {
+	      _rl_callback_end_kills (lk);
+	      _rl_internal_char_cleanup ();
+	    }
+/* end_clink_change */
 
 	  CALLBACK_READ_RETURN ();
 	}
@@ -254,6 +277,7 @@ rl_callback_read_char (void)
    set _rl_want_redisplay beforehand instead of forcing another redisplay by
    setting _rl_want_redisplay afterwards. */
 	      _rl_want_redisplay = 1;
+	      _rl_callback_end_kills (lk);
 /* end_clink_change */
 	      _rl_internal_char_cleanup ();
 /* begin_clink_change */
diff --git a/readline/readline/readline.c b/readline/readline/readline.c
index 84e4bf7..86602df 100644
--- a/readline/readline/readline.c
+++ b/readline/readline/readline.c
@@ -786,6 +786,12 @@ readline_internal_charloop (void)
       /* If there was no change in _rl_last_command_was_kill, then no kill
 	 has taken place.  Note that if input is pending we are reading
 	 a prefix command, so nothing has changed yet. */
+/* begin_clink_change
+ * In callback mode, a key sequence or a numeric argument hasn't reached its
+ * command yet; rl_callback_read_char checks again when it does.
+ */
+      if (!RL_ISSTATE (RL_STATE_MULTIKEY|RL_STATE_NUMERICARG))
+/* end_clink_change */
       if (rl_pending_input == 0 && lk == _rl_last_command_was_kill)
 	_rl_last_command_was_kill = 0;
 
-- 
2.43.0


From 0b2749ed28a3b69e957886ff829c416b86fa25a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:34 +0000
Subject: [PATCH 29/86] fix: undo after changing case corrupted the line when
 the widths differ

---
 readline/readline/text.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/readline/readline/text.c b/readline/readline/text.c
index 77709b8..f0c6d15 100644
--- a/readline/readline/text.c
+++ b/readline/readline/text.c
@@ -1564,6 +1564,9 @@ rl_change_case (int count, int op)
 {
   int start, next, end;
   int inword, nc, nop;
+/* begin_clink_change */
+  int orig_end;
+/* end_clink_change */
   WCHAR_T c;
   unsigned char uc;
 #if defined (HANDLE_MULTIBYTE)
@@ -1592,6 +1595,9 @@ rl_change_case (int count, int op)
 
   /* We are going to modify some text, so let's prepare to undo it. */
   rl_modifying (start, end);
+/* begin_clink_change */
+  orig_end = end;
+/* end_clink_change */
 
   inword = 0;
   while (start < end)
@@ -1692,6 +1698,14 @@ change_singlebyte:
       start = next;
     }
 
+/* begin_clink_change
+ * The upper and lower case versions may differ in width; undoing must delete
+ * what is there now.
+ */
+  if (end != orig_end && rl_undo_list && rl_undo_list->next && rl_undo_list->next->what == UNDO_INSERT)
+    rl_undo_list->next->end = end;
+/* end_clink_change */
+
   rl_point = end;
   return 0;
 }
-- 
2.43.0


From 1f516d59774765f617a19133a793c4f0dafdab5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:52 +0000
Subject: [PATCH 30/86] fix: debug assertion in clear_to_eol() when there is
 nothing to clear

---
 clink/lib/src/display_readline.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index aecee31..a0ed329 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -2802,7 +2802,7 @@ void display_manager::clear_to_eol(int32 count)
         _rl_rprompt_shown_len = 0;
     }
 
-    assert(_rl_last_c_pos < _rl_screenwidth);
+    assertimplies(count, _rl_last_c_pos < _rl_screenwidth);
     assert(count >= 0);
 
     if (count)
-- 
2.43.0


From 2611551e2b44faef4148def91e5b963c78aec0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:46 +0000
Subject: [PATCH 31/86] fix: ecma48_code length is no longer limited to 65535

Text longer than that between two escape codes was truncated, or ended the
iteration, so e.g. console.cellcount() and console.plaintext() lost the rest.
---
 clink/terminal/include/terminal/ecma48_iter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/terminal/include/terminal/ecma48_iter.h b/clink/terminal/include/terminal/ecma48_iter.h
index 9f18de3..aa0bfee 100644
--- a/clink/terminal/include/terminal/ecma48_iter.h
+++ b/clink/terminal/include/terminal/ecma48_iter.h
@@ -103,7 +103,7 @@ private:
     void                    operator = (ecma48_code&) = delete;
     bool                    decode_csi(csi_base& base, int32* params, uint32 max_params) const;
     const char*             m_str;
-    unsigned short          m_length;
+    uint32                  m_length;
     type                    m_type;
     uint8                   m_code;
 };
-- 
2.43.0


From 8afc2094d445f92bcaa0b16e6e870a1928713c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:46 +0000
Subject: [PATCH 32/86] fix: text after an unrecognized escape takes the type
 of the previous code

E.g. "\x1b[m\x1b(Babc" reported the text as a CSI code, so it wasn't counted
and was left out of plain text, and as the first thing it had no defined type.
---
 clink/terminal/src/ecma48_iter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/clink/terminal/src/ecma48_iter.cpp b/clink/terminal/src/ecma48_iter.cpp
index 7773444..0d29d47 100644
--- a/clink/terminal/src/ecma48_iter.cpp
+++ b/clink/terminal/src/ecma48_iter.cpp
@@ -491,6 +491,7 @@ bool ecma48_iter::next_esc(int32 c)
         return true;
     }
 
+    m_code.m_type = ecma48_code::type_chars;
     m_state.state = ecma48_state_char;
     return false;
 }
-- 
2.43.0


From 11bbe30270bea135bc187424d46ef487aaeee0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:46 +0000
Subject: [PATCH 33/86] fix: removing colors dropped the style reset implied by
 ESC[m

ESC[m means ESC[0m, but only the latter kept its reset of italic, underline,
and strikethrough.
---
 clink/terminal/src/ecma48_iter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clink/terminal/src/ecma48_iter.cpp b/clink/terminal/src/ecma48_iter.cpp
index 0d29d47..dde7f11 100644
--- a/clink/terminal/src/ecma48_iter.cpp
+++ b/clink/terminal/src/ecma48_iter.cpp
@@ -596,6 +596,8 @@ concat_verbatim:
                         {
                             str<> tmp;
                             unsigned skip = 0;
+                            if (!csi.param_count)
+                                tmp.concat(";23;24;29");            // No parameters means reset.
                             for (int32 i = 0; i < csi.param_count; ++i)
                             {
                                 if (skip)
-- 
2.43.0


From be816fa762c026570d28c2d9e98f5430c28dc278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:46 +0000
Subject: [PATCH 34/86] fix: malformed code inside a nested OSC code hits an
 assertion

The nesting count must be reset when the command string is abandoned.
---
 clink/terminal/src/ecma48_iter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/clink/terminal/src/ecma48_iter.cpp b/clink/terminal/src/ecma48_iter.cpp
index dde7f11..5f6db3b 100644
--- a/clink/terminal/src/ecma48_iter.cpp
+++ b/clink/terminal/src/ecma48_iter.cpp
@@ -413,7 +413,10 @@ bool ecma48_iter::next_cmd_str(int32 c)
         else if (d == 0x5c && m_nested_cmd_str > 0)
             m_nested_cmd_str--;
         else
+        {
+            m_nested_cmd_str = 0;
             m_state.state = ecma48_state_esc_st;
+        }
         return false;
     }
     else if (c == 0x9c || c == 0x07) // Xterm supports OSC terminated by BEL.
@@ -436,6 +439,7 @@ bool ecma48_iter::next_cmd_str(int32 c)
     m_code.m_str = m_iter.get_pointer();
     m_code.m_length = 0;
     m_state.reset();
+    m_nested_cmd_str = 0;
     return false;
 }
 
-- 
2.43.0


From f910e44b02c8e2af0ee2a895c12242b22f76cb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:02 +0000
Subject: [PATCH 35/86] fix: path::normalise handles runs of separators in a
 UNC or device root

---
 clink/core/src/path.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/clink/core/src/path.cpp b/clink/core/src/path.cpp
index 8161318..39b2ab5 100644
--- a/clink/core/src/path.cpp
+++ b/clink/core/src/path.cpp
@@ -143,17 +143,24 @@ void normalise(char* in_out, int32 sep)
     bool dots = true;
     bool eat_extra_dots = false;
     bool is_unc = path::is_unc(in_out);
+    char* RESTRICT write = in_out;
 
 #if defined(PLATFORM_WINDOWS)
     if (is_separator(in_out[0]) && is_separator(in_out[1]) && in_out[2] == '.' && is_separator(in_out[3]))
+    {
         dots = false; // Device namespace does not normalize . or .. in paths.
+        write = ++in_out; // Preserve the 2 leading separators.
+    }
     else
     {
         const char* past = past_drive(in_out);
         eat_extra_dots = (past > in_out && is_separator(in_out[0]) && is_separator(in_out[1]) && in_out[2] == '?');
         if (past >= in_out + 1 && is_separator(in_out[0]) && is_separator(in_out[1]))
+        {
             in_out += 2; // Preserve the 2 leading separators.
-        char* RESTRICT write = in_out;
+            write = in_out;
+            skip_sep(in_out);
+        }
         while (in_out < past)
         {
             char c = *in_out;
@@ -176,18 +183,18 @@ void normalise(char* in_out, int32 sep)
 
     uint32 piece_count = 0;
 
-    char* RESTRICT write = in_out;
+    const char* RESTRICT read = in_out;
     int32 unc_offset = 0;
-    if (is_separator(*write))
+    if (is_separator(*read))
     {
         *write++ = char(sep);
+        ++read;
         piece_count = INT_MAX;
         if (is_unc)
             ++unc_offset;
     }
 
     const char* const RESTRICT start = write - unc_offset;
-    const char* RESTRICT read = write;
     for (; const char* RESTRICT next = next_element(read); read = next)
     {
         skip_sep(read);
-- 
2.43.0


From 30122433652a49d0e8cdda984b25b7bf1a407da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:02 +0000
Subject: [PATCH 36/86] fix: path::to_parent stops at the root separator of a
 path without drive

---
 clink/core/src/path.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/core/src/path.cpp b/clink/core/src/path.cpp
index 39b2ab5..01f1e7b 100644
--- a/clink/core/src/path.cpp
+++ b/clink/core/src/path.cpp
@@ -637,7 +637,7 @@ bool to_parent(str_base& out, str_base* child)
 
     // Find end of drive or UNC root plus separator(s).
     uint32 start = uint32(past_drive(out.c_str()) - out.c_str());
-    if (start && out[start - 1] == ':')
+    if (!start || out[start - 1] == ':')
     {
         while (is_separator(out[start]))
             ++start;
-- 
2.43.0


From 2e53257f1e47187e1b17bc229d15efcaf6cac93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:02 +0000
Subject: [PATCH 37/86] fix: path::normalise collapses .. after an element that
 starts with a dot

---
 clink/core/src/path.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clink/core/src/path.cpp b/clink/core/src/path.cpp
index 01f1e7b..ec69ab2 100644
--- a/clink/core/src/path.cpp
+++ b/clink/core/src/path.cpp
@@ -226,6 +226,8 @@ void normalise(char* in_out, int32 sep)
                     continue;
                 }
             }
+            else
+                ++piece_count;
         }
         else
             ++piece_count;
-- 
2.43.0


From 054ca4c2986ed3072c589260f702d8c0a8b14174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:02 +0000
Subject: [PATCH 38/86] fix: path::append returns a UNC or \\?\ right side as
 it is

---
 clink/core/src/path.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/core/src/path.cpp b/clink/core/src/path.cpp
index ec69ab2..e83837f 100644
--- a/clink/core/src/path.cpp
+++ b/clink/core/src/path.cpp
@@ -578,7 +578,7 @@ bool join(const char* lhs, const char* rhs, str_base& out)
 //------------------------------------------------------------------------------
 bool append(str_base& out, const char* rhs)
 {
-    if (is_rooted(rhs))
+    if (is_rooted(rhs) || is_unc(rhs) || past_ssqs(rhs))
         return out.copy(rhs);
 
     bool add_separator = true;
-- 
2.43.0


From 1ccd19ac5cf0b8adc25d4a9bebf26d7552dd423f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:53 +0000
Subject: [PATCH 39/86] fix: a redirection before the end word counted as an
 argument when completing

`_argreader:next_word` treated every redirection argument as a word while generating matches
---
 clink/lua/scripts/arguments.lua | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/lua/scripts/arguments.lua b/clink/lua/scripts/arguments.lua
index 41269a1..f82bb0c 100644
--- a/clink/lua/scripts/arguments.lua
+++ b/clink/lua/scripts/arguments.lua
@@ -487,7 +487,7 @@ function _argreader:next_word(always_last_word)
 
     local last_word = self._last_word or false
     local info = ls:getwordinfo(word_index)
-    if info.redir and not always_last_word then
+    if info.redir and not (always_last_word and last_word) then
         goto retry
     end
 
-- 
2.43.0


From 3c4f3632575eee1bd33d1fb5a957ef851154624e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:53 +0000
Subject: [PATCH 40/86] fix: a redirection hid that the next word is a flag

`_argreader:update` looked at the redirection argument instead of the next argument
---
 clink/lua/scripts/arguments.lua | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/clink/lua/scripts/arguments.lua b/clink/lua/scripts/arguments.lua
index f82bb0c..f7617a1 100644
--- a/clink/lua/scripts/arguments.lua
+++ b/clink/lua/scripts/arguments.lua
@@ -780,8 +780,15 @@ function _argreader:update(word, word_index, last_onadvance) -- luacheck: no unu
         self._noflags = true
     elseif not self._noflags then
         -- Don't treat a flag prefix character by itself as a flag unless it's in the end word.
-        local next_word = line_state:getword(word_index + 1)
-        next_is_flag = matcher:_is_flag(next_word) and (next_word:byte(2) or word_index + 1 == line_state:getwordcount()) and true or nil
+        -- Redirection arguments don't count.
+        local next_index = word_index + 1
+        local next_info = line_state:getwordinfo(next_index)
+        while next_info and next_info.redir do
+            next_index = next_index + 1
+            next_info = line_state:getwordinfo(next_index)
+        end
+        local next_word = line_state:getword(next_index)
+        next_is_flag = matcher:_is_flag(next_word) and (next_word:byte(2) or next_index == line_state:getwordcount()) and true or nil
     end
 
     -- Update matcher after possible _push.
-- 
2.43.0


From 64b91d621c291c6aea94635b3f177526207fb35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:53 +0000
Subject: [PATCH 41/86] fix: nofiles() and chaincommand() matchers resumed at
 another matcher's position

`_argreader:_pop` reported failure after having popped, and the caller then applied the popped matcher's position to the matcher below
---
 clink/lua/scripts/arguments.lua | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/clink/lua/scripts/arguments.lua b/clink/lua/scripts/arguments.lua
index f7617a1..04fac73 100644
--- a/clink/lua/scripts/arguments.lua
+++ b/clink/lua/scripts/arguments.lua
@@ -1130,11 +1130,13 @@ function _argreader:_pop(next_is_flag)
         return false
     end
 
+    local popped = false
     while #self._stack > 0 do
         if self._matcher and self._matcher._no_file_generation then
             -- :nofiles() dead-ends the parser.
-            return false
+            return popped
         end
+        popped = true
 
         -- Since self._arginfo can be nil, the extents of the table must now
         -- be specified explicitly (..., 1, 6).
-- 
2.43.0


From 6e3a0a70507195ae4e1e559eb2db9b98430b7ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:53 +0000
Subject: [PATCH 42/86] fix: _argmatcher:reset() kept chaincommand,
 setflagsanywhere and setendofflags

---
 clink/lua/scripts/arguments.lua | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/clink/lua/scripts/arguments.lua b/clink/lua/scripts/arguments.lua
index 04fac73..33c850e 100644
--- a/clink/lua/scripts/arguments.lua
+++ b/clink/lua/scripts/arguments.lua
@@ -1339,6 +1339,12 @@ function _argmatcher:reset()
     self._nextargindex = 1
     self._loop = nil
     self._no_file_generation = nil
+    self._flagsanywhere = nil
+    self._endofflags = nil
+    self._chain_command = nil
+    self._chain_command_mode = nil
+    self._chain_command_expand_aliases = nil
+    self._chain_command_hint = nil
     self._cmd_command = nil
     self._classify_func = nil
     self._init_coroutine = nil
-- 
2.43.0


From 9eaee42645d3cd9ebbad941e5d31d253a173df14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:53 +0000
Subject: [PATCH 43/86] fix: _argmatcher:addargunsorted() failed for a new
 position

---
 clink/lua/scripts/arguments.lua | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/clink/lua/scripts/arguments.lua b/clink/lua/scripts/arguments.lua
index 33c850e..1742ec4 100644
--- a/clink/lua/scripts/arguments.lua
+++ b/clink/lua/scripts/arguments.lua
@@ -1405,9 +1405,8 @@ end
 --- This is the same as <a href="#_argmatcher:addarg">_argmatcher:addarg</a>
 --- except that this disables sorting the matches.
 function _argmatcher:addargunsorted(...)
-    local list = self._args[self._nextargindex]
     self:addarg(...)
-    list.nosort = true
+    self._args[self._nextargindex - 1].nosort = true
     return self
 end
 
-- 
2.43.0


From 3e7dd6a59a0f087f31e4ba1ee4b17e828c43148d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:53 +0000
Subject: [PATCH 44/86] fix: _argmatcher:hideflags() before addflags() broke
 linked flags

---
 clink/lua/scripts/arguments.lua | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/lua/scripts/arguments.lua b/clink/lua/scripts/arguments.lua
index 1742ec4..7e59b35 100644
--- a/clink/lua/scripts/arguments.lua
+++ b/clink/lua/scripts/arguments.lua
@@ -1492,7 +1492,7 @@ end
 --- works in <a href="#_argmatcher:addarg">_argmatcher:addarg()</a> as well).
 function _argmatcher:hideflags(...)
     local flag_matcher = self._flags or _argmatcher()
-    local args = flag_matcher._args[1] or {}
+    local args = flag_matcher._args[1] or { _links = {} }
     local list = args.hidden or {}
 
     flag_matcher:_hide(list, {...})
-- 
2.43.0


From 5cfbadefa459cbe43eccab25b80d7b82c52a6037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:53 +0000
Subject: [PATCH 45/86] fix: merging linked argmatchers failed when the first
 has no arguments

---
 clink/lua/scripts/arguments.lua | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/lua/scripts/arguments.lua b/clink/lua/scripts/arguments.lua
index 7e59b35..d5b73a4 100644
--- a/clink/lua/scripts/arguments.lua
+++ b/clink/lua/scripts/arguments.lua
@@ -1933,7 +1933,7 @@ local function merge_parsers(lhs, rhs)
     -- Get reference to the LHS's first argument table (creating it if needed).
     local lhs_arg_1 = lhs._args[1]
     if lhs_arg_1 == nil then
-        lhs_arg_1 = {}
+        lhs_arg_1 = { _links = {} }
         lhs._args[1] = lhs_arg_1
     end
 
-- 
2.43.0


From b9ccaacb950b88668decf6b82c4a34270dd91700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:21 +0000
Subject: [PATCH 46/86] fix: a screen scrolled when the input line filled it

Without a comment row the code for the comment row still moved the cursor to the row below the input.
---
 clink/lib/src/display_readline.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index a0ed329..e013b66 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -2188,9 +2188,11 @@ void display_manager::display()
         }
     }
 
+    // Don't touch the comment row when there isn't one:  the input may occupy
+    // the whole screen height, and then there is no row for it.
     if (m_curr.has_comment_row() != next->has_comment_row() ||
         strcmp(m_curr.get_comment_row(), next->get_comment_row()) ||
-        new_botlin != old_botlin)
+        (new_botlin != old_botlin && (m_curr.has_comment_row() || next->has_comment_row())))
     {
         bool reset_col = false;
 
-- 
2.43.0


From 3b8a2ec9abc8814fded33b5e9a76d68ed9dfdf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:21 +0000
Subject: [PATCH 47/86] fix: control characters broke the horizontally scrolled
 input line

---
 clink/lib/src/display_readline.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index e013b66..ef8df75 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -823,6 +823,12 @@ void display_lines::horz_parse(uint32 prompt_botlin, uint32 col, const char* buf
             // Display control characters as ^X.
             tmp.clear();
             tmp.format("^%c", CTRL_CHAR(c) ? UNCTRL(c) : '?');
+
+            if (int32(col + tmp.length()) > limit)
+            {
+                overflow = true;
+                break;
+            }
         }
         else
         {
@@ -848,20 +854,16 @@ void display_lines::horz_parse(uint32 prompt_botlin, uint32 col, const char* buf
         if (index == rl_point)
             m_cpos = col;
 
-        for (const char* add = tmp.c_str(); *add; ++add, ++index)
+        for (const char* add = tmp.c_str(); *add; ++add)
         {
-            if (col >= limit)
-                break;
-
             assert(*add >= 0 && *add <= 0x7f); // Only ASCII characters are generated.
             d->append(*add, face);
             ++col;
         }
 
-        assert(uint32(iter.character_pointer() + iter.character_length() - buffer) == index);
+        ++index;
 
-        if (col >= limit)
-            break;
+        assert(uint32(iter.character_pointer() + iter.character_length() - buffer) == index);
     }
 
     assert(uint32(iter.character_pointer() - buffer) == index);
-- 
2.43.0


From 2405006bec63cc0ce51ca3de4649abe6af74ccd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:21 +0000
Subject: [PATCH 48/86] fix: redisplaying a prompt as wide as the terminal put
 the input on the wrong row

The forced wrap was forgotten unless the prompt had changed.
---
 clink/lib/src/display_readline.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index ef8df75..14efc5d 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -1508,6 +1508,7 @@ private:
     str_moveable        m_last_prompt_line;
     int32               m_last_prompt_line_width = -1;
     int32               m_last_prompt_line_botlin = -1;
+    bool                m_last_prompt_line_wrap = false;
     int32               m_last_point = -1;
     bool                m_last_modmark = false;
     bool                m_horz_scroll = false;
@@ -1579,6 +1580,7 @@ void display_manager::clear()
     m_last_prompt_line.clear();
     m_last_prompt_line_width = -1;
     m_last_prompt_line_botlin = -1;
+    m_last_prompt_line_wrap = false;
     m_last_point = -1;
     m_last_modmark = false;
     m_horz_scroll = false;
@@ -1923,14 +1925,13 @@ void display_manager::display()
 
     // Calculate ending row and column, accounting for wrapping (including
     // double width characters that don't fit).
-    bool force_wrap = false;
     if (forced_display)
     {
         measure_columns mc(measure_columns::print);
         if (modmark)
             mc.measure("*", true);
         mc.measure(prompt, true);
-        force_wrap = mc.get_force_wrap();
+        m_last_prompt_line_wrap = mc.get_force_wrap();
         m_last_prompt_line_width = mc.get_column();
         m_last_prompt_line_botlin = mc.get_line_count() - 1;
     }
@@ -2031,7 +2032,7 @@ void display_manager::display()
 
         rl_fwrite_function(_rl_out_stream, prompt, strlen(prompt));
 
-        m_pending_wrap = force_wrap;
+        m_pending_wrap = m_last_prompt_line_wrap;
 
         if (is_CJK_codepage(GetConsoleOutputCP()))
         {
-- 
2.43.0


From d8a09d13cb9ca9f3fec6e31ce1e185d231417f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:21 +0000
Subject: [PATCH 49/86] fix: inserting or deleting columns moved the right side
 prompt

---
 clink/lib/src/display_readline.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index 14efc5d..0887529 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -2513,10 +2513,14 @@ void display_manager::update_line(int32 i, const display_line* o, const display_
     const bool can_optimize = true;
 #endif
 
+    // Shifting the line to a new starting column would also shift the right
+    // side prompt.
+    const bool can_shift = (!has_rprompt || (o && o->m_x == d->m_x));
+
     // Optimize updating when the new starting column is less than or equal to
     // the old starting column.  Can't optimize in the other direction unless
     // update_line(0) happens before displaying the prompt string.
-    if (!m_horizpos_workaround && o && d->m_x <= o->m_x && can_optimize)
+    if (!m_horizpos_workaround && o && d->m_x <= o->m_x && can_optimize && can_shift)
     {
         const char* oc = o->m_chars;
         const char* of = o->m_faces;
@@ -2697,7 +2701,7 @@ left_whole:
 
     move_to_row(row);
 
-    if (o && o->m_x > d->m_x)
+    if (o && o->m_x > d->m_x && can_shift)
     {
         move_to_column(d->m_x);
         shift_cols(d->m_x, d->m_x - o->m_x);
-- 
2.43.0


From defd7182f04cf30080bc593e10d0bdbae1c8f05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:21 +0000
Subject: [PATCH 50/86] fix: erasing the right side prompt erased part of a
 wide prompt

---
 clink/lib/src/display_readline.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index 0887529..1a3e57a 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -2009,6 +2009,11 @@ void display_manager::display()
     {
         assert(need_update); // See is_CJK_codepage usage below...
 
+        // Erase the right side prompt before printing the prompt; afterwards
+        // the prompt could be in its place.
+        if (_rl_rprompt_shown_len && (forced_display || !next->can_show_rprompt()))
+            print_rprompt(nullptr);
+
         move_to_row(0);
         move_to_column(0, true/*force*/);
 
-- 
2.43.0


From f52b5f70cad6edd1529591f6f39ecfe22838ac33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:21 +0000
Subject: [PATCH 51/86] fix: a stale scroll marker stayed on an empty top row

---
 clink/lib/src/display_readline.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index 1a3e57a..98d8cbe 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -908,6 +908,7 @@ void display_lines::apply_scroll_markers(uint32 top, uint32 bottom)
             for (uint32 num = c_horz_scroll_indicator_chars; num--;)
                 d.append('<', FACE_SCROLL);
             d.appendnul();
+            d.m_lastcol = d.m_x + c_horz_scroll_indicator_chars;
         }
         else
         {
-- 
2.43.0


From a9ad11a7e142e8566a9e8a206548ad5980b32ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:21 +0000
Subject: [PATCH 52/86] fix: rows of a taller previous prompt stayed on the
 screen

The deferred erase counted the rows after they had been reset, counted lines of the prompt wrongly, and did not clear blank lines.
---
 clink/lib/src/display_readline.cpp | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index 98d8cbe..d349d61 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -1731,7 +1731,7 @@ int32 display_manager::write_with_clear(FILE* stream, const char* text, int leng
             measure_columns mc(measure_columns::print);
             mc.measure(text, length, true/*is_prompt*/);
             if (eol)
-                lines += mc.get_line_count() - 1;
+                lines += mc.get_line_count() - 1 - mc.has_autowrap_at_end();
             if (!mc.get_column() && mc.get_line_count() > 1)
                 erase_in_line = false;
             else
@@ -1752,14 +1752,22 @@ int32 display_manager::write_with_clear(FILE* stream, const char* text, int leng
 
         if (eol)
         {
-            ++lines;
-            while (remaining > 0 && (*text == '\r' || *text == '\n'))
-                ++text, --remaining;
-            length = int(text - eol);
             if (erase_in_line)
                 clear_to_eol(erase_length);
-            if (length > 0)
-                rl_fwrite_function(stream, eol, length);
+            bool blank_line = false;
+            while (remaining > 0 && (*text == '\r' || *text == '\n'))
+            {
+                if (*text == '\n')
+                {
+                    // A blank line needs to be cleared, as well.
+                    if (blank_line)
+                        clear_to_eol(_rl_screenwidth);
+                    blank_line = true;
+                    ++lines;
+                }
+                rl_fwrite_function(stream, text, 1);
+                ++text, --remaining;
+            }
         }
     }
     return lines;
@@ -2240,8 +2248,8 @@ void display_manager::display()
     if (s_defer_erase_extra_lines)
     {
         assert(forced_display);
-        const uint32 old_height = min<uint32>(_rl_screenheight, s_defer_erase_extra_lines + m_curr.height());
-        const uint32 next_height = prompt_prefix_lines + next->height();
+        const uint32 old_height = min<uint32>(_rl_screenheight, s_defer_erase_extra_lines);
+        const uint32 next_height = prompt_prefix_lines + new_botlin + 1 + next->has_comment_row();
         if (old_height > next_height)
         {
             move_to_row(_rl_vis_botlin + next->has_comment_row() + 1);
@@ -3126,7 +3134,8 @@ void defer_clear_lines(uint32 prompt_lines, bool transient)
     {
         if (is_sparse_prompt_spacing())
             s_defer_clear_lines = max<uint32>(s_defer_clear_lines, 1);
-        s_defer_erase_extra_lines = s_display_manager.is_displayed() ? prompt_lines : 0;
+        // Remember how many lines are displayed, before they're reset.
+        s_defer_erase_extra_lines = s_display_manager.is_displayed() ? prompt_lines + _rl_vis_botlin + 1 + s_display_manager.has_comment_row() : 0;
     }
 }
 
-- 
2.43.0


From 3981f12d224a69be1470632fd91c75a8ef0e0cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:21 +0000
Subject: [PATCH 53/86] fix: the '<' marker over a wide character shifted the
 row

---
 clink/lib/src/display_readline.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index d349d61..6bd4bfe 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -925,10 +925,11 @@ void display_lines::apply_scroll_markers(uint32 top, uint32 bottom)
                     break;
 
                 uint32 i = 0;
-                while (i < c_horz_scroll_indicator_chars)
+                while (i < max<uint32>(wc, c_horz_scroll_indicator_chars))
                 {
-                    d.m_chars[i] = '<';
-                    d.m_faces[i] = FACE_SCROLL;
+                    const bool mark = (i < c_horz_scroll_indicator_chars);
+                    d.m_chars[i] = mark ? '<' : ' ';
+                    d.m_faces[i] = mark ? FACE_SCROLL : FACE_NORMAL;
                     bytes--;
                     i++;
                 }
@@ -939,8 +940,6 @@ void display_lines::apply_scroll_markers(uint32 top, uint32 bottom)
                     memmove(d.m_faces + i, d.m_faces + i + bytes, d.m_len - (i + bytes));
                     d.m_len -= bytes;
                 }
-                while (--wc > 0)
-                    d.appendspace();
                 d.appendnul();
                 break;
             }
-- 
2.43.0


From 15edb056edab65d928f9d9ee0218d55b1130c0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:21 +0000
Subject: [PATCH 54/86] fix: trailing columns of a bottom row were counted
 after being removed

---
 clink/lib/src/display_readline.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index 6bd4bfe..bec84f1 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -956,6 +956,7 @@ void display_lines::apply_scroll_markers(uint32 top, uint32 bottom)
         if (d.m_lastcol - d.m_x > 2)
         {
             d.m_len -= d.m_trail;
+            d.m_trail = 0;
             while (d.m_x + d.m_lastcol + c_horz_scroll_indicator_chars >= _rl_screenwidth)
             {
                 const int32 bytes = _rl_find_prev_mbchar(d.m_chars, d.m_len, MB_FIND_NONZERO);
-- 
2.43.0


From 19374e2bac795fb84055041902126b0f5fd7d0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:21 +0000
Subject: [PATCH 55/86] fix: the cursor could be off the visible rows with a
 prompt that wraps

The prompt's rows were counted twice.
---
 clink/lib/src/display_readline.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index bec84f1..971fe61 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -1979,15 +1979,15 @@ void display_manager::display()
     const uint32 old_top = m_top;
     if (m_top < m_last_prompt_line_botlin)
         m_top = m_last_prompt_line_botlin;
-    if (m_last_prompt_line_botlin + next->vpos() < m_top)
-        m_top = m_last_prompt_line_botlin + next->vpos();
-    if (m_last_prompt_line_botlin + next->vpos() > m_top + input_botlin_offset)
+    if (next->vpos() < m_top)
+        m_top = next->vpos();
+    if (next->vpos() > m_top + input_botlin_offset)
         m_top = next->vpos() - input_botlin_offset;
     if (m_top + input_botlin_offset + 1 > next->count())
         m_top = next->count() - 1 - input_botlin_offset;
 
     // Scroll when cursor is on a scroll marker.
-    if (m_top > m_last_prompt_line_botlin && m_top == m_last_prompt_line_botlin + next->vpos())
+    if (m_top > m_last_prompt_line_botlin && m_top == next->vpos())
     {
         const display_line* d = next->get(m_top);
         if (next->cpos() >= d->m_x && next->cpos() < d->m_x + c_horz_scroll_indicator_chars)
-- 
2.43.0


From 0dcf71ce72f1c57be34f7caab958817246e1b664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:21 +0000
Subject: [PATCH 56/86] fix: the cursor could be under the '>' marker

The marker is followed by a blank column, which was not counted.
---
 clink/lib/src/display_readline.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index 971fe61..5dba439 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -1995,7 +1995,8 @@ void display_manager::display()
     }
     else if (m_top + input_botlin_offset < next->count() - 1 && m_top + input_botlin_offset == next->vpos())
     {
-        if (next->cpos() + c_horz_scroll_indicator_chars >= _rl_screenwidth && next->cpos() < _rl_screenwidth)
+        // The scroll marker is followed by a blank column.
+        if (next->cpos() + c_horz_scroll_indicator_chars + 1 >= _rl_screenwidth)
             m_top++;
     }
     assert(m_top >= m_last_prompt_line_botlin);
-- 
2.43.0


From 51e7838a68e1635fbf89b9d0c6a96a4f422e9ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:21 +0000
Subject: [PATCH 57/86] fix: the cursor could be past the last column on a line
 break

---
 clink/lib/src/display_readline.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index 5dba439..6248684 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -605,7 +605,7 @@ void display_lines::parse(uint32 prompt_botlin, uint32 col, const char* buffer,
             if (index == rl_point)
             {
                 m_vpos = m_count - 1;
-                m_cpos = col;
+                m_cpos = min<uint32>(col, _rl_screenwidth - 1);
             }
 
             ++index;
-- 
2.43.0


From 5148258671bb7c347d55e99fde11c90e7d71ca38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:21 +0000
Subject: [PATCH 58/86] fix: finishing a wrap printed a character from a wrong
 row

The prompt's rows were counted twice, and rows that are not shown were used.
---
 clink/lib/src/display_readline.cpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index 6248684..1b208e5 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -523,7 +523,7 @@ public:
     void                parse(uint32 prompt_botlin, uint32 col, const char* buffer, uint32 len);
     void                horz_parse(uint32 prompt_botlin, uint32 col, const char* buffer, uint32 point, uint32 len, const display_lines& ref);
     void                apply_scroll_markers(uint32 top, uint32 bottom);
-    void                set_top(uint32 top);
+    void                set_top(uint32 top, uint32 bottom);
     void                set_comment_row(str_moveable&& s, bool force);
     void                clear_comment_row();
     void                swap(display_lines& d);
@@ -542,6 +542,8 @@ public:
     uint32              vpos() const { return m_vpos; }
     uint32              cpos() const { return m_cpos; }
     uint32              top() const { return m_top; }
+    uint32              bottom() const { return m_bottom; }
+    uint32              prompt_botlin() const { return m_prompt_botlin; }
 
 private:
     display_line*       next_line(uint32 start);
@@ -550,10 +552,11 @@ private:
     std::vector<display_line> m_lines;
     uint32              m_width = 0;
     uint32              m_count = 0;
-    uint32              m_prompt_botlin;
+    uint32              m_prompt_botlin = 0;
     uint32              m_vpos = 0;
     uint32              m_cpos = 0;
     uint32              m_top = 0;
+    uint32              m_bottom = 0;
     uint32              m_horz_start = 0;
     bool                m_horz_scroll = false;
     bool                m_has_comment_row = false;
@@ -982,9 +985,10 @@ void display_lines::apply_scroll_markers(uint32 top, uint32 bottom)
 }
 
 //------------------------------------------------------------------------------
-void display_lines::set_top(uint32 top)
+void display_lines::set_top(uint32 top, uint32 bottom)
 {
     m_top = top;
+    m_bottom = bottom;
 }
 
 //------------------------------------------------------------------------------
@@ -1015,6 +1019,7 @@ void display_lines::swap(display_lines& d)
     std::swap(m_vpos, d.m_vpos);
     std::swap(m_cpos, d.m_cpos);
     std::swap(m_top, d.m_top);
+    std::swap(m_bottom, d.m_bottom);
     std::swap(m_horz_start, d.m_horz_start);
     std::swap(m_horz_scroll, d.m_horz_scroll);
     std::swap(m_comment_row, d.m_comment_row);
@@ -1032,6 +1037,7 @@ void display_lines::clear()
     m_vpos = 0;
     m_cpos = 0;
     m_top = 0;
+    m_bottom = 0;
     m_horz_start = 0;
     m_horz_scroll = false;
     clear_comment_row();
@@ -2003,7 +2009,7 @@ void display_manager::display()
 
     // Remember the top.
 #undef m_next
-    m_next.set_top(m_top);
+    m_next.set_top(m_top, m_top + input_botlin_offset);
 #define m_next __use_next_instead__
 
     // Apply scroll markers.
@@ -3001,11 +3007,10 @@ void display_manager::finish_pending_wrap()
 
     uint32 bytes = 0;
 
-    // If there's a display_line, then re-print its first character to force
-    // wrapping.  Otherwise, print a placeholder.
-    const int32 index = m_pending_wrap_display->top() +  _rl_last_v_pos;
-    assert(index >= 0);
-    if (index < m_pending_wrap_display->count())
+    // If there's a display_line shown on the row, then re-print its first
+    // character to force wrapping.  Otherwise, print a placeholder.
+    const uint32 index = m_pending_wrap_display->top() + _rl_last_v_pos - m_pending_wrap_display->prompt_botlin();
+    if (index < m_pending_wrap_display->count() && index <= m_pending_wrap_display->bottom())
     {
         const display_line& d = *m_pending_wrap_display->get(index);
 
-- 
2.43.0


From 83699a098817838dd3b2519eee92057a1b05a1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:21 +0000
Subject: [PATCH 59/86] fix: erasing a row's rest wrapped to the next row

---
 clink/lib/src/display_readline.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index 1b208e5..43a8eb5 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -2756,11 +2756,20 @@ left_whole:
 
             move_to_column(d->m_lastcol);
 
-            str<> tmp;
-            make_spaces(erase_cols, tmp);
+            if (lastcol >= _rl_screenwidth && !has_rprompt)
+            {
+                // Don't print spaces all the way to the right edge; it could
+                // wrap, and there might be no row to wrap to.
+                clear_to_eol(erase_cols);
+            }
+            else
+            {
+                str<> tmp;
+                make_spaces(erase_cols, tmp);
 
-            rl_fwrite_function(_rl_out_stream, tmp.c_str(), tmp.length());
-            _rl_last_c_pos += erase_cols;
+                rl_fwrite_function(_rl_out_stream, tmp.c_str(), tmp.length());
+                _rl_last_c_pos += erase_cols;
+            }
         }
     }
 
-- 
2.43.0


From adf0d2b00fa0af91d1b15f324de516bd96bb7ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:21 +0000
Subject: [PATCH 60/86] fix: a horizontally scrolled line could start within a
 character

---
 clink/lib/src/display_readline.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index 43a8eb5..be98cc3 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -763,6 +763,15 @@ void display_lines::horz_parse(uint32 prompt_botlin, uint32 col, const char* buf
     const int32 scroll_stride = _rl_screenwidth / 3;
     const int32 limit = _rl_screenwidth - c_horz_scroll_indicator_chars - 1; // `>` marker(s) and -1 for space.
 
+    // The text may have been replaced, so the offset may no longer be at the
+    // beginning of a character.
+    auto snap_horz_start = [&]()
+    {
+        while (m_horz_start < len && (buffer[m_horz_start] & 0xc0) == 0x80)
+            ++m_horz_start;
+    };
+    snap_horz_start();
+
     // Adjust horizontal scroll offset to ensure point is visible.
     if (point < m_horz_start)
     {
@@ -777,7 +786,10 @@ void display_lines::horz_parse(uint32 prompt_botlin, uint32 col, const char* buf
         {
             m_horz_start = point;
             if (!adjust_columns(m_horz_start, 0 - scroll_stride*2, buffer, len))
+            {
                 m_horz_start++;
+                snap_horz_start();
+            }
         }
     }
 
-- 
2.43.0


From b58c2551bf9476a7dd1dba8bd4d57d9262c93315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:21 +0000
Subject: [PATCH 61/86] fix: a wide prompt hid the cursor of a horizontally
 scrolled line

---
 clink/lib/src/display_readline.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index be98cc3..23495c8 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -778,9 +778,10 @@ void display_lines::horz_parse(uint32 prompt_botlin, uint32 col, const char* buf
         m_horz_start = point;
         adjust_columns(m_horz_start, 0 - scroll_stride, buffer, len);
     }
-    else
+
     {
-        const int32 range = limit - (m_horz_start ? 1 : col);
+        // The prompt might leave no room for the input.
+        const int32 range = max<int32>(1, limit - (m_horz_start ? 1 : col));
         uint32 end = m_horz_start;
         if (adjust_columns(end, range, buffer, len) && point >= end)
         {
-- 
2.43.0


From 15f02d8c058daaafb2a77131d1c38b3ff4774eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:21 +0000
Subject: [PATCH 62/86] fix: the first rows of a wrapped prompt were missing
 while the input is scrolled

---
 clink/lib/src/display_readline.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index 23495c8..d1d6fbf 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -2029,12 +2029,14 @@ void display_manager::display()
     if (need_update && !m_horz_scroll)
         update_next->apply_scroll_markers(m_top, m_top + input_botlin_offset);
 
-    // Display the last line of the prompt.
+    // Display the last line of the prompt.  If it wraps, then its first rows
+    // are visible even when the input is scrolled.
     const bool old_horz_scrolled = m_curr.is_horz_scrolled();
     const bool is_horz_scrolled = next->is_horz_scrolled();
-    if (m_top == m_last_prompt_line_botlin && (forced_display ||
-                                               old_top != m_top ||
-                                               old_horz_scrolled != is_horz_scrolled))
+    if ((m_top == m_last_prompt_line_botlin && (forced_display ||
+                                                old_top != m_top ||
+                                                old_horz_scrolled != is_horz_scrolled)) ||
+        (forced_display && m_last_prompt_line_botlin > 0))
     {
         assert(need_update); // See is_CJK_codepage usage below...
 
-- 
2.43.0


From 1a1504663dead5b582efa58197ec1ec408072e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:21 +0000
Subject: [PATCH 63/86] fix: deleting before spaces erased the rest of the line

The loop that looks for text to the right went left.
---
 clink/lib/src/display_readline.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clink/lib/src/display_readline.cpp b/clink/lib/src/display_readline.cpp
index d1d6fbf..7bfd5fc 100644
--- a/clink/lib/src/display_readline.cpp
+++ b/clink/lib/src/display_readline.cpp
@@ -2683,8 +2683,8 @@ left_whole:
                         use_eol_opt = false;
                         break;
                     }
-                    --ec;
-                    --ef;
+                    ++ec;
+                    ++ef;
                 }
             }
 
-- 
2.43.0


From 143b731402505ef95cabb69b83d1fd2f83a6c6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:46 +0000
Subject: [PATCH 64/86] fix: resuming a coroutine from an earlier edit line
 failed

There was a fallback for the coroutine's state, but not for its other fields.
---
 clink/lua/scripts/coroutines.lua | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/clink/lua/scripts/coroutines.lua b/clink/lua/scripts/coroutines.lua
index d784725..7e35282 100644
--- a/clink/lua/scripts/coroutines.lua
+++ b/clink/lua/scripts/coroutines.lua
@@ -616,7 +616,8 @@ local function restore_coroutine_state(entry, thread)
     if not entry then
         entry = _coroutines_fallback_state[thread]
         if not entry then
-            entry = { state = {} }
+            local global_modes = internal._save_global_modes()
+            entry = { state={ global_modes=global_modes }, co_state={}, runtime=0 }
             _coroutines_fallback_state[thread] = entry
         end
     end
@@ -641,6 +642,7 @@ local function restore_coroutine_state(entry, thread)
     internal._restore_global_modes(state.global_modes)
 
     entry.old_state = old_state
+    return entry
 end
 
 --------------------------------------------------------------------------------
@@ -1118,8 +1120,9 @@ end
 --------------------------------------------------------------------------------
 local orig_coroutine_resume = coroutine.resume
 function coroutine.resume(co, ...) -- luacheck: ignore 122
-    local entry = _coroutines[co]
-    restore_coroutine_state(entry, co)
+    -- A coroutine that isn't tracked (e.g. it was discarded when a new edit line
+    -- began) uses a fallback entry.
+    local entry = restore_coroutine_state(_coroutines[co], co)
 
     local old_co_state = internal.co_state
     internal.co_state = entry.co_state
-- 
2.43.0


From daa0cedee2af6e41ba7cfcc82aac6067e0e5e5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:46 +0000
Subject: [PATCH 65/86] fix: queued io.popenyield calls stalled until the next
 key

A queued coroutine was never seen as dequeued (the category has another name),
so nothing woke it after the process it waited for had ended.
---
 clink/lua/scripts/coroutines.lua | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/clink/lua/scripts/coroutines.lua b/clink/lua/scripts/coroutines.lua
index 7e35282..ee7431c 100644
--- a/clink/lua/scripts/coroutines.lua
+++ b/clink/lua/scripts/coroutines.lua
@@ -98,14 +98,8 @@ local function release_coroutine_yieldguard()
                 entry.throttleclock = os.clock()
                 entry.yieldguard = nil
                 table.insert(nil_cats, category)
-                -- TODO: This is an arbitrary order, but the dequeue order
-                -- should ideally be FIFO.
-                for _,e in pairs(_coroutines) do
-                    if e.queued and e.category == category then
-                        e.queued = nil
-                        break
-                    end
-                end
+                -- TODO: Queued coroutines proceed in an arbitrary order, but
+                -- the dequeue order should ideally be FIFO.
             end
         end
     end
@@ -248,7 +242,9 @@ function clink._internal._wait_duration()
         release_coroutine_yieldguard()  -- Dequeue next if necessary.
         for _,entry in pairs(_coroutines) do
             local this_target = next_entry_target(entry, now)
-            if entry.yieldguard or entry.queued then -- luacheck: ignore 542
+            -- A queued coroutine can proceed once its category is free.
+            local queued = entry.queued and _coroutine_yieldguard[entry.yield_category]
+            if entry.yieldguard or queued then -- luacheck: ignore 542
                 -- Yield until output is ready; don't influence the timeout.
             elseif entry.asyncyield and
                     not entry.asyncyield:ready() and
-- 
2.43.0


From c04b2115273962ef3b3b9129a78263a0df91d328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:46 +0000
Subject: [PATCH 66/86] fix: removing a coroutine blocked io.popenyield for
 good

When its process was still running, nothing released its category.
---
 clink/lua/scripts/coroutines.lua | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/clink/lua/scripts/coroutines.lua b/clink/lua/scripts/coroutines.lua
index ee7431c..bceb948 100644
--- a/clink/lua/scripts/coroutines.lua
+++ b/clink/lua/scripts/coroutines.lua
@@ -94,7 +94,10 @@ local function release_coroutine_yieldguard()
     for category, cyg in pairs(_coroutine_yieldguard) do
         if cyg.yieldguard:ready() then
             local entry = _coroutines[cyg.coroutine]
-            if entry and entry.yieldguard == cyg.yieldguard then
+            if not entry then
+                -- The coroutine was removed while its process was running.
+                table.insert(nil_cats, category)
+            elseif entry.yieldguard == cyg.yieldguard then
                 entry.throttleclock = os.clock()
                 entry.yieldguard = nil
                 table.insert(nil_cats, category)
-- 
2.43.0


From 535c547a2681c53eae399d6dd66917b0bb74dcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:46 +0000
Subject: [PATCH 67/86] fix: omitting the optional coroutine interval broke all
 coroutines

---
 clink/lua/scripts/coroutines.lua | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clink/lua/scripts/coroutines.lua b/clink/lua/scripts/coroutines.lua
index bceb948..3a003cf 100644
--- a/clink/lua/scripts/coroutines.lua
+++ b/clink/lua/scripts/coroutines.lua
@@ -700,7 +700,7 @@ function clink.addcoroutine(c, interval)
 
     -- Change the interval for a coroutine.
     if _coroutines[c] and not _coroutines[c].throttled then
-        _coroutines[c].interval = interval
+        _coroutines[c].interval = interval or 0
     end
 end
 
@@ -770,7 +770,7 @@ function clink.setcoroutineinterval(c, interval)
     -- Override the interval.  The scheduler never trusts the interval, so it's
     -- ok to blindly set the interval here even if the coroutine is currently
     -- being throttled.
-    _coroutines[c].interval = interval
+    _coroutines[c].interval = interval or 0
 end
 
 --------------------------------------------------------------------------------
-- 
2.43.0


From 61f13b40aec45ef95c276c2e95d31546d68d4197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:46 +0000
Subject: [PATCH 68/86] fix: runonmain funcs ran repeatedly if one resumed a
 coroutine

---
 clink/lua/scripts/coroutines.lua | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/clink/lua/scripts/coroutines.lua b/clink/lua/scripts/coroutines.lua
index 3a003cf..a4bf4f2 100644
--- a/clink/lua/scripts/coroutines.lua
+++ b/clink/lua/scripts/coroutines.lua
@@ -1145,7 +1145,11 @@ function coroutine.resume(co, ...) -- luacheck: ignore 122
     if _pending_on_main then
         local _, ismain = coroutine.running()
         if ismain then
-            for _, func in ipairs(_pending_on_main) do
+            -- Take the list first:  a func can resume coroutines, which must
+            -- not run the funcs from this list again.
+            local pending = _pending_on_main
+            _pending_on_main = nil
+            for _, func in ipairs(pending) do
                 -- Protected call.
                 local ok, ret = xpcall(func, _error_handler_ret)
                 if not ok then
@@ -1156,7 +1160,6 @@ function coroutine.resume(co, ...) -- luacheck: ignore 122
                     -- functions may be unrelated.
                 end
             end
-            _pending_on_main = nil
         end
     end
 
-- 
2.43.0


From 3cf6f632c257e0d00293d013ae53f56d4bd6263f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:46 +0000
Subject: [PATCH 69/86] fix: asking for an exit status let two processes run at
 a time

It replaced the record of the process that another coroutine had started, and
failed in a coroutine from an earlier edit line.
---
 clink/lua/scripts/coroutines.lua | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/clink/lua/scripts/coroutines.lua b/clink/lua/scripts/coroutines.lua
index a4bf4f2..f36a483 100644
--- a/clink/lua/scripts/coroutines.lua
+++ b/clink/lua/scripts/coroutines.lua
@@ -131,8 +131,12 @@ local function set_coroutine_yieldguard(yieldguard)
     local entry = _coroutines[t]
     if yieldguard then
         local cyg = { coroutine=t, yieldguard=yieldguard }
-        if entry.yield_category then
-            _coroutine_yieldguard[entry.yield_category] = cyg
+        -- If the category is in use (e.g. when waiting for the exit status of
+        -- a process, and another process has started meanwhile) then don't
+        -- lose track of the process that's using it.
+        local category = entry and entry.yield_category
+        if category and not _coroutine_yieldguard[category] then
+            _coroutine_yieldguard[category] = cyg
         else
             table.insert(_coroutine_yieldguard, cyg)
         end
-- 
2.43.0


From 15fbfa7098b8b6a2196c4e9c69a45f7832596f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:46 +0000
Subject: [PATCH 70/86] fix: an error was shown when a coroutine had finished
 already

When something else had resumed it earlier in the same pass.
---
 clink/lua/scripts/coroutines.lua | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/clink/lua/scripts/coroutines.lua b/clink/lua/scripts/coroutines.lua
index f36a483..96f2f02 100644
--- a/clink/lua/scripts/coroutines.lua
+++ b/clink/lua/scripts/coroutines.lua
@@ -319,7 +319,10 @@ function clink._internal._resume_coroutines()
             co = c
             _coroutines_resumable = true
             local now = os.clock()
-            if next_entry_target(entry, now) <= now and is_entry_ready(entry, now) then
+            if coroutine.status(c) == "dead" then
+                -- It finished while something else resumed it.
+                table.insert(remove, c)
+            elseif next_entry_target(entry, now) <= now and is_entry_ready(entry, now) then
                 if not entry.firstclock then
                     entry.firstclock = now
                 end
-- 
2.43.0


From dbf664bae5849d20d7c95d48c799c9dbb5861a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:36 +0000
Subject: [PATCH 71/86] fix: a prompt activated by name never ran its filters

---
 clink/app/scripts/prompt.lua | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/clink/app/scripts/prompt.lua b/clink/app/scripts/prompt.lua
index 6fe4440..64d760c 100644
--- a/clink/app/scripts/prompt.lua
+++ b/clink/app/scripts/prompt.lua
@@ -496,6 +496,10 @@ function clink._internal._activate_clinkprompt_module(module)
             return "Unable to find custom prompt '"..new_clinkprompt.."'."
         end
 
+        -- Prompt filters and event handlers are associated with the full path
+        -- of the file, but the module can be activated by name.
+        clinkprompt_module = clink.lower(file)
+
         local ok, err = pcall(function() ret = require(file) end)
         if not ok or type(ret) == "string" then
             local msg = err or (type(ret) == "string" and ret) or nil
-- 
2.43.0


From 061cb0783880652b5cd62f02c6d88e3a6ffe096c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:36 +0000
Subject: [PATCH 72/86] fix: filters and events of a prompt's dependencies
 never ran

---
 clink/app/scripts/prompt.lua |  6 +++++-
 clink/lua/scripts/events.lua | 10 +++++++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/clink/app/scripts/prompt.lua b/clink/app/scripts/prompt.lua
index 64d760c..c1b0e67 100644
--- a/clink/app/scripts/prompt.lua
+++ b/clink/app/scripts/prompt.lua
@@ -93,7 +93,7 @@ local function ipairs_active(list)
         while value and
                 value._clinkprompt_module and
                 value._clinkprompt_module ~= clinkprompt_module and
-                not clinkprompt_dependson[value._clinkprompt_module] do
+                not clinkprompt_dependson[value._clinkprompt_basename] do
             i = i + 1
             value = list[i]
         end
@@ -520,6 +520,10 @@ function clink._internal._activate_clinkprompt_module(module)
         if type(ret.dependson) == "string" then
             for _,n in ipairs(string.explode(ret.dependson, ";", '"')) do
                 clinkprompt_dependson[clink.lower(path.getbasename(n))] = true
+                local dependency = clink.getprompts(n)
+                if dependency then
+                    pcall(function() require(dependency) end)
+                end
             end
         end
         if type(ret.onactivate) == "function" then
diff --git a/clink/lua/scripts/events.lua b/clink/lua/scripts/events.lua
index 007b3ed..9067b2a 100644
--- a/clink/lua/scripts/events.lua
+++ b/clink/lua/scripts/events.lua
@@ -33,14 +33,17 @@ end
 --------------------------------------------------------------------------------
 local function ipairs_active(list)
     local i = 0
-    local _, clinkprompt_module
+    local _, clinkprompt_module, dependson
     if clink.getclinkprompt then
-        _, _, clinkprompt_module = clink.getclinkprompt()
+        _, _, clinkprompt_module, dependson = clink.getclinkprompt()
     end
     return function()
         i = i + 1
         local value = list[i]
-        while value and value._clinkprompt_module and value._clinkprompt_module ~= clinkprompt_module do
+        while value and
+                value._clinkprompt_module and
+                value._clinkprompt_module ~= clinkprompt_module and
+                not (dependson and dependson[value._clinkprompt_basename]) do
             i = i + 1
             value = list[i]
         end
@@ -186,6 +189,7 @@ local function _add_event_callback(event, func)
         -- Add entry.
         local entry = { func=func }
         entry._clinkprompt_module = wrapping_module
+        entry._clinkprompt_basename = wrapping_module and path.getbasename(wrapping_module)
         table.insert(callbacks, entry)
     end
 end
-- 
2.43.0


From aa3a7677708f4eada188620626d2c6781369d8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:36 +0000
Subject: [PATCH 73/86] Hook for reaching the directory history, under
 CLINK_VERIF_HOOKS

---
 clink/app/src/host/host.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/clink/app/src/host/host.cpp b/clink/app/src/host/host.cpp
index a34b85a..0fd2d64 100644
--- a/clink/app/src/host/host.cpp
+++ b/clink/app/src/host/host.cpp
@@ -299,6 +299,21 @@ static void prev_dir_history(str_base& inout)
     make_cd_command(a->get(), inout);
 }
 
+//------------------------------------------------------------------------------
+#ifdef CLINK_VERIF_HOOKS
+// Lets the verification machinery reach the directory history.
+void verif_dir_history(int32 op, str_base* out)
+{
+    switch (op)
+    {
+    case 0: s_dir_history.clear(); break;
+    case 1: update_dir_history(); break;
+    case 2: prev_dir_history(*out); break;
+    case 3: for (auto const& it : s_dir_history) *out << "\n" << it.get(); break;
+    }
+}
+#endif
+
 //------------------------------------------------------------------------------
 bool host_remove_dir_history(int32 index)
 {
-- 
2.43.0


From 2d83d6a0fe3e7d0926a06a7449c60842495ee86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:27 +0000
Subject: [PATCH 74/86] fix: a suggestion for an earlier line stayed when there
 was none for the new line

---
 clink/lua/src/internal_api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clink/lua/src/internal_api.cpp b/clink/lua/src/internal_api.cpp
index 58cc3e4..f6c7f4f 100644
--- a/clink/lua/src/internal_api.cpp
+++ b/clink/lua/src/internal_api.cpp
@@ -787,7 +787,7 @@ static int32 set_suggestion_result(lua_State* state)
 {
     const char* line = checkstring(state, 1);
     const auto _endword_offset = checkinteger(state, 2);
-    if (!line || !_endword_offset.isnum() || !lua_istable(state, 3))
+    if (!line || !_endword_offset.isnum())
         return 0;
 
     const int32 line_len = str_len(line);
-- 
2.43.0


From 6dddbe825ba1366eec45e75e87ebebd181d69fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:28 +0000
Subject: [PATCH 75/86] fix: accepting a suggestion that was not shown garbled
 the line

---
 clink/lib/src/suggestions.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/clink/lib/src/suggestions.cpp b/clink/lib/src/suggestions.cpp
index 6a96d66..6fc311d 100644
--- a/clink/lib/src/suggestions.cpp
+++ b/clink/lib/src/suggestions.cpp
@@ -616,6 +616,10 @@ bool suggestion_manager::insert(suggestion_action action)
     if (!m_iter.more() || g_rl_buffer->get_cursor() != g_rl_buffer->get_length())
         return false;
 
+    // The suggestion might be for an earlier state of the line.
+    if (!has_suggestion())
+        return false;
+
     // Do not allow relaxed comparison for suggestions, as it is too confusing,
     // as a result of the logic to respect original case.
     int32 scope = g_ignore_case.get() ? str_compare_scope::caseless : str_compare_scope::exact;
-- 
2.43.0


From 15bf0cc438a487139299f3cb2daceb8b78045408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:28 +0000
Subject: [PATCH 76/86] fix: the rest of a suggestion was dropped after
 accepting a word of it

---
 clink/lib/src/suggestions.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/clink/lib/src/suggestions.cpp b/clink/lib/src/suggestions.cpp
index 6fc311d..59a294f 100644
--- a/clink/lib/src/suggestions.cpp
+++ b/clink/lib/src/suggestions.cpp
@@ -175,6 +175,7 @@ void suggestions::clear(uint32 generation_id)
 //------------------------------------------------------------------------------
 void suggestions::set_line(const char* line, int32 length)
 {
+    m_line.clear();
     m_line.concat(line, length);
 }
 
-- 
2.43.0


From 4ef46e5f72f36ef1447a66b1173e4fbb16089eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:42 +0000
Subject: [PATCH 77/86] fix: inserting an empty match read before the start of
 the text

---
 readline/readline/complete.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/readline/readline/complete.c b/readline/readline/complete.c
index 7b68737..90971e6 100644
--- a/readline/readline/complete.c
+++ b/readline/readline/complete.c
@@ -2669,7 +2669,7 @@ insert_match (char *match, int start, int mtype, char *qc)
 	}
 /* end_clink_change */
       /* Don't double a closing quote character */
-      if (qc && *qc && end && rl_line_buffer[rl_point] == *qc && replacement[rlen - 1] == *qc)
+      if (qc && *qc && end && rlen && rl_line_buffer[rl_point] == *qc && replacement[rlen - 1] == *qc)
         end++;
       if (_rl_skip_completed_text)
 	{
-- 
2.43.0


From d2c41aa45764fa1972a67dcfc5ced16a7ab83510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:42 +0000
Subject: [PATCH 78/86] fix: menu completion changed the original word when it
 came back to it

---
 readline/readline/complete.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/readline/readline/complete.c b/readline/readline/complete.c
index 90971e6..b8f941a 100644
--- a/readline/readline/complete.c
+++ b/readline/readline/complete.c
@@ -3930,7 +3930,7 @@ rl_old_menu_complete (int count, int invoking_key)
       rl_ding ();
 /* begin_clink_change */
       //insert_match (orig_text, orig_start, MULT_MATCH, &quote_char);
-      insert_match (matches[0], orig_start, MULT_MATCH, &quote_char);
+      _rl_replace_text (matches[0], orig_start, rl_point - 1);
 /* end_clink_change */
     }
   else
-- 
2.43.0


From dd9632082259916e2abf20f1e8fd9523582423b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:42 +0000
Subject: [PATCH 79/86] fix: clearing the history left freed lines in the list

---
 readline/readline/misc.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/readline/readline/misc.c b/readline/readline/misc.c
index a7964ef..31277b1 100644
--- a/readline/readline/misc.c
+++ b/readline/readline/misc.c
@@ -605,9 +605,7 @@ rl_clear_history (void)
 	}
       _rl_free_history_entry (hent);
 /* begin_clink_change */
-#if defined (UNDO_LIST_HEAP_DIAGNOSTICS)
       hlist[i] = 0;
-#endif
 /* end_clink_change */
     }
 
-- 
2.43.0


From 1d31a562917d6bc16fe5da9cc2e1b146a8e397f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:42 +0000
Subject: [PATCH 80/86] fix: the G modifier of a history expansion missed words
 and changed some twice

---
 readline/readline/histexpand.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/readline/readline/histexpand.c b/readline/readline/histexpand.c
index 5395d8c..7dc50f8 100644
--- a/readline/readline/histexpand.c
+++ b/readline/readline/histexpand.c
@@ -886,7 +886,10 @@ history_expand_internal (const char *string, int start, int qc, int *end_index_p
 	       In the third case, we tokenize into words and substitute the
 	       first occurrence of each word. */
 
-	    si = we = 0;
+/* begin_clink_change */
+	    si = 0;
+	    we = -1;	/* find the end of the first word, too */
+/* end_clink_change */
 	    for (failed = 1; (si + subst_lhs_len) <= l_temp; si++)
 	      {
 		/* First skip whitespace and find word boundaries if
@@ -926,6 +929,12 @@ history_expand_internal (const char *string, int start, int qc, int *end_index_p
 		      }
 		    else if (subst_bywords)
 		      {
+/* begin_clink_change */
+			/* The substitution moved the end of the word. */
+			if (we < si + subst_lhs_len)
+			  we = si + subst_lhs_len;
+			we += subst_rhs_len - subst_lhs_len;
+/* end_clink_change */
 			si = we;
 			l_temp = strlen (temp);
 			continue;
-- 
2.43.0


From 300b84dc8407243a00a07b4a49c66dc0557f52a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:42 +0000
Subject: [PATCH 81/86] fix: expansion commands expanded history when it is
 turned off

---
 clink/lib/src/history_db.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clink/lib/src/history_db.cpp b/clink/lib/src/history_db.cpp
index 6ee616f..312f40f 100644
--- a/clink/lib/src/history_db.cpp
+++ b/clink/lib/src/history_db.cpp
@@ -2034,6 +2034,9 @@ history_db::line_id history_db::find(const char* line) const
 //------------------------------------------------------------------------------
 history_db::expand_result history_db::expand(const char* line, str_base& out)
 {
+    // The expansion commands reach here even when history expansion is off.
+    if (!g_expand_mode.get())
+        return expand_none;
     // The history expansion library can have side effects on the global
     // history variables.  Must save and restore them.
     save_history_expansion_state();
-- 
2.43.0


From a243a083bea9ea1e7fab5aa57065f37df4e705a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:42 +0000
Subject: [PATCH 82/86] fix: history expansion could use a line found before
 the history changed

---
 readline/readline/history.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/readline/readline/history.c b/readline/readline/history.c
index 70b1342..18a5ced 100644
--- a/readline/readline/history.c
+++ b/readline/readline/history.c
@@ -297,6 +297,16 @@ hist_inittime (void)
 /* end_clink_change */
 }
 
+/* begin_clink_change */
+/* What an event lookup found is only good until the history list changes. */
+static void
+forget_event_lookup (void)
+{
+  FREE (history_event_lookup_cache.search_string);
+  memset (&history_event_lookup_cache, 0, sizeof (history_event_lookup_cache));
+}
+/* end_clink_change */
+
 /* Place STRING at the end of the history list.  The data field
    is  set to NULL. */
 void
@@ -305,6 +315,10 @@ add_history (const char *string)
   HIST_ENTRY *temp;
   int new_length;
 
+/* begin_clink_change */
+  forget_event_lookup ();
+/* end_clink_change */
+
   if (history_stifled && (history_length == history_max_entries))
     {
       /* If the history is stifled, and history_length is zero,
@@ -414,6 +428,10 @@ replace_history_entry (int which, const char *line, histdata_t data)
   if (which < 0 || which >= history_length)
     return ((HIST_ENTRY *)NULL);
 
+/* begin_clink_change */
+  forget_event_lookup ();
+/* end_clink_change */
+
   temp = (HIST_ENTRY *)xmalloc (sizeof (HIST_ENTRY));
   old_value = the_history[which];
 
@@ -538,6 +556,10 @@ remove_history (int which)
   if (which < 0 || which >= history_length || history_length ==  0 || the_history == 0)
     return ((HIST_ENTRY *)NULL);
 
+/* begin_clink_change */
+  forget_event_lookup ();
+/* end_clink_change */
+
   return_value = the_history[which];
 
 #if 1
-- 
2.43.0


From 1f395bf9175ec53f9c253fe9f71c880c60204f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:49 +0000
Subject: [PATCH 83/86] fix: repeating a failing history search could leave the
 cursor past the end of the line

---
 readline/readline/search.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/readline/readline/search.c b/readline/readline/search.c
index ad6ff3e..7375e90 100644
--- a/readline/readline/search.c
+++ b/readline/readline/search.c
@@ -763,6 +763,8 @@ rl_history_search_internal (int count, int dir)
       rl_point = _rl_history_search_len;	/* _rl_unsave_line changes it */
       rl_mark = rl_end;				/* XXX */
 /* begin_clink_change */
+      /* The line may have become shorter, e.g. by rl_remove_history. */
+      _rl_fix_point (0);
       rl_maybe_swap_point_and_mark ();
 /* end_clink_change */
 #endif
-- 
2.43.0


From d9c331c824a2d778d8ea3bc9d310186b997e9af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:49 +0000
Subject: [PATCH 84/86] fix: next-history lost the new line when continuing
 from a reused line

---
 readline/readline/misc.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/readline/readline/misc.c b/readline/readline/misc.c
index 31277b1..9196590 100644
--- a/readline/readline/misc.c
+++ b/readline/readline/misc.c
@@ -680,6 +680,13 @@ rl_get_next_history (int count, int key)
   if (count == 0)
     return 0;
 
+/* begin_clink_change */
+  /* The history position may be on an entry even though the line is a new
+     line, so that it can continue from there; save the new line. */
+  if (history_prev_use_curr)
+    rl_maybe_save_line ();
+/* end_clink_change */
+
   /* If the current line has changed, save the changes. */
 #if 0	/* XXX old code can leak or corrupt rl_undo_list */
   rl_maybe_replace_line ();
-- 
2.43.0


From b1c669f5e4f77cd84432b9d21f01bb7d49d0bbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:49 +0000
Subject: [PATCH 85/86] fix: an accepted line could be left out of the history
 when a recalled line was edited to match it

---
 clink/lib/src/sticky_search.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/clink/lib/src/sticky_search.cpp b/clink/lib/src/sticky_search.cpp
index f2918e0..ef17123 100644
--- a/clink/lib/src/sticky_search.cpp
+++ b/clink/lib/src/sticky_search.cpp
@@ -102,7 +102,9 @@ extern "C" void suppress_sticky_search_position()
 static bool history_line_differs(int32 history_pos, const char* line)
 {
     const HIST_ENTRY* entry = history_get(history_pos + history_base);
-    return (!entry || strcmp(entry->line, line) != 0);
+    // An entry with an undo list was edited while it was recalled, so its line
+    // is not what the history contains.
+    return (!entry || entry->data || strcmp(entry->line, line) != 0);
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 0decdf5f7a3ae25b229c484e8aedd3def8fcede1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:57 +0000
Subject: [PATCH 86/86] fix: remove-history could remove a history line that
 had been edited and was not shown

---
 readline/readline/misc.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/readline/readline/misc.c b/readline/readline/misc.c
index 9196590..e5a2a81 100644
--- a/readline/readline/misc.c
+++ b/readline/readline/misc.c
@@ -979,10 +979,11 @@ rl_remove_history (int count, int key)
       return 0;
     }
 
-  /* Bail out if the input buffer doesn't match the history entry. */
+  /* Bail out if the input buffer doesn't match the history entry, or if the
+     history entry was edited. */
   HIST_ENTRY **list = history_list ();
   HIST_ENTRY *hist = list ? list[old_where] : 0;
-  if (!hist || (current_history () && rl_undo_list) || strcmp (rl_line_buffer, hist->line))
+  if (!hist || hist->data || (current_history () && rl_undo_list) || strcmp (rl_line_buffer, hist->line))
     {
       rl_ding ();
       return 0;
-- 
2.43.0

