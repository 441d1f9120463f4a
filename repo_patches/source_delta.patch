From f92454dd1970cd86c9e6a6b05c936f593fdb9a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:47 +0000
Subject: [PATCH 01/22] fix: honour short_case_insensitive independently of
 long_case_insensitive

The token was lowercased according to the long flag only, while the short
name was lowercased according to the short flag.
---
 src/options_description.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/options_description.cpp b/src/options_description.cpp
index 0efdc33..516cd57 100644
--- a/src/options_description.cpp
+++ b/src/options_description.cpp
@@ -115,8 +115,9 @@ namespace boost { namespace program_options {
         if (result != full_match)
         {
             std::string local_short_name(short_ignore_case ? tolower_(m_short_name) : m_short_name);
+            std::string local_short_option(short_ignore_case ? tolower_(option) : option);
 
-            if (local_short_name == local_option)
+            if (local_short_name == local_short_option)
             {
                 result = full_match;
             }
-- 
2.43.0


From 6015e25cac4574c5303588e8ad7e0bc895580fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:47 +0000
Subject: [PATCH 02/22] fix: do not read the missing original token of a
 grouped short option

An ambiguity found in the second pass for an option that carries no
original token (-fg, or one made by an extra parser) dereferenced an
empty vector.
---
 src/cmdline.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cmdline.cpp b/src/cmdline.cpp
index 8f4ae64..7504589 100644
--- a/src/cmdline.cpp
+++ b/src/cmdline.cpp
@@ -311,7 +311,10 @@ namespace boost { namespace program_options { namespace detail {
             catch(error_with_option_name& e)
             {
                 // add context and rethrow
-                e.add_context(opt.string_key, opt.original_tokens[0], get_canonical_option_prefix());
+                // all but the last of grouped short options have no original token
+                e.add_context(opt.string_key,
+                              opt.original_tokens.empty() ? opt.string_key : opt.original_tokens[0],
+                              get_canonical_option_prefix());
                 throw;
             }
 
-- 
2.43.0


From 005dfcecf3b8d969386b9f1a55e8a7d6cf5289fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:47 +0000
Subject: [PATCH 03/22] fix: do not read past the empty section name "[]" in a
 config file

---
 src/config_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config_file.cpp b/src/config_file.cpp
index d586523..a3c01cd 100644
--- a/src/config_file.cpp
+++ b/src/config_file.cpp
@@ -97,7 +97,7 @@ namespace boost { namespace program_options { namespace detail {
                 // Handle section name
                 if (*s.begin() == '[' && *s.rbegin() == ']') {
                     m_prefix = s.substr(1, s.size()-2);
-                    if (*m_prefix.rbegin() != '.')
+                    if (m_prefix.empty() || *m_prefix.rbegin() != '.')
                         m_prefix += '.';
                 }
                 else if ((n = s.find('=')) != string::npos) {
-- 
2.43.0


From 6eed903afa2f23d3ee74b1414683cf358636aceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:47 +0000
Subject: [PATCH 04/22] fix: name the conflicting wildcard in the config file
 error message

The iterator was moved off the conflicting prefix before it was reported.
---
 src/config_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config_file.cpp b/src/config_file.cpp
index a3c01cd..0a53a36 100644
--- a/src/config_file.cpp
+++ b/src/config_file.cpp
@@ -52,7 +52,7 @@ namespace boost { namespace program_options { namespace detail {
                 if (i->find(s) == 0)
                     bad_prefixes = true;                    
             }
-            if (i != allowed_prefixes.begin()) {
+            if (!bad_prefixes && i != allowed_prefixes.begin()) {
                 --i;
                 if (s.find(*i) == 0)
                     bad_prefixes = true;
-- 
2.43.0


From 2795c5b0e3ff779915ee076f3cd2376d96fb04d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:21 +0000
Subject: [PATCH 05/22] fix: keep the original token of a disguised long option
 unchanged

"-foo=1" was recorded as "--foo=1", while option::original_tokens is
documented to hold the unchanged tokens.
---
 src/cmdline.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cmdline.cpp b/src/cmdline.cpp
index 7504589..c4ffdda 100644
--- a/src/cmdline.cpp
+++ b/src/cmdline.cpp
@@ -651,10 +651,15 @@ namespace boost { namespace program_options { namespace detail {
                                          is_style_active(long_case_insensitive),
                                          is_style_active(short_case_insensitive)))
                 {
+                    const string original_token = args[0];
                     args[0].insert(0, "-");
                     if (args[0][1] == '/')
                         args[0][1] = '-';
-                    return parse_long_option(args);
+                    vector<option> result = parse_long_option(args);
+                    // report the token as it was typed, not as rewritten above
+                    for (unsigned i = 0; i < result.size(); ++i)
+                        result[i].original_tokens.assign(1, original_token);
+                    return result;
                 }
             } 
             catch(error_with_option_name& e)
-- 
2.43.0


From 016a43fdc6f9e89ebaaac9e2bb8b6a539df2b26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:21 +0000
Subject: [PATCH 06/22] fix: do not substitute placeholders inside user input
 in error messages

what() never returned for a token such as "--%canonical_option%", or a
value such as "%value%", and garbled other text that looks like a
placeholder.
---
 src/value_semantic.cpp | 57 +++++++++++++++++++++++++++++++-----------
 1 file changed, 43 insertions(+), 14 deletions(-)

diff --git a/src/value_semantic.cpp b/src/value_semantic.cpp
index de7b2ac..7668017 100644
--- a/src/value_semantic.cpp
+++ b/src/value_semantic.cpp
@@ -270,13 +270,15 @@ namespace boost { namespace program_options {
 
     void error_with_option_name::replace_token(const string& from, const string& to) const
     {
-        for (;;)
+        for (std::size_t start = 0;;)
         {
-            std::size_t pos = m_message.find(from.c_str(), 0, from.length());
+            std::size_t pos = m_message.find(from.c_str(), start, from.length());
             // not found: all replaced
             if (pos == std::string::npos)
                 return;
             m_message.replace(pos, from.length(), to);
+            // the replacement itself must not be searched again
+            start = pos + to.length();
         }
     }
 
@@ -347,10 +349,33 @@ namespace boost { namespace program_options {
         //
         //  replace placeholder with values
         //  placeholder are denoted by surrounding '%'
+        //  This is done in one pass, so that values (which may hold arbitrary
+        //  user input) are never themselves searched for placeholders.
         // 
-        for (map<string, string>::iterator iter = substitutions.begin();
-              iter != substitutions.end(); ++iter)
-            replace_token('%' + iter->first + '%', iter->second);
+        string message;
+        size_t pos = 0;
+        for (;;)
+        {
+            size_t first = m_message.find('%', pos);
+            size_t last = first == string::npos ? first : m_message.find('%', first + 1);
+            if (last == string::npos)
+                break;
+            map<string, string>::const_iterator iter =
+                substitutions.find(m_message.substr(first + 1, last - first - 1));
+            if (iter == substitutions.end())
+            {
+                // the second '%' may itself start a placeholder
+                message.append(m_message, pos, last - pos);
+                pos = last;
+            }
+            else
+            {
+                message.append(m_message, pos, first - pos).append(iter->second);
+                pos = last + 1;
+            }
+        }
+        message.append(m_message, pos, string::npos);
+        m_message.swap(message);
     }
 
 
@@ -367,29 +392,33 @@ namespace boost { namespace program_options {
         }
 
 
-        string error_template  = original_error_template;
+        // use inherited logic
+        error_with_option_name::substitute_placeholders(original_error_template);
+
+        // The alternatives may hold user input, so they are appended after
+        // the placeholders have been replaced.
+        const string prefix = get_canonical_option_prefix();
+        string alternatives;
         // remove duplicates using std::set
         std::set<std::string>   alternatives_set (m_alternatives.begin(), m_alternatives.end());
         std::vector<std::string> alternatives_vec (alternatives_set.begin(), alternatives_set.end());
 
-        error_template += " and matches ";
+        alternatives += " and matches ";
         // Being very cautious: should be > 1 alternative!
         if (alternatives_vec.size() > 1)
         {
             for (unsigned i = 0; i < alternatives_vec.size() - 1; ++i)
-                error_template += "'%prefix%" + alternatives_vec[i] + "', ";
-            error_template += "and ";
+                alternatives += "'" + prefix + alternatives_vec[i] + "', ";
+            alternatives += "and ";
         }
 
         // there is a programming error if multiple options have the same name...
         if (m_alternatives.size() > 1 && alternatives_vec.size() == 1)
-            error_template += "different versions of ";
+            alternatives += "different versions of ";
 
-        error_template += "'%prefix%" + alternatives_vec.back() + "'";
+        alternatives += "'" + prefix + alternatives_vec.back() + "'";
 
-
-        // use inherited logic
-        error_with_option_name::substitute_placeholders(error_template);
+        m_message += alternatives;
     }
 
 
-- 
2.43.0


From 800651a3fe875b805f461021eef6780ebb9b7d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:21 +0000
Subject: [PATCH 07/22] fix: do not abort when a tab in a description is past
 the first line

Such a tab is documented to be ignored, as the code below the assert
does, but a debug build stopped at the assert.
---
 src/options_description.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/options_description.cpp b/src/options_description.cpp
index 516cd57..a939d35 100644
--- a/src/options_description.cpp
+++ b/src/options_description.cpp
@@ -465,10 +465,6 @@ namespace boost { namespace program_options {
                 // erase tab from string
                 par.erase(par_indent, 1);
 
-                // this assert may fail due to user error or 
-                // environment conditions!
-                assert(par_indent < line_length);
-
                 // ignore tab if not on first line
                 if (par_indent >= line_length)
                 {
-- 
2.43.0


From 9cc6185a90828aa63c30621325605e692093283e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:01 +0000
Subject: [PATCH 08/22] fix: name the option at fault when the next token is
 examined

A value missing before a short option was reported with that option's
letter, and an error in the next token with the name of the option
before it.
---
 src/cmdline.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cmdline.cpp b/src/cmdline.cpp
index c4ffdda..1ccc613 100644
--- a/src/cmdline.cpp
+++ b/src/cmdline.cpp
@@ -414,6 +414,8 @@ namespace boost { namespace program_options { namespace detail {
         std::string original_token_for_exceptions = opt.string_key;
         if (opt.original_tokens.size())
             original_token_for_exceptions = opt.original_tokens[0];
+        // errors found while looking at the next token are not about 'opt'
+        bool error_is_about_opt = true;
 
         try
         {
@@ -474,17 +476,21 @@ namespace boost { namespace program_options { namespace detail {
                     // additionally we check if an option_description exists
                     vector<option> followed_option;  
                     vector<string> next_token(1, other_tokens[0]);      
+                    error_is_about_opt = false;
                     for (unsigned i = 0; followed_option.empty() && i < style_parsers.size(); ++i)
                     {
                         followed_option = style_parsers[i](next_token);
                     }
+                    error_is_about_opt = true;
                     if (!followed_option.empty()) 
                     {
+                        const string opt_token = original_token_for_exceptions;
                         original_token_for_exceptions = other_tokens[0];
                         const option_description* od = m_desc->find_nothrow(other_tokens[0], 
                                   is_style_active(allow_guessing),
                                   is_style_active(long_case_insensitive),
                                   is_style_active(short_case_insensitive));
+                        original_token_for_exceptions = opt_token;
                         if (od) 
                             boost::throw_exception(
                                 invalid_command_line_syntax(invalid_command_line_syntax::missing_parameter));
@@ -506,7 +512,8 @@ namespace boost { namespace program_options { namespace detail {
         catch(error_with_option_name& e)
         {
             // add context and rethrow
-            e.add_context(opt.string_key, original_token_for_exceptions, get_canonical_option_prefix());
+            if (error_is_about_opt)
+                e.add_context(opt.string_key, original_token_for_exceptions, get_canonical_option_prefix());
             throw;
         }
 
-- 
2.43.0


From 63002cb5c1316598cf4a5e689bd81f7c3b86b257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:01 +0000
Subject: [PATCH 09/22] fix: report the name of a disguised option without its
 "="

"-foo=" was reported as the option "--foo=".
---
 src/cmdline.cpp | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/cmdline.cpp b/src/cmdline.cpp
index 1ccc613..9158204 100644
--- a/src/cmdline.cpp
+++ b/src/cmdline.cpp
@@ -651,23 +651,13 @@ namespace boost { namespace program_options { namespace detail {
             ((tok[0] == '-' && tok[1] != '-') ||
              ((m_style & allow_slash_for_short) && tok[0] == '/')))            
         {
+            bool known;
             try
             {
-                if (m_desc->find_nothrow(tok.substr(1, tok.find('=')-1), 
-                                         is_style_active(allow_guessing),
-                                         is_style_active(long_case_insensitive),
-                                         is_style_active(short_case_insensitive)))
-                {
-                    const string original_token = args[0];
-                    args[0].insert(0, "-");
-                    if (args[0][1] == '/')
-                        args[0][1] = '-';
-                    vector<option> result = parse_long_option(args);
-                    // report the token as it was typed, not as rewritten above
-                    for (unsigned i = 0; i < result.size(); ++i)
-                        result[i].original_tokens.assign(1, original_token);
-                    return result;
-                }
+                known = m_desc->find_nothrow(tok.substr(1, tok.find('=')-1), 
+                                             is_style_active(allow_guessing),
+                                             is_style_active(long_case_insensitive),
+                                             is_style_active(short_case_insensitive)) != 0;
             } 
             catch(error_with_option_name& e)
             {
@@ -675,6 +665,19 @@ namespace boost { namespace program_options { namespace detail {
                 e.add_context(tok, tok, get_canonical_option_prefix());
                 throw;
             }
+
+            if (known)
+            {
+                const string original_token = args[0];
+                args[0].insert(0, "-");
+                if (args[0][1] == '/')
+                    args[0][1] = '-';
+                vector<option> result = parse_long_option(args);
+                // report the token as it was typed, not as rewritten above
+                for (unsigned i = 0; i < result.size(); ++i)
+                    result[i].original_tokens.assign(1, original_token);
+                return result;
+            }
         }
         return vector<option>();
     }
-- 
2.43.0


From adbe281e8177416053d18c4ea20ececaa8aa6afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:54 +0000
Subject: [PATCH 10/22] fix: do not match the empty name against options
 without a short name

The missing short name compared equal to an empty looked-up name.
---
 src/options_description.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/options_description.cpp b/src/options_description.cpp
index a939d35..db8e322 100644
--- a/src/options_description.cpp
+++ b/src/options_description.cpp
@@ -117,7 +117,7 @@ namespace boost { namespace program_options {
             std::string local_short_name(short_ignore_case ? tolower_(m_short_name) : m_short_name);
             std::string local_short_option(short_ignore_case ? tolower_(option) : option);
 
-            if (local_short_name == local_short_option)
+            if (!local_short_name.empty() && local_short_name == local_short_option)
             {
                 result = full_match;
             }
-- 
2.43.0


From e957d98859ef2aac396bdcc59846afa1ae22d04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:44 +0000
Subject: [PATCH 11/22] fix: quote an invalid boolean value as it was given

The message showed the value in lower case.
---
 src/value_semantic.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/value_semantic.cpp b/src/value_semantic.cpp
index 7668017..855c606 100644
--- a/src/value_semantic.cpp
+++ b/src/value_semantic.cpp
@@ -159,7 +159,7 @@ namespace boost { namespace program_options {
         else if (s == "off" || s == "no" || s == "0" || s == "false")
             v = any(false);
         else
-            boost::throw_exception(invalid_bool_value(s));
+            boost::throw_exception(invalid_bool_value(get_single_string(xs)));
     }
 
     // This is blatant copy-paste. However, templating this will cause a problem,
@@ -181,7 +181,7 @@ namespace boost { namespace program_options {
         else if (s == L"off" || s == L"no" || s == L"0" || s == L"false")
             v = any(false);
         else
-            boost::throw_exception(invalid_bool_value(convert_value(s)));
+            boost::throw_exception(invalid_bool_value(convert_value(get_single_string(xs))));
     }
 #endif
     BOOST_PROGRAM_OPTIONS_DECL 
-- 
2.43.0


From fdc9f6b8a12194ac89c813d074a7d0617918dee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:44 +0000
Subject: [PATCH 12/22] fix: name the unrecognised option that came from the
 environment

The message was just "unrecognised option".
---
 src/variables_map.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/variables_map.cpp b/src/variables_map.cpp
index 94ac614..c27071c 100644
--- a/src/variables_map.cpp
+++ b/src/variables_map.cpp
@@ -68,8 +68,11 @@ namespace boost { namespace program_options {
                 if (xm.m_final.count(option_name))
                     continue;
 
+                // options from the environment have no original token: without
+                // the name an unrecognised one could not be identified
                 original_token = options.options[i].original_tokens.size() ?
-                                        options.options[i].original_tokens[0]     : "";
+                                        options.options[i].original_tokens[0]     :
+                                 options.m_options_prefix == 0 ? option_name : "";
                 const option_description& d = desc.find(option_name, false,
                                                         false, false);
 
-- 
2.43.0


From e145a9dbae6998dd0d70d52dcb5d19f99cb6fa60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:39 +0000
Subject: [PATCH 13/22] fix: do not offer an already consumed look-ahead token
 to further parsers

---
 src/cmdline.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmdline.cpp b/src/cmdline.cpp
index 9158204..bce7d2e 100644
--- a/src/cmdline.cpp
+++ b/src/cmdline.cpp
@@ -477,7 +477,7 @@ namespace boost { namespace program_options { namespace detail {
                     vector<option> followed_option;  
                     vector<string> next_token(1, other_tokens[0]);      
                     error_is_about_opt = false;
-                    for (unsigned i = 0; followed_option.empty() && i < style_parsers.size(); ++i)
+                    for (unsigned i = 0; followed_option.empty() && !next_token.empty() && i < style_parsers.size(); ++i)
                     {
                         followed_option = style_parsers[i](next_token);
                     }
-- 
2.43.0


From abc46af0d4d9fea3d0b9dcc17fd884e840e66b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:28 +0000
Subject: [PATCH 14/22] fix: keep the case_insensitive mark of a parsed option
 in its wide form

---
 src/parsers.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parsers.cpp b/src/parsers.cpp
index 4dac608..675643a 100644
--- a/src/parsers.cpp
+++ b/src/parsers.cpp
@@ -75,6 +75,7 @@ namespace boost { namespace program_options {
             result.string_key = opt.string_key;
             result.position_key = opt.position_key;
             result.unregistered = opt.unregistered;
+            result.case_insensitive = opt.case_insensitive;
             
             std::transform(opt.value.begin(), opt.value.end(),
                            back_inserter(result.value),
-- 
2.43.0


From c1a13b876366dd5e9bbc75144b57e04590ec12bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:10 +0000
Subject: [PATCH 15/22] fix: store a narrow string for a string option that is
 parsed from wide input

---
 src/value_semantic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/value_semantic.cpp b/src/value_semantic.cpp
index 855c606..360f2c5 100644
--- a/src/value_semantic.cpp
+++ b/src/value_semantic.cpp
@@ -196,7 +196,7 @@ namespace boost { namespace program_options {
     void validate(any& v, const vector<wstring>& xs, std::string*, int)
     {
         check_first_occurrence(v);
-        v = any(get_single_string(xs));
+        v = any(to_local_8_bit(get_single_string(xs)));
     }
 #endif
 
-- 
2.43.0


From bf24b5e8e56f3a5e9d261faf590d1e4cabcb91ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:45 +0000
Subject: [PATCH 16/22] fix: do not loop forever when a description is added to
 itself

---
 src/options_description.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/options_description.cpp b/src/options_description.cpp
index db8e322..894c7a2 100644
--- a/src/options_description.cpp
+++ b/src/options_description.cpp
@@ -331,8 +331,8 @@ namespace boost { namespace program_options {
         shared_ptr<options_description> d(new options_description(desc));
         groups.push_back(d);
 
-        for (size_t i = 0; i < desc.m_options.size(); ++i) {
-            add(desc.m_options[i]);
+        for (size_t i = 0; i < d->m_options.size(); ++i) {
+            add(d->m_options[i]);
             belong_to_group.back() = true;
         }
 
-- 
2.43.0


From ad416ba5b3c2453d3e7c2567054a8c8a4e7f5f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:17 +0000
Subject: [PATCH 17/22] fix: initialise the allow_unregistered flag of the end
 of file iterator

---
 include/boost/program_options/detail/config_file.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/program_options/detail/config_file.hpp b/include/boost/program_options/detail/config_file.hpp
index 808bec7..068c222 100644
--- a/include/boost/program_options/detail/config_file.hpp
+++ b/include/boost/program_options/detail/config_file.hpp
@@ -71,7 +71,9 @@ namespace boost { namespace program_options { namespace detail {
         : public eof_iterator<common_config_file_iterator, option>
     {
     public:
-        common_config_file_iterator() { found_eof(); }
+        common_config_file_iterator()
+        : m_allow_unregistered(false)
+        { found_eof(); }
         common_config_file_iterator(
             const std::set<std::string>& allowed_options,
             bool allow_unregistered = false);
-- 
2.43.0


From f07bbf5b0affa71ec4d37bad06c10bbbb9ada48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:04 +0000
Subject: [PATCH 18/22] fix: do not leak the value semantic when declaring an
 option throws

---
 .../program_options/options_description.hpp   |  9 ++++++-
 src/options_description.cpp                   | 26 ++++++++++++-------
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/include/boost/program_options/options_description.hpp b/include/boost/program_options/options_description.hpp
index 90d913d..8c45e60 100644
--- a/include/boost/program_options/options_description.hpp
+++ b/include/boost/program_options/options_description.hpp
@@ -37,6 +37,8 @@ namespace boost {
 /** Namespace for the library. */
 namespace program_options {
 
+    class options_description_easy_init;
+
     /** Describes one possible command line/config file option. There are two
         kinds of properties of an option. First describe it syntactically and
         are used only to validate input. Second affect interpretation of the
@@ -131,7 +133,12 @@ namespace program_options {
         std::string format_parameter() const;
 
     private:
-    
+        friend class options_description_easy_init;
+
+        option_description(const char* name,
+                           const shared_ptr<const value_semantic>& s,
+                           const char* description);
+
         option_description& set_names(const char* name);
 
         /**
diff --git a/src/options_description.cpp b/src/options_description.cpp
index 894c7a2..d83dbe6 100644
--- a/src/options_description.cpp
+++ b/src/options_description.cpp
@@ -62,6 +62,16 @@ namespace boost { namespace program_options {
     option_description(const char* names,
                        const value_semantic* s,
                        const char* description)
+    : m_value_semantic(s) // owns 's' before anything can throw
+    {
+        m_description = description;
+        this->set_names(names);
+    }
+
+    option_description::
+    option_description(const char* names,
+                       const shared_ptr<const value_semantic>& s,
+                       const char* description)
     : m_description(description), m_value_semantic(s)
     {
         this->set_names(names);
@@ -266,12 +276,7 @@ namespace boost { namespace program_options {
     {
         // Create untypes semantic which accepts zero tokens: i.e. 
         // no value can be specified on command line.
-        // FIXME: does not look exception-safe
-        shared_ptr<option_description> d(
-            new option_description(name, new untyped_value(true), description));
-
-        owner->add(d);
-        return *this;
+        return (*this)(name, new untyped_value(true), description);
     }
 
     options_description_easy_init&
@@ -279,9 +284,7 @@ namespace boost { namespace program_options {
     operator()(const char* name,
                const value_semantic* s)
     {
-        shared_ptr<option_description> d(new option_description(name, s));
-        owner->add(d);
-        return *this;
+        return (*this)(name, s, "");
     }
 
     options_description_easy_init&
@@ -290,7 +293,10 @@ namespace boost { namespace program_options {
                const value_semantic* s,
                const char* description)
     {
-        shared_ptr<option_description> d(new option_description(name, s, description));
+        // Take ownership first: 's' must not leak if something throws.
+        shared_ptr<const value_semantic> semantic(s);
+        shared_ptr<option_description> d(
+            new option_description(name, semantic, description));
 
         owner->add(d);
         return *this;
-- 
2.43.0


From bd8043ffda930b4aaa776f5fd4d26b6a4de14079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:28 +0000
Subject: [PATCH 19/22] fix: do not silently lose names of a declared option
 when memory is exhausted

---
 src/options_description.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/options_description.cpp b/src/options_description.cpp
index d83dbe6..df81671 100644
--- a/src/options_description.cpp
+++ b/src/options_description.cpp
@@ -204,6 +204,8 @@ namespace boost { namespace program_options {
     {
         m_long_names.clear();
         std::istringstream iss(_names);
+        // or names would be lost when there's no memory
+        iss.exceptions(std::ios_base::badbit);
         std::string name;
 
         while(std::getline(iss, name, ',')) {
-- 
2.43.0


From 0514ad1e05f2760a16eb4c296e9b7e4045001edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:21 +0000
Subject: [PATCH 20/22] fix: keep a description consistent when adding to it
 throws

---
 src/options_description.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/options_description.cpp b/src/options_description.cpp
index df81671..042f471 100644
--- a/src/options_description.cpp
+++ b/src/options_description.cpp
@@ -329,20 +329,26 @@ namespace boost { namespace program_options {
     void
     options_description::add(shared_ptr<option_description> desc)
     {
-        m_options.push_back(desc);
+        // If either fails to get memory, m_options is left as it was, and
+        // belong_to_group must not stay longer than it.
+        belong_to_group.resize(m_options.size());
         belong_to_group.push_back(false);
+        m_options.push_back(desc);
     }
 
     options_description&
     options_description::add(const options_description& desc)
     {
         shared_ptr<options_description> d(new options_description(desc));
-        groups.push_back(d);
 
-        for (size_t i = 0; i < d->m_options.size(); ++i) {
-            add(d->m_options[i]);
-            belong_to_group.back() = true;
-        }
+        // Get all memory first, so that the group is added completely or not
+        // at all.
+        vector< shared_ptr<option_description> > options(m_options);
+        options.insert(options.end(), d->m_options.begin(), d->m_options.end());
+        belong_to_group.resize(m_options.size());
+        belong_to_group.resize(options.size(), true);
+        groups.push_back(d);
+        m_options.swap(options);
 
         return *this;
     }
-- 
2.43.0


From 639ae358b3e43427d8c1e2aaab3d6cdce6052ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:21 +0000
Subject: [PATCH 21/22] fix: do not silently omit text from help when memory is
 exhausted

---
 src/options_description.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/options_description.cpp b/src/options_description.cpp
index 042f471..2fe85ae 100644
--- a/src/options_description.cpp
+++ b/src/options_description.cpp
@@ -624,6 +624,8 @@ namespace boost { namespace program_options {
                         unsigned first_column_width, unsigned line_length)
         {
             stringstream ss;
+            // or text would be lost when there's no memory
+            ss.exceptions(ios_base::badbit);
             ss << "  " << opt.format_name() << ' ' << opt.format_parameter();
             
             // Don't use ss.rdbuf() since g++ 2.96 is buggy on it.
@@ -661,6 +663,8 @@ namespace boost { namespace program_options {
         {
             const option_description& opt = *m_options[i];
             stringstream ss;
+            // or text would be lost when there's no memory
+            ss.exceptions(ios_base::badbit);
             ss << "  " << opt.format_name() << ' ' << opt.format_parameter();
             width = (max)(width, static_cast<unsigned>(ss.str().size()));            
         }
-- 
2.43.0


From 221ba71ef234f561e76d6cf88fbf258d72ba9408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:57 +0000
Subject: [PATCH 22/22] fix: keep the text what() returned valid when what() is
 called again

The message was swapped with a new string, so a second call released the
buffer that the first had returned.
---
 src/value_semantic.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/value_semantic.cpp b/src/value_semantic.cpp
index 360f2c5..e3d1ca0 100644
--- a/src/value_semantic.cpp
+++ b/src/value_semantic.cpp
@@ -375,7 +375,8 @@ namespace boost { namespace program_options {
             }
         }
         message.append(m_message, pos, string::npos);
-        m_message.swap(message);
+        // not swap: the text that what() returned before must stay valid
+        m_message = message;
     }
 
 
-- 
2.43.0

