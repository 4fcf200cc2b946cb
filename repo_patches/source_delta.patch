From 573eae0fcea2542781afa0c8fb561044f1591824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:05 +0000
Subject: [PATCH 01/12] fix: decode UTF-16 surrogate pairs of planes 2 and
 above correctly

The offset 0x10000 was or-ed instead of added, so every surrogate pair whose
high surrogate already had that bit set lost it (U+2F600 decoded as U+1F600).
---
 include/lexy/_detail/code_point.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexy/_detail/code_point.hpp b/include/lexy/_detail/code_point.hpp
index 88e7aa0..e0c581c 100644
--- a/include/lexy/_detail/code_point.hpp
+++ b/include/lexy/_detail/code_point.hpp
@@ -296,7 +296,7 @@ constexpr cp_result<Reader> parse_code_point(Reader reader)
             auto result = char32_t(first & payload1);
             result <<= 10;
             result |= char32_t(second & payload2);
-            result |= 0x10000;
+            result += 0x10000;
             return {result, cp_error::success, reader.current()};
         }
         else if ((first & ~payload2) == pattern2)
-- 
2.43.0


From 509fb430897cf3a7b005b6e1a2a031f0ef790a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:01 +0000
Subject: [PATCH 02/12] fix: only treat 00 00 FE FF as big-endian UTF-32 BOM

The check of the fourth byte only tested for non-zero, so the code unit
0x0000FExx was silently dropped from the beginning of the buffer.
---
 include/lexy/input/buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexy/input/buffer.hpp b/include/lexy/input/buffer.hpp
index 4380528..894e0df 100644
--- a/include/lexy/input/buffer.hpp
+++ b/include/lexy/input/buffer.hpp
@@ -440,7 +440,7 @@ struct _make_buffer<utf32_encoding, encoding_endianness::bom>
         {
             if (memory[0] == 0xFF && memory[1] == 0xFE && memory[2] == 0x00 && memory[3] == 0x00)
                 return utf32_little(memory + 4, size - 4, resource);
-            else if (memory[0] == 0x00 && memory[1] == 0x00 && memory[2] == 0xFE && memory[3])
+            else if (memory[0] == 0x00 && memory[1] == 0x00 && memory[2] == 0xFE && memory[3] == 0xFF)
                 return utf32_big(memory + 4, size - 4, resource);
         }
 
-- 
2.43.0


From ddf412ae23349210b687547f3d53d750f7852e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:44 +0000
Subject: [PATCH 03/12] fix: an empty buffer is an input at EOF even if it owns
 no memory

The reader of a default constructed, moved-from or released buffer of an
encoding with sentinel dereferenced a null pointer.
---
 include/lexy/input/buffer.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/lexy/input/buffer.hpp b/include/lexy/input/buffer.hpp
index 894e0df..9fff6cf 100644
--- a/include/lexy/input/buffer.hpp
+++ b/include/lexy/input/buffer.hpp
@@ -69,6 +69,21 @@ LEXY_INSTANTIATION_NEWTYPE(_br8, _br, lexy::utf8_encoding);
 LEXY_INSTANTIATION_NEWTYPE(_brc, _br, lexy::utf8_char_encoding);
 LEXY_INSTANTIATION_NEWTYPE(_br32, _br, lexy::utf32_encoding);
 
+// The input of a buffer that doesn't own any memory: just the sentinel and the SWAR padding.
+template <typename Encoding>
+struct _buffer_empty_storage
+{
+    typename Encoding::char_type data[_detail::round_size_for_swar(1)];
+
+    constexpr _buffer_empty_storage() noexcept : data()
+    {
+        for (auto& c : data)
+            c = Encoding::eof();
+    }
+};
+template <typename Encoding>
+inline constexpr _buffer_empty_storage<Encoding> _buffer_empty{};
+
 // Create the appropriate buffer reader.
 template <typename Encoding>
 constexpr auto _buffer_reader(const typename Encoding::char_type* data)
@@ -265,7 +280,7 @@ public:
     auto reader() const& noexcept
     {
         if constexpr (_has_sentinel)
-            return _buffer_reader<encoding>(_data);
+            return _buffer_reader<encoding>(_data ? _data : _buffer_empty<encoding>.data);
         else
             return _range_reader<encoding>(_data, _data + _size);
     }
-- 
2.43.0


From 1c65152b0425a49ee4fea53e8743b796f6dbd424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:36 +0000
Subject: [PATCH 04/12] fix: report the correct mismatch position of a literal
 whose character type differs from the input's

match_literal computed the index of the first mismatching code unit in units of the literal's
character type instead of the reader's, so a char literal matched against a UTF-32 buffer reported
an index (and left an error token) past the actual common prefix.
---
 include/lexy/dsl/literal.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lexy/dsl/literal.hpp b/include/lexy/dsl/literal.hpp
index d57c189..11e6e6d 100644
--- a/include/lexy/dsl/literal.hpp
+++ b/include/lexy/dsl/literal.hpp
@@ -42,7 +42,8 @@ constexpr auto match_literal(Reader& reader)
         }
         else
         {
-            auto partial = swar_find_difference<CharT>(reader.peek_swar() & pack.mask, pack.value);
+            auto partial
+                = swar_find_difference<char_type>(reader.peek_swar() & pack.mask, pack.value);
             reader.bump_swar(partial);
             return false;
         }
-- 
2.43.0


From 2f1341ff22c8adda0b2500e3805544a89e3257f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:45 +0000
Subject: [PATCH 05/12] fix: literal sets with Unicode case folding match multi
 code unit characters and backtrack correctly

The trie matcher wrapped the reader in another case folding reader at every node, and resetting the
UTF-8/UTF-16 case folding reader did not refill its buffer.
---
 include/lexy/dsl/case_folding.hpp | 1 +
 include/lexy/dsl/literal.hpp      | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/lexy/dsl/case_folding.hpp b/include/lexy/dsl/case_folding.hpp
index c01f50b..c144366 100644
--- a/include/lexy/dsl/case_folding.hpp
+++ b/include/lexy/dsl/case_folding.hpp
@@ -261,6 +261,7 @@ struct _sucfrm // simple unicode case folding reader, UTF-8 and UTF-16
     constexpr void reset(marker m) noexcept
     {
         _impl.reset(m);
+        _fill();
     }
 };
 
diff --git a/include/lexy/dsl/literal.hpp b/include/lexy/dsl/literal.hpp
index 11e6e6d..ce0d591 100644
--- a/include/lexy/dsl/literal.hpp
+++ b/include/lexy/dsl/literal.hpp
@@ -256,7 +256,9 @@ struct lit_trie_matcher<Trie, CurNode>
             return false;
 
         reader.bump();
-        result = lit_trie_matcher<Trie, Trie.transition_to[TransIdx]>::try_match(reader);
+        // Note: we're already reading through the case folding.
+        using next = lit_trie_matcher<Trie, Trie.transition_to[TransIdx]>;
+        result     = next::template _impl<>::try_match(reader);
         return true;
     }
 
-- 
2.43.0


From 69ea7a74d56cf5db6d3ca0fc7bbf22097c5a33fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:43 +0000
Subject: [PATCH 06/12] fix: ascii::graph and ascii::print no longer match EOF
 in a UTF-32 buffer

The word-at-a-time match overflowed for the maximal code unit, which is the end-of-input sentinel of
UTF-32 buffers, so e.g. an identifier of ascii::print read past the end of the buffer.
---
 include/lexy/dsl/ascii.hpp | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/include/lexy/dsl/ascii.hpp b/include/lexy/dsl/ascii.hpp
index 5076328..e387ed3 100644
--- a/include/lexy/dsl/ascii.hpp
+++ b/include/lexy/dsl/ascii.hpp
@@ -383,13 +383,10 @@ struct _graph : char_class_base<_graph>
         if (((c + ascii_offset) & ascii_mask) != ascii_expected)
             return false;
 
-        // The above check also included 0xFF for single byte encodings where it overflowed,
-        // so do a separate check in those cases.
-        if constexpr (sizeof(char_type) == 1)
-        {
-            if ((c & ascii_mask) != ascii_expected)
-                return false;
-        }
+        // The above check also included the maximal code unit (e.g. EOF) where it overflowed,
+        // so do a separate check.
+        if ((c & ascii_mask) != ascii_expected)
+            return false;
 
         // Then we must not have a character in column 0, or space.
         // If we subtract one we turn 0x21-0x01 into column 0 and 0x00 to a value definitely not in
@@ -428,13 +425,10 @@ struct _print : char_class_base<_print>
         if (((c + ascii_offset) & ascii_mask) != ascii_expected)
             return false;
 
-        // The above check also included 0xFF for single byte encodings where it overflowed,
-        // so do a separate check in those cases.
-        if constexpr (sizeof(char_type) == 1)
-        {
-            if ((c & ascii_mask) != ascii_expected)
-                return false;
-        }
+        // The above check also included the maximal code unit (e.g. EOF) where it overflowed,
+        // so do a separate check.
+        if ((c & ascii_mask) != ascii_expected)
+            return false;
 
         // Then we must not have a character in column 0.
         constexpr auto mask = lexy::_detail::swar_fill_compl(char_type(0b11111));
-- 
2.43.0


From d1d67566f1664c15cd23be4f5546815538476f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:18 +0000
Subject: [PATCH 07/12] fix: reserve_suffix() also rejects identifiers where
 the suffix overlaps an earlier occurrence

After a match that did not end the identifier, the search continued behind that match, so an
identifier such as x_t_t was not recognized as ending in _t.
---
 include/lexy/dsl/identifier.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/lexy/dsl/identifier.hpp b/include/lexy/dsl/identifier.hpp
index 906e132..b48c454 100644
--- a/include/lexy/dsl/identifier.hpp
+++ b/include/lexy/dsl/identifier.hpp
@@ -125,8 +125,10 @@ struct _idsp // reserve suffix predicate
         auto reader = input.reader();
         while (true)
         {
-            if (lexy::try_match_token(Set{}, reader)
-                && reader.peek() == decltype(reader)::encoding::eof())
+            // We must not skip over a match in the middle, it can overlap with the suffix.
+            auto suffix = reader;
+            if (lexy::try_match_token(Set{}, suffix)
+                && suffix.peek() == decltype(reader)::encoding::eof())
                 return true;
             else if (reader.peek() == decltype(reader)::encoding::eof())
                 return false;
-- 
2.43.0


From d5d89f37951abb383ff6679f94d348ca28056b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:00 +0000
Subject: [PATCH 08/12] fix: digits.sep() stopped before a separator that
 follows a block of SWAR-matched digits

---
 include/lexy/dsl/digit.hpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/lexy/dsl/digit.hpp b/include/lexy/dsl/digit.hpp
index 7a21a9f..9388e72 100644
--- a/include/lexy/dsl/digit.hpp
+++ b/include/lexy/dsl/digit.hpp
@@ -325,6 +325,15 @@ constexpr bool _match_digits_sep(Reader& reader)
     // Might have following digits.
     while (true)
     {
+        // Attempt to consume as many digits as possible.
+        // This has to happen before we check for a separator: one can follow them.
+        if constexpr (lexy::_detail::is_swar_reader<Reader>)
+        {
+            using char_type = typename Reader::encoding::char_type;
+            while (Base::template swar_matches<char_type>(reader.peek_swar()))
+                reader.bump_swar();
+        }
+
         if (lexy::try_match_token(Sep{}, reader))
         {
             // Need a digit after a separator.
@@ -333,14 +342,6 @@ constexpr bool _match_digits_sep(Reader& reader)
         }
         else
         {
-            // Attempt to consume as many digits as possible.
-            if constexpr (lexy::_detail::is_swar_reader<Reader>)
-            {
-                using char_type = typename Reader::encoding::char_type;
-                while (Base::template swar_matches<char_type>(reader.peek_swar()))
-                    reader.bump_swar();
-            }
-
             if (!lexy::try_match_token(digit<Base>, reader))
                 // If we're not having a digit, we're done.
                 break;
-- 
2.43.0


From 9d5f75a2b93edc3b125041e01b2f07538b640a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:14 +0000
Subject: [PATCH 09/12] fix: integer reported overflow when only non-digits
 follow the maximal number of digits

---
 include/lexy/dsl/integer.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/lexy/dsl/integer.hpp b/include/lexy/dsl/integer.hpp
index efa34d1..ef36fc9 100644
--- a/include/lexy/dsl/integer.hpp
+++ b/include/lexy/dsl/integer.hpp
@@ -338,7 +338,12 @@ struct _bounded_integer_parser
 
         // If we've reached this point, we've parsed the maximal number of digits allowed.
         // Now we can only overflow if there are still digits left.
-        return {value, cur != end};
+        while (cur != end)
+        {
+            if (AssumeOnlyDigits || Base::digit_value(*cur++) < Base::digit_radix)
+                return {value, true};
+        }
+        return {value, false};
     }
 };
 template <typename T, typename Base, bool AssumeOnlyDigits>
-- 
2.43.0


From 5b07c00bb289d1b4d13e232b0fd63932be0d9071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:01 +0000
Subject: [PATCH 10/12] fix: restore the recursion depth when a recursive
 production fails

---
 include/lexy/dsl/production.hpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/lexy/dsl/production.hpp b/include/lexy/dsl/production.hpp
index 8e4b19f..19096d9 100644
--- a/include/lexy/dsl/production.hpp
+++ b/include/lexy/dsl/production.hpp
@@ -200,9 +200,16 @@ struct _recb : branch_base
         LEXY_PARSER_FUNC bool finish(Context& context, Reader& reader, Args&&... args)
         {
             using depth = _depth_handler<NextParser>;
+            auto control_block = context.control_block;
+            auto old_depth     = control_block->cur_depth;
             if (!depth::increment_depth(context, reader))
                 return false;
-            return _impl.template finish<depth>(context, reader, LEXY_FWD(args)...);
+            if (_impl.template finish<depth>(context, reader, LEXY_FWD(args)...))
+                return true;
+
+            // We might have failed inside the production; a parent can still recover.
+            control_block->cur_depth = old_depth;
+            return false;
         }
     };
 
@@ -213,11 +220,17 @@ struct _recb : branch_base
         LEXY_PARSER_FUNC static bool parse(Context& context, Reader& reader, Args&&... args)
         {
             using depth = _depth_handler<NextParser>;
+            auto control_block = context.control_block;
+            auto old_depth     = control_block->cur_depth;
             if (!depth::increment_depth(context, reader))
                 return false;
+            if (lexy::parser_for<_prd<Production>, depth>::parse(context, reader,
+                                                                 LEXY_FWD(args)...))
+                return true;
 
-            return lexy::parser_for<_prd<Production>, depth>::parse(context, reader,
-                                                                    LEXY_FWD(args)...);
+            // We might have failed inside the production; a parent can still recover.
+            control_block->cur_depth = old_depth;
+            return false;
         }
     };
 
-- 
2.43.0


From a4425640312f9ef963f56244fdf9a05a5b93cc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:43 +0000
Subject: [PATCH 11/12] fix: no_whitespace() restores whitespace skipping if
 its rule fails or is nested

---
 include/lexy/dsl/whitespace.hpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/include/lexy/dsl/whitespace.hpp b/include/lexy/dsl/whitespace.hpp
index 171df52..970cfea 100644
--- a/include/lexy/dsl/whitespace.hpp
+++ b/include/lexy/dsl/whitespace.hpp
@@ -273,9 +273,18 @@ struct _wsn : _copy_base<Rule>
         template <typename NextParser, typename Context, typename... Args>
         LEXY_PARSER_FUNC auto finish(Context& context, Reader& reader, Args&&... args)
         {
+            auto control_block = context.control_block;
+            if (!control_block->enable_whitespace_skipping)
+                // Already disabled by a parent, who needs to enable it again.
+                return rule.template finish<NextParser>(context, reader, LEXY_FWD(args)...);
+
             // Finish the rule with whitespace skipping disabled.
-            context.control_block->enable_whitespace_skipping = false;
-            return rule.template finish<_pc<NextParser>>(context, reader, LEXY_FWD(args)...);
+            control_block->enable_whitespace_skipping = false;
+            auto result
+                = rule.template finish<_pc<NextParser>>(context, reader, LEXY_FWD(args)...);
+            // If the rule failed, it hasn't been enabled again; a parent can still recover.
+            control_block->enable_whitespace_skipping = true;
+            return result;
         }
     };
 
@@ -295,10 +304,19 @@ struct _wsn : _copy_base<Rule>
             }
             else
             {
+                auto control_block = context.control_block;
+                if (!control_block->enable_whitespace_skipping)
+                    // Already disabled by a parent, who needs to enable it again.
+                    return lexy::parser_for<Rule, NextParser>::parse(context, reader,
+                                                                     LEXY_FWD(args)...);
+
                 // Parse the rule with whitespace skipping disabled.
-                context.control_block->enable_whitespace_skipping = false;
+                control_block->enable_whitespace_skipping = false;
                 using parser = lexy::parser_for<Rule, _pc<NextParser>>;
-                return parser::parse(context, reader, LEXY_FWD(args)...);
+                auto result  = parser::parse(context, reader, LEXY_FWD(args)...);
+                // If the rule failed, it hasn't been enabled again; a parent can still recover.
+                control_block->enable_whitespace_skipping = true;
+                return result;
             }
         }
     };
-- 
2.43.0


From 95ff4f68bc1c75610667633d20e1ef2919cde9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:21 +0000
Subject: [PATCH 12/12] fix: don't cancel a list item that was parsed after a
 missing separator

The item's branch was cancelled after finish() failed, which produced a second, empty
production for it in the events (and in the parse tree and trace).
---
 include/lexy/dsl/list.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/lexy/dsl/list.hpp b/include/lexy/dsl/list.hpp
index f2f6885..7ad0452 100644
--- a/include/lexy/dsl/list.hpp
+++ b/include/lexy/dsl/list.hpp
@@ -223,8 +223,14 @@ struct _lstt : rule_base
                         if constexpr (lexy::is_branch_rule<Item>)
                         {
                             lexy::branch_parser_for<Item, Reader> item{};
-                            if (item.try_parse(context.control_block, reader)
-                                && item.template finish<lexy::sink_parser>(context, reader, sink))
+                            if (!item.try_parse(context.control_block, reader))
+                            {
+                                // Not an item, recover.
+                                item.cancel(context);
+                                state = _state::recovery;
+                                break;
+                            }
+                            else if (item.template finish<lexy::sink_parser>(context, reader, sink))
                             {
                                 // Continue after an item has been parsed.
                                 state = _state::terminator;
@@ -232,8 +238,7 @@ struct _lstt : rule_base
                             }
                             else
                             {
-                                // Not an item, recover.
-                                item.cancel(context);
+                                // An invalid item, recover.
                                 state = _state::recovery;
                                 break;
                             }
-- 
2.43.0

