From 96dbefd12acbe891303ca6754d0a6a9bf21ea17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:21 +0000
Subject: [PATCH 01/41] fix: advance by whole characters, not single bytes,
 when scanning text

Plain, quoted and block scalars, and comments, advanced one byte at a
time through str::split_at, panicking on any multi-byte character.
---
 src/scanner/mod.rs          |  2 +-
 src/scanner/scalar/block.rs | 10 ++++++----
 src/scanner/scalar/flow.rs  |  8 +++++---
 src/scanner/scalar/plain.rs | 10 ++++++----
 4 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index f53d791..24083b1 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -1000,7 +1000,7 @@ fn eat_whitespace(opts: Flags, base: &str, stats: &mut MStats, comments: bool) -
         }
         else
         {
-            advance!(buffer, :stats, 1);
+            advance!(buffer, :stats, widthOf!(~buffer));
         }
     }
 
diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index f79c955..818b039 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -256,11 +256,13 @@ pub(in crate::scanner) fn scan_block_scalar_eager<'de>(
         {
             cache!(~buffer, 1, opts)?;
 
+            let width = widthOf!(~buffer);
+
             if !can_borrow
             {
-                scratch.push(buffer.as_bytes()[0])
+                scratch.extend_from_slice(buffer[..width].as_bytes())
             }
-            advance!(buffer, :local_stats, 1);
+            advance!(buffer, :local_stats, width);
         }
 
         // Mark content end
@@ -363,7 +365,7 @@ pub(in crate::scanner) fn scan_block_scalar_lazy<'de>(
         while !isBreakZ!(~buffer)
         {
             cache!(~buffer, 1, opts)?;
-            advance!(buffer, :local_stats, 1);
+            advance!(buffer, :local_stats, widthOf!(~buffer));
         }
 
         // Eat the line break (if not EOF)
@@ -670,7 +672,7 @@ fn skip_blanks(opts: Flags, buffer: &mut &str, stats: &mut MStats, comments: boo
         while !isBreakZ!(~buffer)
         {
             cache!(~buffer, 1, opts)?;
-            advance!(*buffer, :stats, 1);
+            advance!(*buffer, :stats, widthOf!(~buffer));
         }
     }
 
diff --git a/src/scanner/scalar/flow.rs b/src/scanner/scalar/flow.rs
index b8aa1a0..0d94cb1 100644
--- a/src/scanner/scalar/flow.rs
+++ b/src/scanner/scalar/flow.rs
@@ -129,12 +129,14 @@ pub(in crate::scanner) fn scan_flow_scalar_eager<'de>(
             // Its a non blank character, add it
             else
             {
+                // Safety: !isBlankZ guarantees the slice is not empty
+                let width = widthOf!(~buffer);
+
                 if !can_borrow
                 {
-                    // Safety: !isBlankZ guarantees the slice is not empty
-                    scratch.push(buffer.as_bytes()[0])
+                    scratch.extend_from_slice(buffer[..width].as_bytes())
                 }
-                advance!(buffer, :stats, 1);
+                advance!(buffer, :stats, width);
             }
         }
 
diff --git a/src/scanner/scalar/plain.rs b/src/scanner/scalar/plain.rs
index 3ac6a93..01c6ee5 100644
--- a/src/scanner/scalar/plain.rs
+++ b/src/scanner/scalar/plain.rs
@@ -147,11 +147,13 @@ pub(in crate::scanner) fn scan_plain_scalar_eager<'de>(
                 break;
             }
 
+            let width = widthOf!(~buffer);
+
             if !can_borrow
             {
-                scratch.push(buffer.as_bytes()[0])
+                scratch.extend_from_slice(buffer[..width].as_bytes())
             }
-            advance!(buffer, :local_stats, 1);
+            advance!(buffer, :local_stats, width);
         }
         // Save last non whitespace character position
         scalar_stats = local_stats.clone();
@@ -327,7 +329,7 @@ pub(in crate::scanner) fn scan_plain_scalar_lazy<'de>(
             {
                 let skip = match isWhiteSpace!(~buffer, 1)
                 {
-                    true => 2,
+                    true => 1 + widthOf!(~buffer, 1),
                     false => 1,
                 };
 
@@ -337,7 +339,7 @@ pub(in crate::scanner) fn scan_plain_scalar_lazy<'de>(
                 break 'scalar;
             }
 
-            advance!(buffer, :local_stats, 1);
+            advance!(buffer, :local_stats, widthOf!(~buffer));
         }
         // Save last non whitespace character position
         scalar_stats = local_stats.clone();
-- 
2.43.0


From 92d46aa3a0ab1e7799391ecbcceffe4b01be26b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:21 +0000
Subject: [PATCH 02/41] fix: skip escaped backslashes when lazily scanning
 double quotes

'"a\\\\"' ended at the wrong quote under O_LAZY, as the second backslash
was taken to escape the closing quote.
---
 src/scanner/scalar/flow.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/scanner/scalar/flow.rs b/src/scanner/scalar/flow.rs
index 0d94cb1..bfbd929 100644
--- a/src/scanner/scalar/flow.rs
+++ b/src/scanner/scalar/flow.rs
@@ -281,7 +281,7 @@ pub(in crate::scanner) fn scan_flow_scalar_lazy<'de>(
 
     loop
     {
-        // Longest sequence we can hit is 2 characters ('' or \")
+        // Longest sequence we can hit is 2 characters ('', \" or \\)
         cache!(~buffer, 2, opts)?;
 
         if buffer.is_empty()
@@ -289,10 +289,11 @@ pub(in crate::scanner) fn scan_flow_scalar_lazy<'de>(
             return Err(ScanError::UnexpectedEOF);
         }
 
-        // Check for either of the quote escapes, skipping them if
-        // found
+        // Check for either of the quote escapes (or an escaped
+        // backslash), skipping them if found
         if (kind == SingleQuote && check!(~buffer => [SINGLE, SINGLE, ..]))
-            || (kind == DoubleQuote && check!(~buffer => [BACKSLASH, DOUBLE, ..]))
+            || (kind == DoubleQuote
+                && check!(~buffer => [BACKSLASH, DOUBLE, ..] | [BACKSLASH, BACKSLASH, ..]))
         {
             advance!(buffer, :stats, 2);
         }
-- 
2.43.0


From 77c959b8832f95ee87dc8db8528e5f4196521995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:17 +0000
Subject: [PATCH 03/41] fix: reject unicode escapes which do not name a
 character

Surrogates and values past U+10FFFF were encoded as invalid UTF8,
panicking once the scalar was assembled.
---
 src/scanner/scalar/escape.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/scanner/scalar/escape.rs b/src/scanner/scalar/escape.rs
index f816a68..66add1c 100644
--- a/src/scanner/scalar/escape.rs
+++ b/src/scanner/scalar/escape.rs
@@ -176,6 +176,13 @@ fn write_unicode_point(base: &str, scratch: &mut Vec<u8>, codepoint_len: u8) ->
         advance!(buffer, 1, i);
     }
 
+    // Surrogates and anything past U+10FFFF are not characters,
+    // and have no UTF8 representation
+    if std::char::from_u32(value).is_none()
+    {
+        return Err(ScanError::UnknownEscape);
+    }
+
     // Bit shift the value into the correct byte configuration
     // for UTF8
     match value
-- 
2.43.0


From 551c34786192fb46501697b3e576f9a72ea986bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:18 +0000
Subject: [PATCH 04/41] fix: reject tag escapes which do not form valid UTF8

Percent escapes such as '%c0%80' passed the shape check but panicked
when the tag was assembled.
---
 src/scanner/tag.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/scanner/tag.rs b/src/scanner/tag.rs
index 7b35d10..d924128 100644
--- a/src/scanner/tag.rs
+++ b/src/scanner/tag.rs
@@ -329,7 +329,10 @@ pub(in crate::scanner) fn scan_tag_uri<'de>(
     }
     else
     {
-        let utf8 = String::from_utf8(scratch).unwrap();
+        // Escaped octets are only checked to have the shape of a
+        // codepoint, they may still not be one (overlong,
+        // surrogates, etc)
+        let utf8 = String::from_utf8(scratch).map_err(|_| ScanError::UnknownEscape)?;
 
         Ok((cow!(utf8), advance))
     }
-- 
2.43.0


From 061daf657513f471baf3a2ea309e860fe0f1e641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:46 +0000
Subject: [PATCH 05/41] fix: accept verbatim tags

The closing '>' of '!<...>' was looked for one byte too far into the
stream, and the tag's (absent) handle was then held against the active
%TAG directives, so no verbatim tag was ever accepted.
---
 src/event/parser/mod.rs | 6 ++++++
 src/scanner/tag.rs      | 7 ++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/event/parser/mod.rs b/src/event/parser/mod.rs
index e48b664..0fa60b3 100644
--- a/src/event/parser/mod.rs
+++ b/src/event/parser/mod.rs
@@ -1270,6 +1270,12 @@ fn validate_tag(tags: &TagDirectives, tag: &mut Option<(Slice, Slice)>, scalar:
         // checks
         let resolvable = !(handle == "!" && suffix.is_empty());
 
+        // Verbatim tags have no handle to resolve
+        if handle.is_empty()
+        {
+            return Ok(());
+        }
+
         match (scalar, resolvable)
         {
             // Verify tag handle exists in the directives if we're either:
diff --git a/src/scanner/tag.rs b/src/scanner/tag.rs
index d924128..7cd9cbc 100644
--- a/src/scanner/tag.rs
+++ b/src/scanner/tag.rs
@@ -180,7 +180,7 @@ pub(in crate::scanner) fn scan_node_tag<'de>(
     // If its a verbatim tag scan it
     let (token, amt) = if check!(~buffer => [b'!', b'<', ..])
     {
-        advance!(buffer, 2);
+        advance!(buffer, :stats, 2);
 
         // !<global:verbatim:tag:> "node"
         //   ^^^^^^^^^^^^^^^^^^^^
@@ -188,8 +188,9 @@ pub(in crate::scanner) fn scan_node_tag<'de>(
 
         // !<global:verbatim:tag:> "node"
         //                       ^
-        cache!(~buffer, @amt + 1, 1, opts)?;
-        check!(~buffer, amt + 1 => b'>', else ScanError::InvalidTagSuffix)?;
+        cache!(~buffer, @amt, 1, opts)?;
+        check!(~buffer, amt => b'>', else ScanError::InvalidTagSuffix)?;
+        stats.update(1, 0, 1);
 
         let token = assemble_tag(&buffer[0..0], verbatim, can_borrow);
 
-- 
2.43.0


From 6b637ed7f5fddababf4a9339c6f7ca43c59637e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:11 +0000
Subject: [PATCH 06/41] fix: allow ',', '[' and ']' in %TAG prefixes

Prefixes are made of URI characters, which include them; the canonical
'%TAG ! tag:example.com,2000:app/' was rejected.
---
 src/scanner/tag.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scanner/tag.rs b/src/scanner/tag.rs
index 7cd9cbc..b95ae8f 100644
--- a/src/scanner/tag.rs
+++ b/src/scanner/tag.rs
@@ -115,7 +115,7 @@ pub(in crate::scanner) fn scan_tag_directive<'de>(
 
     // %TAG !named! :tag:prefix # a comment\n
     //              ^^^^^^^^^^^
-    let (prefix, amt) = scan_tag_uri(opts, buffer, stats, &mut can_borrow, false)?;
+    let (prefix, amt) = scan_tag_uri(opts, buffer, stats, &mut can_borrow, true)?;
 
     // %TAG !named! tag-prefix # a comment\n
     //                        ^
@@ -293,7 +293,7 @@ pub(in crate::scanner) fn scan_tag_uri<'de>(
                 }
                 advance!(buffer, :stats, 1);
             },
-            // Further characters are allowed in verbatim tags
+            // Further characters are allowed in verbatim tags and tag prefixes
             [b',', ..] | [b'[', ..] | [b']', ..] if verbatim =>
             {
                 if !*can_borrow
-- 
2.43.0


From eb490099a14c7f3a3929a5a2f6f0d0b202864433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:41 +0000
Subject: [PATCH 07/41] fix: allow a tag to end the stream

'- !!str' at the very end of the stream is an empty, tagged node, but
was reported as an unexpected EOF.
---
 src/scanner/tag.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/scanner/tag.rs b/src/scanner/tag.rs
index b95ae8f..b3d5c9c 100644
--- a/src/scanner/tag.rs
+++ b/src/scanner/tag.rs
@@ -315,9 +315,7 @@ pub(in crate::scanner) fn scan_tag_uri<'de>(
                 let amt = tag_uri_unescape(opts, buffer, &mut scratch, true)?;
                 advance!(buffer, :stats, amt);
             },
-            // EOF before loop end is an error
-            [] => return Err(ScanError::UnexpectedEOF),
-            // Otherwise we've finished the tag, exit the loop
+            // Otherwise (including EOF) we've finished the tag, exit the loop
             _ => break,
         }
     }
@@ -382,7 +380,7 @@ pub(in crate::scanner) fn scan_tag_handle<'b>(
             Ok(Some(handle))
         },
         // Else check to see if this could be a primary handle (or non-resolving tag)
-        _ if name.is_empty() && isWhiteSpace!(~buffer, offset) =>
+        _ if name.is_empty() && isWhiteSpaceZ!(~buffer, offset) =>
         {
             let handle = (TagHandle::Primary(&buffer[..1]), 1);
             stats.update(1, 0, 1);
@@ -392,8 +390,7 @@ pub(in crate::scanner) fn scan_tag_handle<'b>(
         // Ambiguous sequence, we cannot determine if this is an error, or a local tag + suffix e.g
         // key: !suffix "value"
         //      ^^^^^^^
-        Some(_) => Ok(None),
-        None => Err(ScanError::UnexpectedEOF),
+        _ => Ok(None),
     }
 }
 
-- 
2.43.0


From 29c27e194c8337c4922db31dffa2c97e00bea5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:10 +0000
Subject: [PATCH 08/41] fix: allow anchors and aliases to end a line or the
 stream

Only a space or line feed was accepted after a name, rejecting tabs,
other line breaks and the end of the stream.
---
 src/scanner/anchor.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/scanner/anchor.rs b/src/scanner/anchor.rs
index 8d63c09..5e6594c 100644
--- a/src/scanner/anchor.rs
+++ b/src/scanner/anchor.rs
@@ -42,10 +42,13 @@ pub(in crate::scanner) fn scan_anchor<'de>(
     // also check against a list of valid starting
     // tokens
     cache!(~buffer, 1, opts)?;
-    check!(~buffer
-        => b' ' | b'\n' | b'?' | b',' | b']' | b'}' | b'%' | b'@' | b'`',
-        else ScanError::InvalidAnchorName
-    )?;
+    if !isWhiteSpaceZ!(~buffer)
+    {
+        check!(~buffer
+            => b'?' | b',' | b']' | b'}' | b'%' | b'@' | b'`',
+            else ScanError::InvalidAnchorName
+        )?;
+    }
 
     let token = match kind
     {
-- 
2.43.0


From 41dce17fa7477aa194f148c11e0195f165c97188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:34 +0000
Subject: [PATCH 09/41] fix: scan block scalars which have no content

Content start and end marks were left out of order, panicking on any
empty block scalar, and lines kept by '+' were lost.
---
 src/scanner/scalar/block.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index 818b039..d2b007e 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -161,11 +161,23 @@ pub(in crate::scanner) fn scan_block_scalar_eager<'de>(
         },
     }
 
+    // Any preceding lines are content, but separated from the
+    // rest by indentation
+    if lines > 0
+    {
+        can_borrow = false
+    }
+
     // Add any preceding lines to the tracked borrow or scratch
     // space
     match can_borrow
     {
-        true => content_start = local_stats.read - stats.read,
+        // Note that the scalar may be empty, so we must also set the end here
+        true =>
+        {
+            content_start = local_stats.read - stats.read;
+            content_end = content_start;
+        },
         false =>
         {
             for _ in 0..lines
-- 
2.43.0


From af81f896312aee94c62745e01752b87b77f6862b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:04 +0000
Subject: [PATCH 10/41] fix: skip the indentation of explicitly indented block
 scalars

With an indentation indicator the first line's indentation was never
consumed, so the scalar panicked or was taken to be empty.
---
 src/scanner/scalar/block.rs | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index d2b007e..0445505 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -147,7 +147,20 @@ pub(in crate::scanner) fn scan_block_scalar_eager<'de>(
     // from the indentation level
     match explicit.map(NonZeroU8::get)
     {
-        Some(explicit) => indent = base_indent + explicit as usize,
+        Some(explicit) =>
+        {
+            indent = base_indent + explicit as usize;
+
+            // Chomp indentation up to the first content line
+            scan_indent(
+                opts,
+                &mut buffer,
+                &mut local_stats,
+                &mut lines,
+                &mut can_borrow,
+                indent,
+            )?;
+        },
         None =>
         {
             indent = detect_indent_level(
@@ -352,7 +365,20 @@ pub(in crate::scanner) fn scan_block_scalar_lazy<'de>(
     // from the indentation level
     match explicit.map(NonZeroU8::get)
     {
-        Some(explicit) => indent = base_indent + explicit as usize,
+        Some(explicit) =>
+        {
+            indent = base_indent + explicit as usize;
+
+            // Chomp indentation up to the first content line
+            scan_indent(
+                opts,
+                &mut buffer,
+                &mut local_stats,
+                &mut 0,
+                &mut false,
+                indent,
+            )?;
+        },
         None =>
         {
             indent = detect_indent_level(
-- 
2.43.0


From f6e32f9033996ed192587cd9752a163b5eb8e2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:43 +0000
Subject: [PATCH 11/41] fix: take block scalar headers only from the header
 line

The second header position was checked no matter what the first held,
so an empty block scalar followed by a line starting with '-', '+' or
a digit was rejected.
---
 src/scanner/scalar/block.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index 0445505..3710a13 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -453,7 +453,7 @@ fn scan_headers(
     // than erroring
     match buffer.as_bytes()
     {
-        [i @ b'0'..=b'9', ..] | [_, i @ b'0'..=b'9', ..] =>
+        [i @ b'0'..=b'9', ..] | [b'+', i @ b'0'..=b'9', ..] | [b'-', i @ b'0'..=b'9', ..] =>
         {
             indent = atoi::<u8>(&[*i]).and_then(NonZeroU8::new);
             skip += 1;
@@ -465,12 +465,12 @@ fn scan_headers(
     // Set the chomping behavior of the scalar, if required
     match buffer.as_bytes()
     {
-        [c, ..] | [_, c, ..] if matches!(*c, b'+') =>
+        [b'+', ..] | [b'0'..=b'9', b'+', ..] =>
         {
             chomp = ChompStyle::Keep;
             skip += 1;
         },
-        [c, ..] | [_, c, ..] if matches!(*c, b'-') =>
+        [b'-', ..] | [b'0'..=b'9', b'-', ..] =>
         {
             chomp = ChompStyle::Strip;
             skip += 1;
-- 
2.43.0


From 3bd4e77d57faf91789ab29aa4deccc6d810ff921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:59 +0000
Subject: [PATCH 12/41] fix: keep the right line break at the end of a one line
 block scalar

---
 src/scanner/scalar/block.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index 3710a13..08c6cc1 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -548,8 +548,20 @@ fn scan_chomp<'de>(
 
     if *can_borrow
     {
+        // Only a line feed may be borrowed, any other line break
+        // must be normalized to one
+        let line_feed = check!(~base[end..] => b'\n');
+
         match style
         {
+            // Clip the scalar to 0 or 1 line break, but it isn't one we can borrow
+            ChompStyle::Clip if lines > 0 && !line_feed =>
+            {
+                scratch.extend_from_slice(base[start..end].as_bytes());
+                end = scratch.len();
+
+                *can_borrow = false;
+            },
             // Clip the scalar to 0 or 1 line break
             ChompStyle::Clip =>
             {
@@ -557,7 +569,7 @@ fn scan_chomp<'de>(
                 // include the first
                 if lines > 0
                 {
-                    end += widthOf!(~base[end..], 1);
+                    end += 1;
                 }
 
                 scalar = cow!(&base[start..end])
@@ -570,7 +582,8 @@ fn scan_chomp<'de>(
             // didn't skip any spaces (only line breaks).
             ChompStyle::Keep => match lines
             {
-                n @ 0 | n @ 1 => scalar = cow!(&base[start..end + n]),
+                0 => scalar = cow!(&base[start..end]),
+                1 if line_feed => scalar = cow!(&base[start..end + 1]),
                 // The only way to hit this branch is if the scalar could still be borrowed, and
                 // thus is a single line. In this case we have to copy the borrow to the scratch
                 // space, and append any trailing lines the previous scan_indent produced.
-- 
2.43.0


From 3c7386759a9a767393f99036aff69690568892bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:07 +0000
Subject: [PATCH 13/41] fix: treat lines of only indentation as empty in block
 scalars

---
 src/scanner/scalar/block.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index 08c6cc1..a0e3a80 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -501,10 +501,22 @@ fn scan_indent(
 
     cache!(~buffer, 1, opts)?;
 
-    while stats.column < indent && isWhiteSpace!(~buffer)
+    while stats.column <= indent && isWhiteSpace!(~buffer)
     {
+        // Line break, chomp; increment lines. Note that a line of
+        // only indentation is empty
+        if isBreak!(~buffer)
+        {
+            *lines += 1;
+            advance!(*buffer, :stats, @line);
+        }
+        // Line is fully indented, what follows is content
+        else if stats.column == indent
+        {
+            break;
+        }
         // Indentation space, chomp
-        if check!(~buffer => b' ')
+        else if check!(~buffer => b' ')
         {
             advance!(*buffer, :stats, 1);
         }
@@ -513,12 +525,6 @@ fn scan_indent(
         {
             return Err(ScanError::InvalidTab);
         }
-        // Line break, chomp; increment lines
-        else if isBreak!(~buffer)
-        {
-            *lines += 1;
-            advance!(*buffer, :stats, @line);
-        }
 
         cache!(~buffer, 1, opts)?;
     }
-- 
2.43.0


From 2cbafe14d2e48e6935a785f6e56de60a4420ba23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:31 +0000
Subject: [PATCH 14/41] fix: do not fold more indented lines of folded block
 scalars

---
 src/scanner/scalar/block.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index a0e3a80..bd41d44 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -114,6 +114,10 @@ pub(in crate::scanner) fn scan_block_scalar_eager<'de>(
     // reconciled
     let mut lines: usize = 0;
 
+    // Whether the previous line started with whitespace, such
+    // lines are never folded
+    let mut spaced = false;
+
     // The indentation level of this scalar
     let indent: usize;
 
@@ -224,8 +228,12 @@ pub(in crate::scanner) fn scan_block_scalar_eager<'de>(
             can_borrow = false
         }
 
+        // More indented lines keep the line breaks around them
+        cache!(~buffer, 1, opts)?;
+        let prev_spaced = std::mem::replace(&mut spaced, isBlank!(~buffer));
+
         // If its a folding ('>') block scalar
-        if fold
+        if fold && !prev_spaced && !spaced
         {
             // Handle line joins as needed
             match lines
-- 
2.43.0


From 0e9351a29e4ceca9d1df46c68bf4fdda4b0f4bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:18 +0000
Subject: [PATCH 15/41] fix: do not ask for more data when evaluating lazy
 block scalars

---
 src/scanner/scalar/block.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index bd41d44..3fbeb22 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -45,7 +45,7 @@ use crate::{
         context::Context,
         entry::MaybeToken,
         error::{ScanError, ScanResult as Result},
-        flag::{Flags, O_LAZY},
+        flag::{Flags, O_EXTENDABLE, O_LAZY},
         scalar::as_maybe,
         stats::MStats,
     },
@@ -435,7 +435,15 @@ pub(in crate::scanner) fn scan_block_scalar_lazy<'de>(
     let advance = base.len() - buffer.len();
     let slice = &base[..advance];
 
-    let lazy = Deferred::new(opts, slice, stats.clone(), base_indent, fold);
+    // Note we remove O_EXTENDABLE as we've already located the
+    // entire scalar
+    let lazy = Deferred::new(
+        opts & !O_EXTENDABLE,
+        slice,
+        stats.clone(),
+        base_indent,
+        fold,
+    );
 
     *stats = local_stats;
 
-- 
2.43.0


From 8a517f220b21042f7a479a8a32490c46b4543556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:55 +0000
Subject: [PATCH 16/41] fix: allow characters to straddle the chunks read from
 an io::Read

---
 src/reader/owned.rs | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/reader/owned.rs b/src/reader/owned.rs
index 5a3108d..f68bdc3 100644
--- a/src/reader/owned.rs
+++ b/src/reader/owned.rs
@@ -163,6 +163,9 @@ struct Impl
 
     source:    Box<dyn io::Read + 'static>,
     exhausted: bool,
+
+    // Bytes taken from .source, which aren't yet part of .head
+    pending: Vec<u8>,
 }
 
 impl Impl
@@ -179,6 +182,8 @@ impl Impl
 
             source,
             exhausted: false,
+
+            pending: Vec::new(),
         }
     }
 
@@ -192,20 +197,35 @@ impl Impl
         // Calculate next allocation chunk
         let cap = (DEFAULT_BUFFER_SIZE * usize::max(self.tail.len(), 1) + copy_from.unwrap_or(0))
             .next_power_of_two();
-        let mut new = Vec::new();
+
+        // Fetch the next chunk, checking if .src has been exhausted
+        self.exhausted = read_fill(Take::new(&mut self.source, cap), &mut self.pending)?;
+
+        // Validate chunk is UTF8, holding back a character which is
+        // only partially read until the rest of it arrives
+        let chunk = match std::str::from_utf8(&self.pending)
+        {
+            Ok(chunk) => chunk,
+            Err(e) if e.error_len().is_none() && !self.exhausted =>
+            {
+                std::str::from_utf8(&self.pending[..e.valid_up_to()])?
+            },
+            Err(e) => return Err(e.into()),
+        };
 
         // Copy any data that is marked as unread into the next
-        // buffer
+        // buffer, followed by the new chunk
+        let mut new = String::new();
+
         if let Some(mark) = copy_from
         {
-            new.extend_from_slice(&self.head.as_bytes()[mark..]);
+            new.push_str(&self.head[mark..]);
         }
 
-        // Fill the new buffer, checking if .src has been exhausted
-        self.exhausted = read_fill(Take::new(&mut self.source, cap), &mut new)?;
+        new.push_str(chunk);
 
-        // Validate buffer is UTF8
-        let new = String::from_utf8(new).map_err(|e| e.utf8_error())?;
+        let consumed = chunk.len();
+        self.pending.drain(..consumed);
 
         // Swap the new and old heads, pushing the old head into the
         // held tails
-- 
2.43.0


From 5d7e6484d4253b901d3a5f82bdeee27a34093d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:07 +0000
Subject: [PATCH 17/41] fix: allow CRLF breaks to straddle the chunks read from
 an io::Read

---
 src/reader/owned.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/reader/owned.rs b/src/reader/owned.rs
index f68bdc3..487cd5a 100644
--- a/src/reader/owned.rs
+++ b/src/reader/owned.rs
@@ -213,6 +213,14 @@ impl Impl
             Err(e) => return Err(e.into()),
         };
 
+        // A carriage return might be the first half of a CRLF break,
+        // which must not be split
+        let chunk = match chunk.strip_suffix('\r')
+        {
+            Some(rest) if !self.exhausted => rest,
+            _ => chunk,
+        };
+
         // Copy any data that is marked as unread into the next
         // buffer, followed by the new chunk
         let mut new = String::new();
-- 
2.43.0


From d61a2f810f51d7eacc037220b2053be44aa84baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:15 +0000
Subject: [PATCH 18/41] fix: error if an io::Read calls back into the reader it
 is the source of

---
 src/reader/owned.rs | 110 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 83 insertions(+), 27 deletions(-)

diff --git a/src/reader/owned.rs b/src/reader/owned.rs
index 487cd5a..79c12fd 100644
--- a/src/reader/owned.rs
+++ b/src/reader/owned.rs
@@ -7,7 +7,11 @@
 //! Contains an implementation of [`Read`](super::Read) for
 //! [`std::io::Read`] objects.
 
-use std::{cell::UnsafeCell, fmt, io};
+use std::{
+    cell::{RefCell, UnsafeCell},
+    fmt,
+    io,
+};
 
 use super::{
     error::{ReadError, ReaderResult},
@@ -104,7 +108,8 @@ impl Sealed for OwnedReader {}
 #[derive(Debug)]
 struct ReadHolder
 {
-    inner: UnsafeCell<Impl>,
+    inner:  UnsafeCell<Impl>,
+    source: RefCell<Source>,
 }
 
 impl ReadHolder
@@ -113,16 +118,33 @@ impl ReadHolder
     where
         T: io::Read + 'static,
     {
-        let inner = Impl::new(src).into();
+        let inner = Impl::new().into();
+        let source = Source::new(src).into();
 
-        Self { inner }
+        Self { inner, source }
     }
 
     pub fn read_next_chunk(&self, read_to: Option<usize>) -> ReaderResult<()>
     {
+        // .source is foreign code, which could call back into this
+        // reader. It must be held separately from Impl, as there
+        // would be two live mutable references to Impl otherwise
+        let mut source = self.source.try_borrow_mut().map_err(|_| {
+            io::Error::new(
+                io::ErrorKind::Other,
+                "reader was used by its own io::Read source",
+            )
+        })?;
+
+        let cap = unsafe { &*self.inner.get() }.next_capacity(read_to);
+        let exhausted = source.fetch(cap)?;
+
+        // SAFETY:
+        //
+        // No foreign code is run while this reference is live
         let inner: &mut Impl = unsafe { &mut *self.inner.get() };
 
-        inner.refresh_buffer(read_to)
+        inner.refresh_buffer(read_to, &mut source.pending, exhausted)
     }
 
     pub fn data(&self) -> &str
@@ -161,29 +183,18 @@ struct Impl
     head: String,
     tail: Vec<String>,
 
-    source:    Box<dyn io::Read + 'static>,
     exhausted: bool,
-
-    // Bytes taken from .source, which aren't yet part of .head
-    pending: Vec<u8>,
 }
 
 impl Impl
 {
-    pub fn new<T>(src: T) -> Self
-    where
-        T: io::Read + 'static,
+    pub fn new() -> Self
     {
-        let source = Box::new(src);
-
         Self {
             head: String::new(),
             tail: Vec::new(),
 
-            source,
             exhausted: false,
-
-            pending: Vec::new(),
         }
     }
 
@@ -192,23 +203,30 @@ impl Impl
         &self.head
     }
 
-    fn refresh_buffer(&mut self, copy_from: Option<usize>) -> ReaderResult<()>
+    /// Calculate next allocation chunk
+    fn next_capacity(&self, copy_from: Option<usize>) -> usize
     {
-        // Calculate next allocation chunk
-        let cap = (DEFAULT_BUFFER_SIZE * usize::max(self.tail.len(), 1) + copy_from.unwrap_or(0))
-            .next_power_of_two();
+        (DEFAULT_BUFFER_SIZE * usize::max(self.tail.len(), 1) + copy_from.unwrap_or(0))
+            .next_power_of_two()
+    }
 
-        // Fetch the next chunk, checking if .src has been exhausted
-        self.exhausted = read_fill(Take::new(&mut self.source, cap), &mut self.pending)?;
+    fn refresh_buffer(
+        &mut self,
+        copy_from: Option<usize>,
+        pending: &mut Vec<u8>,
+        exhausted: bool,
+    ) -> ReaderResult<()>
+    {
+        self.exhausted = exhausted;
 
         // Validate chunk is UTF8, holding back a character which is
         // only partially read until the rest of it arrives
-        let chunk = match std::str::from_utf8(&self.pending)
+        let chunk = match std::str::from_utf8(pending)
         {
             Ok(chunk) => chunk,
             Err(e) if e.error_len().is_none() && !self.exhausted =>
             {
-                std::str::from_utf8(&self.pending[..e.valid_up_to()])?
+                std::str::from_utf8(&pending[..e.valid_up_to()])?
             },
             Err(e) => return Err(e.into()),
         };
@@ -233,7 +251,7 @@ impl Impl
         new.push_str(chunk);
 
         let consumed = chunk.len();
-        self.pending.drain(..consumed);
+        pending.drain(..consumed);
 
         // Swap the new and old heads, pushing the old head into the
         // held tails
@@ -251,12 +269,50 @@ impl fmt::Debug for Impl
         f.debug_struct("Impl")
             .field("head", &self.head)
             .field("tail", &self.tail)
-            .field("source", &"dyn <std::io::Read>")
             .field("exhausted", &self.exhausted)
             .finish()
     }
 }
 
+struct Source
+{
+    inner: Box<dyn io::Read + 'static>,
+
+    // Bytes taken from .inner, which haven't been passed on
+    pending: Vec<u8>,
+}
+
+impl Source
+{
+    fn new<T>(src: T) -> Self
+    where
+        T: io::Read + 'static,
+    {
+        Self {
+            inner:   Box::new(src),
+            pending: Vec::new(),
+        }
+    }
+
+    /// Fetch the next chunk, returning if the source has been
+    /// exhausted
+    fn fetch(&mut self, cap: usize) -> io::Result<bool>
+    {
+        read_fill(Take::new(&mut self.inner, cap), &mut self.pending)
+    }
+}
+
+impl fmt::Debug for Source
+{
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result
+    {
+        f.debug_struct("Source")
+            .field("inner", &"dyn <std::io::Read>")
+            .field("pending", &self.pending)
+            .finish()
+    }
+}
+
 fn read_fill<T>(mut src: T, buf: &mut Vec<u8>) -> io::Result<bool>
 where
     T: io::Read,
-- 
2.43.0


From ac3395beff4cb28341f61743405be7902dd99599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:37 +0000
Subject: [PATCH 19/41] fix: error when an owned reader is given to a second
 event stream

---
 src/reader/owned.rs | 18 ++++++++++++++++--
 src/scanner/mod.rs  |  6 ++++++
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/reader/owned.rs b/src/reader/owned.rs
index 79c12fd..466f154 100644
--- a/src/reader/owned.rs
+++ b/src/reader/owned.rs
@@ -8,7 +8,7 @@
 //! [`std::io::Read`] objects.
 
 use std::{
-    cell::{RefCell, UnsafeCell},
+    cell::{Cell, RefCell, UnsafeCell},
     fmt,
     io,
 };
@@ -36,6 +36,7 @@ const DEFAULT_BUFFER_SIZE: usize = 8 * 1024;
 pub struct OwnedReader
 {
     inner: ReadHolder,
+    bound: Cell<bool>,
 }
 
 impl OwnedReader
@@ -47,8 +48,9 @@ impl OwnedReader
         T: io::Read + 'static,
     {
         let inner = ReadHolder::new(src);
+        let bound = Cell::new(false);
 
-        Self { inner }
+        Self { inner, bound }
     }
 
     pub(crate) fn new_reader(&self, opts: Flags) -> Reader<'_, Self>
@@ -63,6 +65,18 @@ impl OwnedReader
         mut opts: Flags,
     ) -> ReaderResult<()>
     {
+        // This reader can be passed over once, so it may not be
+        // driven from the start again
+        if scanner.is_start() && self.bound.replace(true)
+        {
+            let err = io::Error::new(
+                io::ErrorKind::Other,
+                "reader is bound to another event stream",
+            );
+
+            return Err(err.into());
+        }
+
         loop
         {
             match self.inner.is_exhausted()
diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 24083b1..d28b843 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -107,6 +107,12 @@ impl Scanner
         Ok(num_tokens)
     }
 
+    /// Is the scanner yet to process any of the stream?
+    pub fn is_start(&self) -> bool
+    {
+        self.state == StreamState::Start
+    }
+
     pub fn offset(&self) -> usize
     {
         self.offset
-- 
2.43.0


From 56251f8fb60025903fcee90e7d6106eb7b66f879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:33 +0000
Subject: [PATCH 20/41] fix: end the event stream after an error

---
 src/event/parser/mod.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/event/parser/mod.rs b/src/event/parser/mod.rs
index 0fa60b3..2c81780 100644
--- a/src/event/parser/mod.rs
+++ b/src/event/parser/mod.rs
@@ -136,7 +136,18 @@ impl Parser
         // is returned or we're marked as finished.
         while !self.done && event.is_none()
         {
-            event = self.state_transition(tokens)?;
+            event = match self.state_transition(tokens)
+            {
+                Ok(event) => event,
+                // There is no way to recover from an error, any events
+                // produced after one would be misleading
+                Err(e) =>
+                {
+                    self.done = true;
+
+                    return Err(e);
+                },
+            }
         }
 
         Ok(event)
-- 
2.43.0


From 5295954a7d2559bd68c652ca0440f618ff506fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:47 +0000
Subject: [PATCH 21/41] fix: allow %TAG to override the default tag handles

---
 src/event/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/event/parser/mod.rs b/src/event/parser/mod.rs
index 2c81780..650fcc4 100644
--- a/src/event/parser/mod.rs
+++ b/src/event/parser/mod.rs
@@ -1123,7 +1123,7 @@ where
     #[allow(unused_assignments)]
     let (start, mut end, mut token) = peek!(tokens)?;
 
-    let mut directives = Directives::default();
+    let mut directives = Directives::empty();
     let mut seen_version = false;
 
     let tags = &mut directives.tags;
-- 
2.43.0


From 4119ac73ec5515f0ef06b778230dd49b66e205d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:59 +0000
Subject: [PATCH 22/41] fix: skip repeated document end markers

---
 src/event/parser/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/event/parser/mod.rs b/src/event/parser/mod.rs
index 650fcc4..6154b57 100644
--- a/src/event/parser/mod.rs
+++ b/src/event/parser/mod.rs
@@ -238,9 +238,9 @@ impl Parser
         let implicit = opts.contains(O_IMPLICIT);
         let first = opts.contains(O_FIRST);
 
-        // If the document is explicit we need to skip any extra
+        // If a document preceded this one we need to skip any extra
         // DocumentEnd tokens ('...')
-        if !implicit
+        if !first
         {
             while peek!(~tokens)? == Marker::DocumentEnd
             {
-- 
2.43.0


From f081f276835a7c93c972fb6043731891e36a774b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:16 +0000
Subject: [PATCH 23/41] fix: error on extra content after a single pair flow
 mapping

---
 src/event/parser/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/event/parser/mod.rs b/src/event/parser/mod.rs
index 6154b57..42bb779 100644
--- a/src/event/parser/mod.rs
+++ b/src/event/parser/mod.rs
@@ -782,7 +782,11 @@ impl Parser
     {
         let (start, end, token) = peek!(tokens)?;
 
-        debug_assert!(matches!(token, Marker::FlowEntry | Marker::FlowSequenceEnd));
+        // The mapping only contains a single KV pair
+        if !matches!(token, Marker::FlowEntry | Marker::FlowSequenceEnd)
+        {
+            return Err(Error::MissingFlowSequenceEntryOrEnd);
+        }
 
         // Revert to parsing the next entry in the parent sequence
         state!(~self, -> State::FlowSequenceEntry(O_NIL));
-- 
2.43.0


From d06625472f1e27d5d38cd56c859534c573de5899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:17 +0000
Subject: [PATCH 24/41] fix: allow flow collections to be implicit keys

---
 src/scanner/mod.rs | 59 ++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 54 insertions(+), 5 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index d28b843..af2a4d5 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -57,6 +57,15 @@ pub(crate) struct Scanner
     stats:   MStats,
     key:     Key,
     context: Context,
+
+    /// Keys saved by the flow collections we are currently
+    /// in, as the collections themselves may turn out to be
+    /// keys
+    flow_keys: Vec<Key>,
+
+    /// The count of .flow_keys, starting from the outermost
+    /// collection, which cannot be keys anymore
+    flow_keys_stale: usize,
 }
 
 impl Scanner
@@ -71,6 +80,8 @@ impl Scanner
             state:              StreamState::Start,
             key:                Key::default(),
             context:            Context::new(),
+            flow_keys:          Vec::new(),
+            flow_keys_stale:    0,
         }
     }
 
@@ -87,7 +98,7 @@ impl Scanner
         let starting_tokens = tokens.len();
 
         while self.state != StreamState::Done
-            && (starting_tokens == tokens.len() || self.key.possible())
+            && (starting_tokens == tokens.len() || self.key_possible())
         {
             if let Some(mut buffer) = base.get(self.offset..)
             {
@@ -663,17 +674,24 @@ impl Scanner
             false => Token::FlowSequenceStart,
         };
 
+        // The collection might be a key, which we won't know until
+        // after its end
+        self.save_key(!REQUIRED)?;
+
+        let key = std::mem::take(&mut self.key);
+        self.flow_keys.push(key);
+
         self.context.flow_increment()?;
 
         advance!(*base, :self.stats, 1);
 
         enqueue!(token, :self.stats => tokens);
 
-        self.save_key(!REQUIRED)?;
-
         // A simple key may start after '[' or '{'
         self.simple_key_allowed = true;
 
+        self.save_key(!REQUIRED)?;
+
         Ok(())
     }
 
@@ -696,6 +714,10 @@ impl Scanner
         // Decrease flow level by 1
         self.context.flow_decrement()?;
 
+        // Restore the key saved at the start of the collection
+        self.key = self.flow_keys.pop().unwrap_or_default();
+        self.flow_keys_stale = usize::min(self.flow_keys_stale, self.flow_keys.len());
+
         // A simple key is not allowed after a ']' or '}'
         self.simple_key_allowed = false;
 
@@ -789,7 +811,28 @@ impl Scanner
     /// expired, removing it if it has
     fn expire_stale_saved_key(&mut self) -> Result<()>
     {
-        if let Some(ref mut saved) = self.key.saved()
+        Self::expire_stale_key(&mut self.key, &self.stats)?;
+
+        // An outer collection's key was always saved before, and so
+        // becomes stale before, those of the collections in it
+        while let Some(key) = self.flow_keys.get_mut(self.flow_keys_stale)
+        {
+            Self::expire_stale_key(key, &self.stats)?;
+
+            if key.possible()
+            {
+                break;
+            }
+
+            self.flow_keys_stale += 1;
+        }
+
+        Ok(())
+    }
+
+    fn expire_stale_key(key: &mut Key, stats: &MStats) -> Result<()>
+    {
+        if let Some(ref mut saved) = key.saved()
         {
             let key = saved.key();
             let key_stats = saved.stats();
@@ -804,7 +847,7 @@ impl Scanner
              * https://yaml.org/spec/1.2/spec.html#ns-s-implicit-yaml-key(c)
              */
             if key.allowed()
-                && (key_stats.lines < self.stats.lines || key_stats.read + 1024 < self.stats.read)
+                && (key_stats.lines < stats.lines || key_stats.read + 1024 < stats.read)
             {
                 // If the key was required, it is an error for us not to
                 // have found it before the cutoff
@@ -820,6 +863,12 @@ impl Scanner
         Ok(())
     }
 
+    /// Is a simple key possible, at any level?
+    fn key_possible(&self) -> bool
+    {
+        self.key.possible() || self.flow_keys_stale < self.flow_keys.len()
+    }
+
     /// Manages the decrement of zero indented block
     /// sequences
     fn pop_zero_indent_sequence<'de>(
-- 
2.43.0


From ba0f23b828549b84f057bb824fff5109ac5b3bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:44 +0000
Subject: [PATCH 25/41] fix: forget the indentation of a finished document

---
 src/scanner/context.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/scanner/context.rs b/src/scanner/context.rs
index 01a2c94..08d11a0 100644
--- a/src/scanner/context.rs
+++ b/src/scanner/context.rs
@@ -160,6 +160,7 @@ impl Context
             Some(entry) =>
             {
                 self.indent = entry.indent;
+                self.started = !self.indents.is_empty();
 
                 f(self.indent)?;
 
-- 
2.43.0


From 66cd9ed393bce7b995f9b19b956d70a568af476b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:08 +0000
Subject: [PATCH 26/41] fix: allow keys to be implied by their value

---
 src/event/parser/mod.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/event/parser/mod.rs b/src/event/parser/mod.rs
index 42bb779..f386d79 100644
--- a/src/event/parser/mod.rs
+++ b/src/event/parser/mod.rs
@@ -516,6 +516,12 @@ impl Parser
                     event = self.empty_scalar(start, kind).map(Some)?;
                 }
             },
+            // Found a value, without a key, thus the key is implied
+            Marker::Value =>
+            {
+                state!(~self, -> State::BlockMappingValue);
+                event = self.empty_scalar(start, kind).map(Some)?;
+            },
             // End of this mapping, pop the state stack
             Marker::BlockEnd =>
             {
@@ -648,9 +654,13 @@ impl Parser
                  *  See:
                  *      yaml.org/spec/1.2.2/#example-flow-mapping-adjacent-values
                  */
-                Marker::Key =>
+                Marker::Key | Marker::Value =>
                 {
-                    pop!(tokens)?;
+                    // The key is implied if there's only a value
+                    if token == Marker::Key
+                    {
+                        pop!(tokens)?;
+                    }
 
                     event =
                         initEvent!(@event FlowMappingStart => (start, end, (NO_ANCHOR, NO_TAG, NodeKind::Entry)))
@@ -880,6 +890,13 @@ impl Parser
                         event = self.empty_scalar(start, kind).map(Some)?;
                     }
                 },
+                // Found a value, without a key, thus the key is implied
+                Marker::Value =>
+                {
+                    state!(~self, -> State::FlowMappingValue(O_NIL));
+
+                    event = self.empty_scalar(start, kind).map(Some)?;
+                },
                 /*
                  * Here we catch a strange edge case in (flow contexts) YAML:
                  *
-- 
2.43.0


From 596a24566eb01893417db7dc82094d0927decd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:36 +0000
Subject: [PATCH 27/41] fix: allow '#' in tags

---
 src/scanner/tag.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/scanner/tag.rs b/src/scanner/tag.rs
index b3d5c9c..9bd4155 100644
--- a/src/scanner/tag.rs
+++ b/src/scanner/tag.rs
@@ -278,6 +278,7 @@ pub(in crate::scanner) fn scan_tag_uri<'de>(
             | [b'A'..=b'Z', ..]
             | [b'a'..=b'z', ..]
             | [b'!', ..]
+            | [b'#', ..]
             | [b'$', ..]
             | [b':', ..]
             | [b';', ..]
-- 
2.43.0


From 7b49ef1eb5643418ead734fc63384fb7c617cbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:09 +0000
Subject: [PATCH 28/41] fix: allow root plain scalars to continue at the start
 of a line

---
 src/scanner/context.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scanner/context.rs b/src/scanner/context.rs
index 08d11a0..fc0be01 100644
--- a/src/scanner/context.rs
+++ b/src/scanner/context.rs
@@ -316,7 +316,8 @@ impl Add<usize> for Indent
         match self.0
         {
             Some(indent) => indent + rhs,
-            None => rhs,
+            // The missing indent is -1, not 0
+            None => rhs.saturating_sub(1),
         }
     }
 }
-- 
2.43.0


From 297a2705b9472fe6d5fe99455dd4f75274644f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:18 +0000
Subject: [PATCH 29/41] fix: end flow plain scalars at a ':' before a flow
 indicator

---
 src/scanner/scalar/plain.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/scanner/scalar/plain.rs b/src/scanner/scalar/plain.rs
index 01c6ee5..563d86d 100644
--- a/src/scanner/scalar/plain.rs
+++ b/src/scanner/scalar/plain.rs
@@ -122,7 +122,8 @@ pub(in crate::scanner) fn scan_plain_scalar_eager<'de>(
         //
         // ': '                         -> anywhere
         // ',' | '[' | ']' | '{' | '}'  -> flow context
-        if (check!(~buffer => b':') && isWhiteSpaceZ!(~buffer, 1))
+        // ':' before any of the above  -> flow context
+        if is_value(buffer, flow_context)
             || flow_context && flow_indicator(buffer, 0)
         {
             break 'scalar;
@@ -141,7 +142,7 @@ pub(in crate::scanner) fn scan_plain_scalar_eager<'de>(
         {
             cache!(~buffer, 2, opts)?;
 
-            if (check!(~buffer => b':') && isWhiteSpaceZ!(~buffer, 1))
+            if is_value(buffer, flow_context)
                 || flow_context && flow_indicator(buffer, 0)
             {
                 break;
@@ -313,7 +314,8 @@ pub(in crate::scanner) fn scan_plain_scalar_lazy<'de>(
         //
         // ': '                         -> anywhere
         // ',' | '[' | ']' | '{' | '}'  -> flow context
-        if (check!(~buffer => b':') && isWhiteSpaceZ!(~buffer, 1))
+        // ':' before any of the above  -> flow context
+        if is_value(buffer, flow_context)
             || flow_context && flow_indicator(buffer, 0)
         {
             break 'scalar;
@@ -324,7 +326,7 @@ pub(in crate::scanner) fn scan_plain_scalar_lazy<'de>(
         {
             cache!(~buffer, 2, opts)?;
 
-            if (check!(~buffer => b':') && isWhiteSpaceZ!(~buffer, 1))
+            if is_value(buffer, flow_context)
                 || flow_context && flow_indicator(buffer, 0)
             {
                 let skip = match isWhiteSpace!(~buffer, 1)
@@ -402,6 +404,13 @@ pub(in crate::scanner) fn scan_plain_scalar_lazy<'de>(
     Ok((lazy, advance))
 }
 
+/// Have we hit a ':' which ends the scalar?
+fn is_value(buffer: &str, flow_context: bool) -> bool
+{
+    check!(~buffer => b':')
+        && (isWhiteSpaceZ!(~buffer, 1) || flow_context && flow_indicator(buffer, 1))
+}
+
 /// Have we hit a flow context scalar end indicator?
 fn flow_indicator(buffer: &str, offset: usize) -> bool
 {
-- 
2.43.0


From f25d5a1d5667cd252fadf8d9ffb53e53db2933c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:16 +0000
Subject: [PATCH 30/41] fix: allow flow plain scalars to start with '?' or ':'

---
 src/scanner/mod.rs | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index af2a4d5..3cb7efe 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -66,6 +66,10 @@ pub(crate) struct Scanner
     /// The count of .flow_keys, starting from the outermost
     /// collection, which cannot be keys anymore
     flow_keys_stale: usize,
+
+    /// Did the last token end a node which, as a key, may be
+    /// followed by a ':' directly adjacent to its value?
+    json_like: bool,
 }
 
 impl Scanner
@@ -82,6 +86,7 @@ impl Scanner
             context:            Context::new(),
             flow_keys:          Vec::new(),
             flow_keys_stale:    0,
+            json_like:          false,
         }
     }
 
@@ -171,8 +176,14 @@ impl Scanner
         //  - '... '
         cache!(~base, 4, opts)?;
 
+        // Could the token(s) end a JSON like key?
+        let json_like = check!(
+            ~base =>
+                [SINGLE, ..] | [DOUBLE, ..] | [FLOW_MAPPING_END, ..] | [FLOW_SEQUENCE_END, ..]
+        );
+
         // Fetch the next token(s)
-        match base.as_bytes()
+        let run = match base.as_bytes()
         {
             // Is it a directive?
             [DIRECTIVE, ..] if self.stats.column == 0 => self.fetch_directive(opts, base, tokens),
@@ -206,13 +217,17 @@ impl Scanner
             },
 
             // Is it an explicit key?
-            [EXPLICIT_KEY, ..] if self.context.is_flow() || isWhiteSpaceZ!(~base, 1) =>
+            [EXPLICIT_KEY, ..]
+                if isWhiteSpaceZ!(~base, 1) || !is_plain_safe_c(base, 1, self.context.is_block()) =>
             {
                 self.fetch_explicit_key(base, tokens)
             },
 
             // Is it a value?
-            [VALUE, ..] if isWhiteSpaceZ!(~base, 1) || self.context.is_flow() =>
+            [VALUE, ..]
+                if isWhiteSpaceZ!(~base, 1)
+                    || !is_plain_safe_c(base, 1, self.context.is_block())
+                    || self.context.is_flow() && self.json_like =>
             {
                 self.fetch_value(base, tokens)
             },
@@ -237,7 +252,14 @@ impl Scanner
 
             // Otherwise its an error
             _ => Err(ScanError::UnknownDelimiter),
+        };
+
+        if run.is_ok()
+        {
+            self.json_like = json_like;
         }
+
+        run
     }
 
     fn fetch_stream_start(&mut self, tokens: &mut Tokens)
@@ -964,7 +986,7 @@ impl Scanner
             | [FLOW_MAPPING_START, ..]
             | [FLOW_SEQUENCE_START, ..]
             | [FLOW_MAPPING_END, ..]
-            | [FLOW_SEQUENCE_END]
+            | [FLOW_SEQUENCE_END, ..]
             | [FLOW_ENTRY, ..]
             | [LITERAL, ..]
             | [FOLDED, ..]
-- 
2.43.0


From ee590dfafb0b7a9aab46dbe5d812e1887ef7d029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:28 +0000
Subject: [PATCH 31/41] fix: only end zero indented sequences at keys of their
 parent

---
 src/scanner/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 3cb7efe..81eb7ce 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -907,11 +907,15 @@ impl Scanner
              * 2. Current indentation is for a sequence
              * 3. The next byte sequence is not a block entry
              * 4. The entry was flagged zero_indented
+             * 5. The current column is the sequence's, anything
+             *    further indented belongs to the current entry
              */
             if entry.line < self.stats.lines
                 && entry.zero_indented
                 && entry.kind == Marker::BlockSequenceStart
-                && (!check!(~base => b'-'))
+                && self.context.is_block()
+                && self.context.indent() == self.stats.column
+                && !(check!(~base => b'-') && isWhiteSpaceZ!(~base, 1))
             {
                 let read = self.stats.read;
 
-- 
2.43.0


From 03526db8b0939888ed5d95304d852a61b829ed54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:02 +0000
Subject: [PATCH 32/41] fix: do not allow keys in flow collections merely
 because of a line break

---
 src/scanner/mod.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 81eb7ce..1171a5b 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -1016,10 +1016,7 @@ impl Scanner
         let amt = eat_whitespace(opts, *buffer, &mut stats, comments)?;
 
         // A new line may start a key in the block context
-        //
-        // FIXME: we don't track flow/block contexts yet, add check
-        // here when we do
-        if stats.lines != 0
+        if stats.lines != 0 && self.context.is_block()
         {
             self.simple_key_allowed = true;
         }
-- 
2.43.0


From a8e859d6f6ae786e8462e4d19acacee1d6c1a2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:38 +0000
Subject: [PATCH 33/41] fix: reject empty verbatim tags and tag handles without
 a suffix

---
 src/scanner/tag.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/scanner/tag.rs b/src/scanner/tag.rs
index 9bd4155..ddd43d6 100644
--- a/src/scanner/tag.rs
+++ b/src/scanner/tag.rs
@@ -186,6 +186,12 @@ pub(in crate::scanner) fn scan_node_tag<'de>(
         //   ^^^^^^^^^^^^^^^^^^^^
         let (verbatim, amt) = scan_tag_uri(opts, buffer, stats, &mut can_borrow, true)?;
 
+        // A tag is never empty
+        if verbatim.is_empty()
+        {
+            return Err(ScanError::InvalidTagSuffix);
+        }
+
         // !<global:verbatim:tag:> "node"
         //                       ^
         cache!(~buffer, @amt, 1, opts)?;
@@ -216,6 +222,12 @@ pub(in crate::scanner) fn scan_node_tag<'de>(
                 //   ^^^^^^                  ^^^^^^
                 let (suffix, amt) = scan_tag_uri(opts, buffer, stats, &mut can_borrow, false)?;
 
+                // Only the primary handle may be used without a suffix
+                if suffix.is_empty()
+                {
+                    return Err(ScanError::InvalidTagSuffix);
+                }
+
                 let token = assemble_tag(h, suffix, can_borrow);
 
                 (token, amt)
-- 
2.43.0


From c498d0a91e56c5e7e7e5ffa19260a26161688dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:10 +0000
Subject: [PATCH 34/41] fix: allow implicit keys of flow mappings to span lines

---
 src/event/parser/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/event/parser/mod.rs b/src/event/parser/mod.rs
index f386d79..94b1883 100644
--- a/src/event/parser/mod.rs
+++ b/src/event/parser/mod.rs
@@ -916,9 +916,10 @@ impl Parser
                  */
                 t if !matches!(t, Marker::FlowMappingEnd) =>
                 {
-                    // Set the value state handler to return an empty scalar and
-                    // return control to this handler
-                    state!(~self, >> State::FlowMappingValue(O_EMPTY));
+                    // Set the value state handler to return an empty scalar
+                    // (unless there is a value, implicit keys of flow mappings
+                    // may span lines) and return control to this handler
+                    state!(~self, >> State::FlowMappingValue(O_NIL));
 
                     event = self.node(tokens, !BLOCK_CONTEXT, kind)?;
                 },
-- 
2.43.0


From 1817e8ac2817bb6ec5dcf691f4ea06bfc04a647e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:17 +0000
Subject: [PATCH 35/41] fix: skip document end markers at the start of the
 stream

---
 src/event/parser/mod.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/event/parser/mod.rs b/src/event/parser/mod.rs
index 94b1883..34091de 100644
--- a/src/event/parser/mod.rs
+++ b/src/event/parser/mod.rs
@@ -238,14 +238,11 @@ impl Parser
         let implicit = opts.contains(O_IMPLICIT);
         let first = opts.contains(O_FIRST);
 
-        // If a document preceded this one we need to skip any extra
-        // DocumentEnd tokens ('...')
-        if !first
+        // We need to skip any extra DocumentEnd tokens ('...'),
+        // whether or not a document preceded this one
+        while peek!(~tokens)? == Marker::DocumentEnd
         {
-            while peek!(~tokens)? == Marker::DocumentEnd
-            {
-                pop!(tokens)?;
-            }
+            pop!(tokens)?;
         }
 
         let token = peek!(~tokens)?;
-- 
2.43.0


From 9a247cccf627cdc3581f8bb1541f9081871280d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:47 +0000
Subject: [PATCH 36/41] fix: keep directives on a single line

---
 src/scanner/directive.rs |  9 +++++----
 src/scanner/mod.rs       | 21 +++++++++++++++++++++
 src/scanner/tag.rs       | 10 ++++++++--
 3 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/src/scanner/directive.rs b/src/scanner/directive.rs
index 7b822c5..48b37aa 100644
--- a/src/scanner/directive.rs
+++ b/src/scanner/directive.rs
@@ -11,7 +11,7 @@ use super::{
     stats::MStats,
 };
 use crate::{
-    scanner::{eat_whitespace, flag::Flags, tag::scan_tag_directive, COMMENTS},
+    scanner::{eat_blanks, flag::Flags, tag::scan_tag_directive},
     token::Token,
 };
 
@@ -28,8 +28,9 @@ pub(in crate::scanner) fn scan_directive<'de>(
     {
         DirectiveKind::Version =>
         {
-            // Chomp any preceding whitespace
-            advance!(*buffer, eat_whitespace(opts, buffer, stats, !COMMENTS)?);
+            // Chomp any preceding blanks, a directive cannot leave
+            // its line
+            advance!(*buffer, eat_blanks(opts, buffer, stats)?);
 
             // %YAML 1.1
             //       ^
@@ -52,7 +53,7 @@ pub(in crate::scanner) fn scan_directive<'de>(
         DirectiveKind::Tag =>
         {
             // Chomp any spaces up to the handle
-            advance!(*buffer, eat_whitespace(opts, buffer, stats, !COMMENTS)?);
+            advance!(*buffer, eat_blanks(opts, buffer, stats)?);
 
             // Scan the directive, copying if necessary
             let (token, amt) = scan_tag_directive(opts, buffer, stats)?;
diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 1171a5b..aeeb836 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -1085,6 +1085,27 @@ fn eat_whitespace(opts: Flags, base: &str, stats: &mut MStats, comments: bool) -
     Ok(base.len() - buffer.len())
 }
 
+/// Chomp blanks, without ever leaving the current line,
+/// returning the amount chomped
+fn eat_blanks(opts: Flags, base: &str, stats: &mut MStats) -> Result<usize>
+{
+    let mut buffer = base;
+
+    loop
+    {
+        cache!(~buffer, 1, opts)?;
+
+        if !isBlank!(~buffer)
+        {
+            break;
+        }
+
+        advance!(buffer, :stats, 1);
+    }
+
+    Ok(base.len() - buffer.len())
+}
+
 /// Roll the indentation level and push a block collection
 /// indent token to the indent stack if required
 fn roll_indent<'de>(
diff --git a/src/scanner/tag.rs b/src/scanner/tag.rs
index ddd43d6..e4c3910 100644
--- a/src/scanner/tag.rs
+++ b/src/scanner/tag.rs
@@ -70,7 +70,7 @@
 
 use crate::{
     scanner::{
-        eat_whitespace,
+        eat_blanks,
         error::{ScanError, ScanResult as Result},
         flag::Flags,
         scalar::escape::tag_uri_unescape,
@@ -111,12 +111,18 @@ pub(in crate::scanner) fn scan_tag_directive<'de>(
     isBlank!(~buffer, else ScanError::InvalidTagPrefix)?;
 
     // Chomp whitespace to prefix
-    advance!(buffer, eat_whitespace(opts, buffer, stats, false)?);
+    advance!(buffer, eat_blanks(opts, buffer, stats)?);
 
     // %TAG !named! :tag:prefix # a comment\n
     //              ^^^^^^^^^^^
     let (prefix, amt) = scan_tag_uri(opts, buffer, stats, &mut can_borrow, true)?;
 
+    // A prefix is never empty
+    if prefix.is_empty()
+    {
+        return Err(ScanError::InvalidTagPrefix);
+    }
+
     // %TAG !named! tag-prefix # a comment\n
     //                        ^
     // Check there is whitespace or a newline after the tag
-- 
2.43.0


From 7dc989ddc5036cdc7700590c0033c273a6abba4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:03 +0000
Subject: [PATCH 37/41] fix: forward the source of errors

Error::source() was always None, though the I/O or UTF8 error behind it is there
---
 src/error.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index fbe4785..c061c5c 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -591,7 +591,17 @@ pub(crate) mod internal
         }
     }
 
-    impl StdError for ErrorKind {}
+    impl StdError for ErrorKind
+    {
+        fn source(&self) -> Option<&(dyn StdError + 'static)>
+        {
+            match self
+            {
+                ErrorKind::Code(e) => e.source(),
+                ErrorKind::Source(e) => e.source(),
+            }
+        }
+    }
 
     impl From<ErrorCode> for ErrorKind
     {
-- 
2.43.0


From 0c76d1ed3c4bcf294489f4d0bb6a9dd4c6a2dc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:38 +0000
Subject: [PATCH 38/41] fix: report a ']' or '}' which ends nothing as a syntax
 error

---
 src/scanner/context.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scanner/context.rs b/src/scanner/context.rs
index fc0be01..d8e71a8 100644
--- a/src/scanner/context.rs
+++ b/src/scanner/context.rs
@@ -80,7 +80,8 @@ impl Context
 
     pub fn flow_decrement(&mut self) -> Result<usize>
     {
-        let new = self.flow.checked_sub(1).ok_or(ScanError::IntOverflow)?;
+        // There is no flow collection for this ']' or '}' to end
+        let new = self.flow.checked_sub(1).ok_or(ScanError::UnknownDelimiter)?;
         self.flow = new;
 
         Ok(new)
-- 
2.43.0


From f1c21d491edb4e09f6445a2951ec7c02ecb5fbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:45 +0000
Subject: [PATCH 39/41] fix: require white space after the name of a directive

---
 src/scanner/directive.rs | 15 ++++++++++-----
 src/scanner/mod.rs       |  5 +++--
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/scanner/directive.rs b/src/scanner/directive.rs
index 48b37aa..e9978e8 100644
--- a/src/scanner/directive.rs
+++ b/src/scanner/directive.rs
@@ -81,18 +81,23 @@ impl DirectiveKind
     /// the given .buffer
     pub fn new(buffer: &str) -> Result<Self>
     {
-        if buffer.starts_with(Self::KIND_VERSION)
+        let kind = if buffer.starts_with(Self::KIND_VERSION)
         {
-            Ok(Self::Version)
+            Self::Version
         }
         else if buffer.starts_with(Self::KIND_TAG)
         {
-            Ok(Self::Tag)
+            Self::Tag
         }
         else
         {
-            Err(ScanError::UnknownDirective)
-        }
+            return Err(ScanError::UnknownDirective);
+        };
+
+        // The name of a directive ends with white space
+        isWhiteSpaceZ!(~buffer, kind.len(), else ScanError::UnknownDirective)?;
+
+        Ok(kind)
     }
 
     /// The number of bytes associated with the directive
diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index aeeb836..875f7f6 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -347,8 +347,9 @@ impl Scanner
             return Ok(());
         }
 
-        // Ensure we can read the 'YAML' or 'TAG' identifiers
-        cache!(~buffer, @1, 4, opts)?;
+        // Ensure we can read the 'YAML' or 'TAG' identifiers, and
+        // the white space after them
+        cache!(~buffer, @1, 5, opts)?;
 
         // Safety: we check above that we have len >= 1 (e.g a '%')
         //
-- 
2.43.0


From 7b535a6c1485ad426d5757dd8675c4b198c5b511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:00 +0000
Subject: [PATCH 40/41] fix: require white space after a tag, and no '!' in the
 suffix of a shorthand

---
 src/scanner/mod.rs | 23 +++++++++++++++++++++++
 src/scanner/tag.rs |  3 +--
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 875f7f6..f430ae6 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -403,6 +403,29 @@ impl Scanner
         let (token, amt) = scan_node_tag(opts, buffer, &mut stats)?;
         advance!(buffer, amt);
 
+        // !named_tag!type-suffix "my tagged value"
+        //                       ^
+        // A tag is separated from what follows, unless its node is
+        // empty and what follows is a value or ends a flow node
+        cache!(~buffer, 2, opts)?;
+        let separated = match buffer.as_bytes()
+        {
+            [FLOW_ENTRY, ..] | [FLOW_SEQUENCE_END, ..] | [FLOW_MAPPING_END, ..] =>
+            {
+                self.context.is_flow()
+            },
+            [VALUE, ..] =>
+            {
+                isWhiteSpaceZ!(~buffer, 1) || !is_plain_safe_c(buffer, 1, self.context.is_block())
+            },
+            _ => isWhiteSpaceZ!(~buffer),
+        };
+
+        if !separated
+        {
+            return Err(ScanError::InvalidTagSuffix);
+        }
+
         self.save_key(!REQUIRED)?;
 
         // A key may not start after a tag (only before)
diff --git a/src/scanner/tag.rs b/src/scanner/tag.rs
index e4c3910..75e1aa6 100644
--- a/src/scanner/tag.rs
+++ b/src/scanner/tag.rs
@@ -295,7 +295,6 @@ pub(in crate::scanner) fn scan_tag_uri<'de>(
             | [b'-'..=b'9', ..] // - . / 0-9
             | [b'A'..=b'Z', ..]
             | [b'a'..=b'z', ..]
-            | [b'!', ..]
             | [b'#', ..]
             | [b'$', ..]
             | [b':', ..]
@@ -313,7 +312,7 @@ pub(in crate::scanner) fn scan_tag_uri<'de>(
                 advance!(buffer, :stats, 1);
             },
             // Further characters are allowed in verbatim tags and tag prefixes
-            [b',', ..] | [b'[', ..] | [b']', ..] if verbatim =>
+            [b'!', ..] | [b',', ..] | [b'[', ..] | [b']', ..] if verbatim =>
             {
                 if !*can_borrow
                 {
-- 
2.43.0


From bb1dae041cd49f475c090e76f3ed802894d5a7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:34 +0000
Subject: [PATCH 41/41] fix: check the end of a directive's name without an
 unreachable pattern

---
 src/scanner/directive.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/scanner/directive.rs b/src/scanner/directive.rs
index e9978e8..f92655f 100644
--- a/src/scanner/directive.rs
+++ b/src/scanner/directive.rs
@@ -95,9 +95,11 @@ impl DirectiveKind
         };
 
         // The name of a directive ends with white space
-        isWhiteSpaceZ!(~buffer, kind.len(), else ScanError::UnknownDirective)?;
-
-        Ok(kind)
+        match isWhiteSpaceZ!(~buffer, kind.len())
+        {
+            true => Ok(kind),
+            false => Err(ScanError::UnknownDirective),
+        }
     }
 
     /// The number of bytes associated with the directive
-- 
2.43.0

