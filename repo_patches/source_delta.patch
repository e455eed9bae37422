From 2ad0e56b9708bc3feaa45a5ca9c691f853e05352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:41 +0000
Subject: [PATCH 01/26] fix: accept lowercase hexadecimal digits

RFC 3986 HEXDIG is case-insensitive, so "%2f" and "[fe80::1]" are valid.
---
 include/boost/url/detail/char_type.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/url/detail/char_type.hpp b/include/boost/url/detail/char_type.hpp
index 7366d3b..f09e86d 100644
--- a/include/boost/url/detail/char_type.hpp
+++ b/include/boost/url/detail/char_type.hpp
@@ -59,7 +59,7 @@ hex_digit(char c) noexcept
         "\x00\x01\x02\x03\x04\x05\x06\x07\x08\x09\xff\xff\xff\xff\xff\xff" //  48...63
         "\xff\x0a\x0b\x0c\x0d\x0e\x0f\xff\xff\xff\xff\xff\xff\xff\xff\xff" //  64...79
         "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" //  80...95
-        "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" //  96..111
+        "\xff\x0a\x0b\x0c\x0d\x0e\x0f\xff\xff\xff\xff\xff\xff\xff\xff\xff" //  96..111
         "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" // 112..127
         "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" // 128..143
         "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" // 144..159
-- 
2.43.0


From f202affde52f5a40d7538523c446a01be575d135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:42 +0000
Subject: [PATCH 02/26] fix: accept digits in the scheme

scheme = ALPHA *( ALPHA / DIGIT / "+" / "-" / "." ), as documented
for set_scheme.
---
 include/boost/url/detail/char_type.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/url/detail/char_type.hpp b/include/boost/url/detail/char_type.hpp
index f09e86d..cfc288b 100644
--- a/include/boost/url/detail/char_type.hpp
+++ b/include/boost/url/detail/char_type.hpp
@@ -78,10 +78,10 @@ bool
 is_scheme_char(
     char c) noexcept
 {
-    // [A-Za-z.+-]
+    // [A-Za-z0-9.+-]
     static constexpr char tab[] =
         "\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0" "\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0" //   0...31
-        "\0\0\0\0\0\0\0\0\0\0\0\1\0\1\1\0" "\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0" //  32...63
+        "\0\0\0\0\0\0\0\0\0\0\0\1\0\1\1\0" "\1\1\1\1\1\1\1\1\1\1\0\0\0\0\0\0" //  32...63
         "\0\1\1\1\1\1\1\1\1\1\1\1\1\1\1\1" "\1\1\1\1\1\1\1\1\1\1\1\0\0\0\0\0" //  64...95
         "\0\1\1\1\1\1\1\1\1\1\1\1\1\1\1\1" "\1\1\1\1\1\1\1\1\1\1\1\0\0\0\0\0" //  96..127
         "\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0" "\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0" // 128..159
-- 
2.43.0


From eb9a863fee340b7fb294daa26def7340dc801ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:42 +0000
Subject: [PATCH 03/26] fix: validate the first character of path-absolute

The first character after the leading '/' was skipped, so "/?q" had no
query and "/ x" and "/%zz" were accepted.
---
 include/boost/url/detail/parse.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/url/detail/parse.hpp b/include/boost/url/detail/parse.hpp
index b0894d8..e6d5e9b 100644
--- a/include/boost/url/detail/parse.hpp
+++ b/include/boost/url/detail/parse.hpp
@@ -657,7 +657,7 @@ struct parser
                 pchar_pct_set();
             // segment-nz
             p_ = e.parse(
-                p_ + 1, end_, ec);
+                p_, end_, ec);
             if(ec)
                 return;
             while(p_ < end_)
-- 
2.43.0


From 1af2d0d1d45c936192c09f13fbf64acca527317a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:39 +0000
Subject: [PATCH 04/26] fix: parse the IPv4 tail of an IPv6 address as four
 dec-octets

The first octet was taken from a stale hex word ("[1::.2.3.4]") and
could have leading zeros ("[::01.2.3.4]").
---
 include/boost/url/detail/parse.hpp | 71 +++++-------------------------
 1 file changed, 11 insertions(+), 60 deletions(-)

diff --git a/include/boost/url/detail/parse.hpp b/include/boost/url/detail/parse.hpp
index e6d5e9b..58eb7fc 100644
--- a/include/boost/url/detail/parse.hpp
+++ b/include/boost/url/detail/parse.hpp
@@ -429,21 +429,6 @@ struct parser
         return v;
     }
 
-    // return `true` if the hex
-    // word could be 0..255 if
-    // interpreted as decimal
-    bool
-    maybe_octet(long word)
-    {
-        if(word > 0x255)
-            return false;
-        if(((word >>  4) & 0xf) > 9)
-            return false;
-        if((word & 0xf) > 9)
-            return false;
-        return true;
-    }
-
     void
     parse_ip_v6(
         error_code& ec) noexcept
@@ -456,7 +441,7 @@ struct parser
         int n = 8; // words needed
         bool b = false; // got '::'
         bool c = false; // need colon
-        long word = 0;
+        auto p0 = p_; // last word
         for(;;)
         {
             if(p_ == end_)
@@ -493,7 +478,8 @@ struct parser
                 }
                 else if(c)
                 {
-                    word = parse_word(ec);
+                    p0 = p_;
+                    parse_word(ec);
                     if(ec)
                         return;
                     --n;
@@ -515,53 +501,17 @@ struct parser
                     ec = error::syntax;
                     return;
                 }
-                if(! maybe_octet(word))
-                {
-                    // invalid octet
-                    ec = error::syntax;
-                    return;
-                }
-                ++p_;
-                auto m = match_octet();
-                if( m == -1)
-                {
-                    ec = error::syntax;
-                    return;
-                }
-                if(p_ >= end_)
-                {
-                    ec = error::syntax;
-                    return;
-                }
-                if(*p_ != '.')
-                {
-                    ec = error::syntax;
-                    return;
-                }
-                ++p_;
-                m = match_octet();
-                if( m == -1)
+                if(! c)
                 {
+                    // no octet before '.'
                     ec = error::syntax;
                     return;
                 }
-                if(p_ >= end_)
-                {
+                // re-parse the last
+                // word as an octet
+                p_ = p0;
+                if(! match_ip_v4())
                     ec = error::syntax;
-                    return;
-                }
-                if(*p_ != '.')
-                {
-                    ec = error::syntax;
-                    return;
-                }
-                ++p_;
-                m = match_octet();
-                if(m == -1)
-                {
-                    ec = error::syntax;
-                    return;
-                }
                 return;
             }
             else if(b && hex_digit(*p_) == -1)
@@ -571,7 +521,8 @@ struct parser
             }
             else if(! c)
             {
-                word = parse_word(ec);
+                p0 = p_;
+                parse_word(ec);
                 if(ec)
                     return;
                 --n;
-- 
2.43.0


From 34bdea4650a7c52ac5bed966afa9d53f444f08a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:48 +0000
Subject: [PATCH 05/26] fix: parse IPvFuture hosts

IP-literal is documented as "[" ( IPv6address / IPvFuture ) "]" and
host_type::ipvfuture exists, but "//[v1.x]" was rejected.
---
 include/boost/url/detail/parse.hpp | 42 ++++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/include/boost/url/detail/parse.hpp b/include/boost/url/detail/parse.hpp
index 58eb7fc..8ffe5fc 100644
--- a/include/boost/url/detail/parse.hpp
+++ b/include/boost/url/detail/parse.hpp
@@ -280,7 +280,17 @@ struct parser
             return;
         }
         ++p_;
-        parse_ip_v6(ec);
+        auto type = host_type::ipv6;
+        if( p_ != end_ && (
+            *p_ == 'v' || *p_ == 'V'))
+        {
+            type = host_type::ipvfuture;
+            parse_ip_vfuture(ec);
+        }
+        else
+        {
+            parse_ip_v6(ec);
+        }
         if(ec)
             return;
         if(p_ == end_)
@@ -294,7 +304,35 @@ struct parser
             return;
         }
         ++p_;
-        pt.host = host_type::ipv6;
+        pt.host = type;
+    }
+
+    // "v" 1*HEXDIG "." 1*( unreserved / sub-delims / ":" )
+    void
+    parse_ip_vfuture(
+        error_code& ec) noexcept
+    {
+        BOOST_ASSERT(
+            *p_ == 'v' || *p_ == 'V');
+        auto p0 = ++p_;
+        while( p_ != end_ &&
+            hex_digit(*p_) != -1)
+            ++p_;
+        if( p_ == p0 ||
+            p_ == end_ ||
+            *p_ != '.')
+        {
+            ec = error::syntax;
+            return;
+        }
+        auto const e =
+            userinfo_pct_set();
+        p0 = ++p_;
+        while( p_ != end_ &&
+            ! e.is_special(*p_))
+            ++p_;
+        if(p_ == p0)
+            ec = error::syntax;
     }
 
     void
-- 
2.43.0


From e0122930227f319dbc638d01587ba4eb98e377a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:45 +0000
Subject: [PATCH 06/26] fix: keep the path out of set_encoded_origin

A path, query or fragment in the argument was copied in front of the
existing path. A path is now ignored and anything after it is an error.
---
 include/boost/url/detail/parse.hpp  | 8 --------
 include/boost/url/impl/url_base.ipp | 8 +++++---
 2 files changed, 5 insertions(+), 11 deletions(-)

diff --git a/include/boost/url/detail/parse.hpp b/include/boost/url/detail/parse.hpp
index 8ffe5fc..ca693fd 100644
--- a/include/boost/url/detail/parse.hpp
+++ b/include/boost/url/detail/parse.hpp
@@ -882,16 +882,8 @@ parse_origin(
     }
     pr.mark(pt, id_scheme);
     pr.parse_hier_part(pt, ec);
-
-    // authority
-    if(! pr.match_literal("//"))
-        return;
-    pr.parse_authority(pt, ec);
     if(ec)
         return;
-    pt.resize(id_user,
-        pt.length(id_user) + 1);
-
     if(! pr.done())
         ec = error::syntax;
 }
diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 7218e8c..e2d76b6 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -103,12 +103,14 @@ set_encoded_origin(
     detail::parse_origin(pt, s, ec);
     if(ec)
         invalid_part::raise();
+    // ignore the path
+    auto const n =
+        pt.offset[detail::id_path];
     auto const dest =
         resize(
             detail::id_scheme,
-            detail::id_path,
-            s.size());
-    s.copy(dest, s.size());
+            detail::id_path, n);
+    s.copy(dest, n);
     pt_.split(
         detail::id_scheme,
         pt.length(detail::id_scheme));
-- 
2.43.0


From 9c4007003ce38715e01e9458411e3921d90140a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:53 +0000
Subject: [PATCH 07/26] fix: include the leading "//" in the user part in
 set_encoded_userinfo

The user and password parts were split two characters too early.
---
 include/boost/url/impl/url_base.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index e2d76b6..6dabe14 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -349,7 +349,7 @@ set_encoded_userinfo(
     s.copy(dest, s.size());
     pt_.split(
         detail::id_user,
-        pt.length(detail::id_user));
+        2 + pt.length(detail::id_user));
     dest[s.size()] = '@';
     return *this;
 }
-- 
2.43.0


From 2b16ae198d0e7dc797289059dc7f034830720fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:01 +0000
Subject: [PATCH 08/26] fix: set_user("") on an authority without userinfo

There is nothing to remove from "//host", but the empty password part
was dereferenced.
---
 include/boost/url/impl/url_base.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 6dabe14..f61154e 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -393,7 +393,7 @@ set_user(
     if(s.empty())
     {
         if(pt_.length(
-            detail::id_user) == 0)
+            detail::id_password) == 0)
             return *this;
         BOOST_ASSERT(pt_.get(
             detail::id_password, s_).back() == '@');
-- 
2.43.0


From ef7c33ae00754f278f3846c013f6678cd5368d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:01 +0000
Subject: [PATCH 09/26] fix: wrong assertion in password_part

The password part ends with '@', it only starts with it when there is
no password.
---
 include/boost/url/impl/url_base.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index f61154e..d5aa2e9 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -511,7 +511,7 @@ password_part() const noexcept
         detail::id_password, s_);
     if(! s.empty())
     {
-        BOOST_ASSERT(s.front() == '@');
+        BOOST_ASSERT(s.back() == '@');
         s.remove_suffix(1);
     }
     return s;
-- 
2.43.0


From 7232f162c725730dd1b0a9691d67fcf235321e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:10 +0000
Subject: [PATCH 10/26] fix: set_password_part requires the leading ':'

The first character was dropped unchecked, and ":" without an authority
was set and then removed again.
---
 include/boost/url/impl/url_base.ipp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index d5aa2e9..e096df4 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -617,10 +617,10 @@ set_password_part(
 {
     if(s.empty())
         return set_password(s);
+    if(s.front() != ':')
+        invalid_part::raise();
     if(s.size() == 1)
     {
-        if(s.front() != ':')
-            invalid_part::raise();
         if(pt_.length(
             detail::id_user) != 0)
         {
@@ -639,6 +639,7 @@ set_password_part(
         dest[3] = '@';
         pt_.split(
             detail::id_user, 2);
+        return *this;
     }
     set_encoded_password(
         s.substr(1));
-- 
2.43.0


From bee4cea3d62578715bc77b9517126aee49b8c4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:50 +0000
Subject: [PATCH 11/26] fix: set_port_part(":") adds the authority when there
 is none

A lone ':' was written in front of the path.
---
 include/boost/url/impl/url_base.ipp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index e096df4..02967b7 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -891,6 +891,22 @@ set_port_part(string_view s)
         invalid_part::raise();
     if(s.size() > 1)
         return set_port(s.substr(1));
+    if(! has_authority())
+    {
+        // add authority
+        auto const dest = resize(
+            detail::id_user, 3);
+        dest[0] = '/';
+        dest[1] = '/';
+        dest[2] = ':';
+        pt_.split(
+            detail::id_user, 2);
+        pt_.split(
+            detail::id_password, 0);
+        pt_.split(
+            detail::id_host, 0);
+        return *this;
+    }
     resize(
         detail::id_port, 1)[0] = ':';
     return *this;
-- 
2.43.0


From a997f447c291e17e47ba8787d2563c65f314b6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:03 +0000
Subject: [PATCH 12/26] fix: null-terminate the first allocation

The terminator moved to the end by url_base::resize was uninitialized
memory, so url().set_scheme("http") was not null-terminated.
---
 include/boost/url/detail/storage.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/url/detail/storage.hpp b/include/boost/url/detail/storage.hpp
index 225d801..ed32c00 100644
--- a/include/boost/url/detail/storage.hpp
+++ b/include/boost/url/detail/storage.hpp
@@ -84,8 +84,8 @@ public:
                 p, p_, size_ + 1);
             a_.deallocate(
                 p_, cap_ + 1);
-            p[size_] = 0;
         }
+        p[size_] = 0;
         p_ = p;
         cap_ = cap;
         return p_;
-- 
2.43.0


From e63cba033a97b62bc95276b81db6345019776b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:10 +0000
Subject: [PATCH 13/26] fix: shrink the storage together with the URL

The size of the storage was only updated when growing, but
segments_type::erase, insert and replace rely on it.
---
 include/boost/url/impl/url_base.ipp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 02967b7..6dd94ac 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -1789,6 +1789,7 @@ resize(
         for(auto i = id + 1;
             i <= detail::id_end; ++i)
             pt_.offset[i] -= n;
+        s_ = a_.resize(size());
         return s_ + pt_.offset[id];
     }
 
@@ -1843,6 +1844,7 @@ resize(
         for(auto i = last;
             i <= detail::id_end; ++i)
             pt_.offset[i] -= n;
+        s_ = a_.resize(size());
         return s_ + pt_.offset[first];
     }
 
-- 
2.43.0


From 753ee18a8c0c9e3c20daea4b89cdbe6548bb2b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:58 +0000
Subject: [PATCH 14/26] fix: keep host_type in step with the host

Setting the authority or the origin, and clearing the host or the whole
URL, left the type of the previous host.
---
 include/boost/url/impl/url_base.ipp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 6dd94ac..6964f9d 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -69,6 +69,9 @@ set_encoded_url(
             resize(
                 detail::id_scheme,
                 detail::id_end, 0);
+        pt_.nseg = 0;
+        pt_.nparam = 0;
+        pt_.host = urls::host_type::none;
         return *this;
     }
     error_code ec;
@@ -95,6 +98,7 @@ set_encoded_origin(
         resize(
             detail::id_scheme,
             detail::id_path, 0);
+        pt_.host = urls::host_type::none;
         return *this;
     }
 
@@ -125,6 +129,7 @@ set_encoded_origin(
         pt.length(detail::id_host));
     pt_.split(
         detail::id_port, pt.length(detail::id_port));
+    pt_.host = pt.host;
     return *this;
 }
 
@@ -212,6 +217,7 @@ set_encoded_authority(
         resize(
             detail::id_user,
             detail::id_path, 0);
+        pt_.host = urls::host_type::none;
         return *this;
     }
 
@@ -237,6 +243,7 @@ set_encoded_authority(
     BOOST_ASSERT(
         pt_.length(detail::id_port) ==
             pt.length(detail::id_port));
+    pt_.host = pt.host;
     return *this;
 }
 
@@ -696,6 +703,7 @@ set_host(
         {
             resize(detail::id_host, 0);
         }
+        pt_.host = urls::host_type::none;
         return *this;
     }
     detail::parts pt;
-- 
2.43.0


From a0ad5994f930448a3b60ea62a25bb934398512d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:05 +0000
Subject: [PATCH 15/26] fix: update the number of segments in set_encoded_path

segments() kept the size of the previous path.
---
 include/boost/url/detail/parse.hpp  | 16 ++++++++++++----
 include/boost/url/impl/url_base.ipp | 11 +++++++----
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/include/boost/url/detail/parse.hpp b/include/boost/url/detail/parse.hpp
index ca693fd..273af1d 100644
--- a/include/boost/url/detail/parse.hpp
+++ b/include/boost/url/detail/parse.hpp
@@ -993,8 +993,9 @@ match_port(string_view s)
         invalid_part::raise();
 }
 
+// returns the number of segments
 inline
-void
+std::size_t
 match_path_abempty(string_view s)
 {
     parts pt;
@@ -1005,10 +1006,12 @@ match_path_abempty(string_view s)
         invalid_part::raise();
     if(! pr.done())
         invalid_part::raise();
+    return pt.nseg;
 }
 
+// returns the number of segments
 inline
-void
+std::size_t
 match_path_absolute(string_view s)
 {
     parts pt;
@@ -1019,10 +1022,12 @@ match_path_absolute(string_view s)
         invalid_part::raise();
     if(! pr.done())
         invalid_part::raise();
+    return pt.nseg;
 }
 
+// returns the number of segments
 inline
-void
+std::size_t
 match_path_noscheme(string_view s)
 {
     parts pt;
@@ -1033,10 +1038,12 @@ match_path_noscheme(string_view s)
         invalid_part::raise();
     if(! pr.done())
         invalid_part::raise();
+    return pt.nseg;
 }
 
+// returns the number of segments
 inline
-void
+std::size_t
 match_path_rootless(string_view s)
 {
     parts pt;
@@ -1047,6 +1054,7 @@ match_path_rootless(string_view s)
         invalid_part::raise();
     if(! pr.done())
         invalid_part::raise();
+    return pt.nseg;
 }
 
 } // detail
diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 6964f9d..7af439b 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -945,32 +945,35 @@ set_encoded_path(
     {
         resize(
             detail::id_path, 0);
+        pt_.nseg = 0;
         return *this;
     }
+    std::size_t nseg;
     if(has_authority())
     {
         // path-abempty
-        detail::match_path_abempty(s);
+        nseg = detail::match_path_abempty(s);
     }
     else if(s.front() == '/')
     {
         // path-absolute
-        detail::match_path_absolute(s);
+        nseg = detail::match_path_absolute(s);
     }
     else if(pt_.length(
         detail::id_scheme) == 0)
     {
         // path-noscheme
-        detail::match_path_noscheme(s);
+        nseg = detail::match_path_noscheme(s);
     }
     else
     {
         // path-rootless
-        detail::match_path_rootless(s);
+        nseg = detail::match_path_rootless(s);
     }
     auto const dest = resize(
         detail::id_path, s.size());
     s.copy(dest, s.size());
+    pt_.nseg = nseg;
     return *this;
 }
 
-- 
2.43.0


From 0ff4c601d054f00b926eb97e6fa3c81a8f353022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:12 +0000
Subject: [PATCH 16/26] fix: update the number of params when the query is set

params() kept the size of the previous query.
---
 include/boost/url/detail/parse.hpp  | 14 ++++++++++++++
 include/boost/url/impl/url_base.ipp |  9 +++++++++
 2 files changed, 23 insertions(+)

diff --git a/include/boost/url/detail/parse.hpp b/include/boost/url/detail/parse.hpp
index 273af1d..75f0786 100644
--- a/include/boost/url/detail/parse.hpp
+++ b/include/boost/url/detail/parse.hpp
@@ -993,6 +993,20 @@ match_port(string_view s)
         invalid_part::raise();
 }
 
+// returns the number of parameters
+// Precondition: s is a valid query part
+inline
+std::size_t
+count_params(string_view s) noexcept
+{
+    parts pt;
+    parser pr(s);
+    error_code ec;
+    pr.parse_query(pt, ec);
+    BOOST_ASSERT(! ec && pr.done());
+    return pt.nparam;
+}
+
 // returns the number of segments
 inline
 std::size_t
diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 7af439b..086fc00 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -1017,6 +1017,7 @@ set_query(
     if(s.empty())
     {
         resize(detail::id_query, 0);
+        pt_.nparam = 0;
         return *this;
     }
     auto const e =
@@ -1028,6 +1029,8 @@ set_query(
         1 + n);
     dest[0] = '?';
     e.encode(dest + 1, s);
+    pt_.nparam = detail::count_params(
+        query_part());
     return *this;
 }
 
@@ -1039,6 +1042,7 @@ set_encoded_query(
     if(s.empty())
     {
         resize(detail::id_query, 0);
+        pt_.nparam = 0;
         return *this;
     }
     auto const e =
@@ -1049,6 +1053,8 @@ set_encoded_query(
         1 + s.size());
     dest[0] = '?';
     s.copy(dest + 1, s.size());
+    pt_.nparam = detail::count_params(
+        query_part());
     return *this;
 }
 
@@ -1060,6 +1066,7 @@ set_query_part(
     if(s.empty())
     {
         resize(detail::id_query, 0);
+        pt_.nparam = 0;
         return *this;
     }
     if(s.front() != '?')
@@ -1073,6 +1080,8 @@ set_query_part(
         1 + s.size());
     dest[0] = '?';
     s.copy(dest + 1, s.size());
+    pt_.nparam = detail::count_params(
+        query_part());
     return *this;
 }
 
-- 
2.43.0


From 05a4d0df65ab397fd86b4a91a022fbc3af16c493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:53 +0000
Subject: [PATCH 17/26] fix: throw when a modification would make the path
 ambiguous

Adding an authority in front of a rootless path ("//h" + "a/b"),
removing it from a path which begins with "//", or removing the scheme
when the first segment contains a colon left an invalid URL.
---
 include/boost/url/impl/url_base.ipp | 59 +++++++++++++++++++++++++++++
 include/boost/url/url_base.hpp      |  2 +
 2 files changed, 61 insertions(+)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 086fc00..b61a004 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -95,6 +95,7 @@ set_encoded_origin(
 {
     if(s.empty())
     {
+        check_path(false, false);
         resize(
             detail::id_scheme,
             detail::id_path, 0);
@@ -107,6 +108,8 @@ set_encoded_origin(
     detail::parse_origin(pt, s, ec);
     if(ec)
         invalid_part::raise();
+    check_path(true, pt.length(
+        detail::id_user) != 0);
     // ignore the path
     auto const n =
         pt.offset[detail::id_path];
@@ -160,6 +163,7 @@ set_scheme(
 {
     if(s.empty())
     {
+        check_path(false, has_authority());
         resize(detail::id_scheme, 0);
         return *this;
     }
@@ -214,6 +218,7 @@ set_encoded_authority(
 {
     if(s.empty())
     {
+        check_path(has_scheme(), false);
         resize(
             detail::id_user,
             detail::id_path, 0);
@@ -223,6 +228,7 @@ set_encoded_authority(
 
     detail::parts pt;
     detail::parse_authority(pt, s);
+    check_path(has_scheme(), true);
     auto const dest = resize(
         detail::id_user,
         detail::id_path,
@@ -332,6 +338,7 @@ set_encoded_userinfo(
             detail::id_path) == 0)
         {
             // no authority
+            check_path(has_scheme(), false);
             resize(
                 detail::id_user,
                 detail::id_host, 0);
@@ -346,6 +353,7 @@ set_encoded_userinfo(
 
     detail::parts pt;
     detail::parse_userinfo(pt, s);
+    check_path(has_scheme(), true);
     auto dest = resize(
         detail::id_user,
         detail::id_host,
@@ -439,6 +447,7 @@ set_user(
         e.encode(dest + 2, s);
         return *this;
     }
+    check_path(has_scheme(), true);
     auto const n = e.encoded_size(s);
     auto const dest = resize(
         detail::id_user, 2 + n + 1);
@@ -477,6 +486,7 @@ set_encoded_user(
     }
 
     // add '@'
+    check_path(has_scheme(), true);
     auto const dest = resize(
         detail::id_user,
         2 + n + 1);
@@ -567,6 +577,7 @@ set_password(
         e.encode(dest + 1, s);
         return *this;
     }
+    check_path(has_scheme(), true);
     auto const dest = resize(
         detail::id_user,
         detail::id_host,
@@ -604,6 +615,7 @@ set_encoded_password(
         s.copy(dest + 1, n);
         return *this;
     }
+    check_path(has_scheme(), true);
     auto const dest = resize(
         detail::id_user,
         detail::id_host,
@@ -637,6 +649,7 @@ set_password_part(
             dest[1] = '@';
             return *this;
         }
+        check_path(has_scheme(), true);
         auto const dest = resize(
             detail::id_user,
             detail::id_host, 4);
@@ -695,6 +708,7 @@ set_host(
                 detail::id_user, s_
                     ) == "//");
             // remove authority
+            check_path(has_scheme(), false);
             resize(
                 detail::id_user,
                 detail::id_path, 0);
@@ -715,6 +729,7 @@ set_host(
         if(! has_authority())
         {
             // add authority
+            check_path(has_scheme(), true);
             auto const dest = resize(
                 detail::id_user,
                 2 + s.size());
@@ -741,6 +756,7 @@ set_host(
         if(! has_authority())
         {
             // add authority
+            check_path(has_scheme(), true);
             auto const dest = resize(
                 detail::id_user,
                 2 + e.encoded_size(s));
@@ -776,6 +792,7 @@ set_encoded_host(
     if(! has_authority())
     {
         // add authority
+        check_path(has_scheme(), true);
         auto const dest = resize(
             detail::id_user,
             2 + s.size());
@@ -847,6 +864,7 @@ set_port(string_view s)
             BOOST_ASSERT(pt_.get(
                 detail::id_user, s_).substr(
                     0, 2) == "//");
+            check_path(has_scheme(), false);
             resize(
                 detail::id_user,
                 detail::id_path, 0);
@@ -861,6 +879,7 @@ set_port(string_view s)
     if(! has_authority())
     {
         // add authority
+        check_path(has_scheme(), true);
         auto const dest = resize(
             detail::id_user,
             3 + s.size());
@@ -902,6 +921,7 @@ set_port_part(string_view s)
     if(! has_authority())
     {
         // add authority
+        check_path(has_scheme(), true);
         auto const dest = resize(
             detail::id_user, 3);
         dest[0] = '/';
@@ -1785,6 +1805,45 @@ operator[](string_view key) const
 
 //----------------------------------------------------------
 
+bool
+url_base::
+has_scheme() const noexcept
+{
+    return pt_.length(
+        detail::id_scheme) != 0;
+}
+
+// Throws if the path would not be valid
+// with or without a scheme and authority.
+void
+url_base::
+check_path(
+    bool scheme,
+    bool authority) const
+{
+    auto const s = encoded_path();
+    if(s.empty())
+        return;
+    if(authority)
+    {
+        // path-abempty
+        if(s.front() != '/')
+            invalid_part::raise();
+        return;
+    }
+    // path-absolute
+    if(s.front() == '/')
+    {
+        if(s.size() > 1 && s[1] == '/')
+            invalid_part::raise();
+        return;
+    }
+    // path-noscheme
+    if(! scheme && s.substr(0, s.find(
+            '/')).find(':') != string_view::npos)
+        invalid_part::raise();
+}
+
 char*
 url_base::
 resize(
diff --git a/include/boost/url/url_base.hpp b/include/boost/url/url_base.hpp
index 5728f60..904652a 100644
--- a/include/boost/url/url_base.hpp
+++ b/include/boost/url/url_base.hpp
@@ -1611,6 +1611,8 @@ public:
 private:
     inline char* resize(int id, std::size_t new_size);
     inline char* resize(int first, int last, std::size_t new_size);
+    inline void check_path(bool scheme, bool authority) const;
+    inline bool has_scheme() const noexcept;
 };
 
 //----------------------------------------------------------
-- 
2.43.0


From 5959b2488829a6c2262d26e1174770bc408f6b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:50 +0000
Subject: [PATCH 18/26] fix: path segments end at the query

url_view::segments_type::iterator took the end of the query for the end
of the path, and url_base::segments_type::iterator asserted when an edit
returned the end iterator of a URL without a query.
---
 include/boost/url/impl/url_base.ipp | 7 ++-----
 include/boost/url/impl/url_view.ipp | 8 ++++----
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index b61a004..263b306 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -1304,10 +1304,10 @@ operator++() noexcept ->
 {
     BOOST_ASSERT(
         off_ != v_->pt_.offset[
-            detail::id_frag]);
+            detail::id_query]);
     off_ = off_ + n_;
     if(off_ == v_->pt_.offset[
-        detail::id_frag])
+        detail::id_query])
     {
         // end
         n_ = 0;
@@ -1356,9 +1356,6 @@ segments_type::
 iterator::
 parse() noexcept
 {
-    BOOST_ASSERT(off_ !=
-        v_->pt_.offset[
-            detail::id_frag]);
     auto const end =
         v_->s_ + v_->pt_.offset[
             detail::id_query];
diff --git a/include/boost/url/impl/url_view.ipp b/include/boost/url/impl/url_view.ipp
index 659dea3..8a2ea61 100644
--- a/include/boost/url/impl/url_view.ipp
+++ b/include/boost/url/impl/url_view.ipp
@@ -414,10 +414,10 @@ operator++() noexcept ->
 {
     BOOST_ASSERT(
         off_ != pt_->offset[
-            detail::id_frag]);
+            detail::id_query]);
     off_ = off_ + n_;
     if(off_ == pt_->offset[
-        detail::id_frag])
+        detail::id_query])
     {
         // end
         n_ = 0;
@@ -468,10 +468,10 @@ parse() noexcept
 {
     BOOST_ASSERT(off_ !=
         pt_->offset[
-            detail::id_frag]);
+            detail::id_query]);
     auto const end =
         s_ + pt_->offset[
-            detail::id_frag];
+            detail::id_query];
     auto const p0 = s_ + off_;
     auto p = p0;
     if(*p == '/')
-- 
2.43.0


From 5e100baa28e65775ef161eb8f4a712134470a790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:32 +0000
Subject: [PATCH 19/26] fix: query parameters end at the fragment

The iterators parsed the last parameter into the fragment, and
operator-- stopped at a '&' inside of a key and left the sizes of the
previous position when it reached the first parameter.
---
 include/boost/url/impl/url_base.ipp | 11 +++++++++--
 include/boost/url/impl/url_view.ipp | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 263b306..836c179 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -1672,17 +1672,24 @@ operator--() noexcept ->
         v_->s_ + v_->pt_.offset[
             detail::id_query];
     auto p = v_->s_ + off_;
+    // '&' separates only after an '='
+    char const* sep = nullptr;
     while(--p > begin)
     {
         if(*p == '&')
         {
-            off_ = p - v_->s_;
+            sep = p;
+        }
+        else if(*p == '=' && sep)
+        {
+            off_ = sep - v_->s_;
             parse();
             return *this;
         }
     }
     BOOST_ASSERT(*p == '?');
     off_ = p - v_->s_;
+    parse();
     return *this;
 }
 
@@ -1696,7 +1703,7 @@ parse() noexcept
     BOOST_ASSERT(v_->pt_.nparam > 0);
     auto const end =
         v_->s_ + v_->pt_.offset[
-            detail::id_end];
+            detail::id_frag];
     char const* p = v_->s_ + off_;
     BOOST_ASSERT(
         ( off_ == v_->pt_.offset[
diff --git a/include/boost/url/impl/url_view.ipp b/include/boost/url/impl/url_view.ipp
index 8a2ea61..d649615 100644
--- a/include/boost/url/impl/url_view.ipp
+++ b/include/boost/url/impl/url_view.ipp
@@ -625,17 +625,24 @@ operator--() noexcept ->
         s_ + pt_->offset[
             detail::id_query];
     auto p = s_ + off_;
+    // '&' separates only after an '='
+    char const* sep = nullptr;
     while(--p > begin)
     {
         if(*p == '&')
         {
-            off_ = p - s_;
+            sep = p;
+        }
+        else if(*p == '=' && sep)
+        {
+            off_ = sep - s_;
             parse();
             return *this;
         }
     }
     BOOST_ASSERT(*p == '?');
     off_ = p - s_;
+    parse();
     return *this;
 }
 
@@ -649,7 +656,7 @@ parse() noexcept
     BOOST_ASSERT(pt_->nparam > 0);
     auto const end =
         s_ + pt_->offset[
-            detail::id_end];
+            detail::id_frag];
     auto p = s_ + off_;
     BOOST_ASSERT(
         ( off_ == pt_->offset[
-- 
2.43.0


From c885e4e02306ef3d65ea1c300983734ee4526c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:53 +0000
Subject: [PATCH 20/26] fix: editing the first segment of a path

Erasing or replacing the first segment of a relative path failed an
assertion, inserting before it merged two segments, and an insertion
could leave a path which begins with "//" without an authority.
---
 include/boost/url/impl/url_base.ipp | 157 +++++++++++++++++++++-------
 include/boost/url/url_base.hpp      |   8 ++
 2 files changed, 129 insertions(+), 36 deletions(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 836c179..d3d57dd 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -1418,13 +1418,20 @@ erase( iterator first, iterator last ) noexcept ->
     BOOST_ASSERT(last.off_ >= v.pt_.offset[detail::id_path]);
     BOOST_ASSERT(first.off_ <= v.pt_.offset[detail::id_query]);
     BOOST_ASSERT(last.off_ <= v.pt_.offset[detail::id_query]);
-    auto const d = last.off_ - first.off_;
-    if( d == 0 )
+    if( first.off_ == last.off_ )
         return first;
-    BOOST_ASSERT(d > 0);
-    int c = 0;
+    BOOST_ASSERT(last.off_ > first.off_);
+    std::size_t c = 0;
     for( auto i = v.s_ + first.off_, e = v.s_ + last.off_; i != e; ++i )
         c += (*i == '/'); // Count the number of segments in the range
+    if( v.s_[first.off_] != '/' )
+    {
+        // First segment of a relative path
+        ++c;
+        if( last.off_ != v.pt_.offset[detail::id_query] )
+            ++last.off_; // Also remove the separator
+    }
+    auto const d = last.off_ - first.off_;
     BOOST_ASSERT(c > 0);
     BOOST_ASSERT(v.pt_.nseg >= c);
     v.pt_.nseg -= c;
@@ -1438,6 +1445,38 @@ erase( iterator first, iterator last ) noexcept ->
     return first;
 }
 
+// Throws if the path would not be valid with s
+// inserted at pos. Returns true if s becomes
+// the first segment of a relative path.
+bool
+url_base::
+segments_type::
+check_insert( iterator pos, string_view s ) const
+{
+    url_base const& v = *v_;
+    auto const path = v.encoded_path();
+    if( pos.off_ != v.pt_.offset[detail::id_path] )
+    {
+        // Can't add to the empty segment
+        if( path == "/" && ! v.has_authority() )
+            invalid_part::raise();
+        return false;
+    }
+    if( path.empty() )
+        return false;
+    if( path.front() == '/' )
+    {
+        // Can't begin with "//"
+        if( s.empty() && ! v.has_authority() )
+            invalid_part::raise();
+        return false;
+    }
+    if( s.empty() || ( ! v.has_scheme() &&
+            s.find(':') != string_view::npos ) )
+        invalid_part::raise();
+    return true;
+}
+
 auto
 url_base::
 segments_type::
@@ -1451,16 +1490,26 @@ insert_encoded_impl( iterator pos, string_view s ) ->
     BOOST_ASSERT(pos.v_ == &v);
     BOOST_ASSERT(pos.off_ >= v.pt_.offset[detail::id_path]);
     BOOST_ASSERT(pos.off_ <= v.pt_.offset[detail::id_query]);
+    auto const relative = check_insert(pos, s);
     auto const n0 = v.pt_.offset[detail::id_end];
     auto const n = s.size() + 1;
     v.s_ = v.a_.resize(v.size() + n);
     v.pt_.resize(detail::id_path, v.pt_.length(detail::id_path, detail::id_query) + n);
     std::memmove(v.s_ + v.pt_.offset[detail::id_end] + pos.off_ - n0, v.s_ + pos.off_, n0 - pos.off_ + 1);
     BOOST_ASSERT(v.s_[v.pt_.offset[detail::id_end]] == '\0');
-    v.s_[pos.off_] = '/';
-    std::memcpy(v.s_ + pos.off_ + 1, s.data(), s.size());
+    if( relative )
+    {
+        std::memcpy(v.s_ + pos.off_, s.data(), s.size());
+        pos.off_ += s.size();
+        v.s_[pos.off_] = '/';
+    }
+    else
+    {
+        v.s_[pos.off_] = '/';
+        std::memcpy(v.s_ + pos.off_ + 1, s.data(), s.size());
+        pos.off_ += n;
+    }
     ++v.pt_.nseg;
-    pos.off_ += n;
     pos.parse();
     return pos;
 }
@@ -1479,16 +1528,26 @@ insert_impl( iterator pos, string_view s, std::size_t const ns ) ->
     BOOST_ASSERT(pos.off_ <= v.pt_.offset[detail::id_query]);
     auto const pct = detail::pchar_pct_set();
     BOOST_ASSERT(pct.encoded_size(s) == ns);
+    auto const relative = check_insert(pos, s);
     auto const n0 = v.pt_.offset[detail::id_end];
     auto const n = ns + 1;
     v.s_ = v.a_.resize(v.size() + n);
     v.pt_.resize(detail::id_path, v.pt_.length(detail::id_path, detail::id_query) + n);
     std::memmove(v.s_ + v.pt_.offset[detail::id_end] + pos.off_ - n0, v.s_ + pos.off_, n0 - pos.off_ + 1);
     BOOST_ASSERT(v.s_[v.pt_.offset[detail::id_end]] == '\0');
-    v.s_[pos.off_] = '/';
-    pct.encode(v.s_ + pos.off_ + 1, s);
+    if( relative )
+    {
+        pct.encode(v.s_ + pos.off_, s);
+        pos.off_ += ns;
+        v.s_[pos.off_] = '/';
+    }
+    else
+    {
+        v.s_[pos.off_] = '/';
+        pct.encode(v.s_ + pos.off_ + 1, s);
+        pos.off_ += n;
+    }
     ++v.pt_.nseg;
-    pos.off_ += n;
     pos.parse();
     return pos;
 }
@@ -1511,6 +1570,51 @@ insert( iterator pos, string_view s ) ->
     return insert_impl(pos, s, detail::pchar_pct_set().encoded_size(s));
 }
 
+// Resizes the segment at pos to ns characters, s
+// being its contents. Moves pos to the next segment
+// and returns a pointer to the resized segment.
+char*
+url_base::
+segments_type::
+replace_impl( iterator& pos, string_view s, std::size_t const ns )
+{
+    BOOST_ASSERT(v_ != nullptr);
+    url_base& v = *v_;
+    BOOST_ASSERT(v.size() == v.a_.size());
+    BOOST_ASSERT(pos.v_ == &v);
+    BOOST_ASSERT(pos.off_ >= v.pt_.offset[detail::id_path]);
+    BOOST_ASSERT(pos.off_ < v.pt_.offset[detail::id_query]);
+    bool const slash = v.s_[pos.off_] == '/';
+    if( ! slash )
+    {
+        // First segment of a relative path
+        if( s.empty() || ( ! v.has_scheme() &&
+                s.find(':') != string_view::npos ) )
+            invalid_part::raise();
+    }
+    else if( s.empty() && v.pt_.nseg > 1 &&
+        pos.off_ == v.pt_.offset[detail::id_path] &&
+        ! v.has_authority() )
+    {
+        // Can't begin with "//"
+        invalid_part::raise();
+    }
+    auto const n0 = v.size();
+    auto const off = pos.off_ + slash;
+    auto const last = pos.off_ + pos.n_;
+    auto const n = n0 - ( last - off ) + ns;
+    if( n > n0 )
+        v.s_ = v.a_.resize(n);
+    std::memmove(v.s_ + off + ns, v.s_ + last, n0 - last + 1);
+    if( n < n0 )
+        v.s_ = v.a_.resize(n);
+    v.pt_.resize(detail::id_path, v.pt_.length(detail::id_path) + n - n0);
+    BOOST_ASSERT(v.s_[v.pt_.offset[detail::id_end]] == '\0');
+    pos.off_ = off + ns;
+    pos.parse();
+    return v.s_ + off;
+}
+
 auto
 url_base::
 segments_type::
@@ -1518,19 +1622,9 @@ replace_encoded( iterator pos, string_view s ) ->
     iterator
 {
     detail::pchar_pct_set().validate(s);
-    BOOST_ASSERT(v_ != nullptr);
-    url_base& v = *v_;
-    BOOST_ASSERT(v.size() == v.a_.size());
-    auto const ns = s.size();
-    auto const n0 = pos.n_;
-    auto const n = ns + 1;
-    if( n0 < n )
-        v.s_ = v.a_.reserve(v.a_.size() + n - n0);
-    auto const cap = v.a_.capacity();
-    auto r = insert_encoded_impl(erase(pos), s);
-    BOOST_ASSERT(v.a_.capacity() == cap); // Strong guarantee violation
-    (void) cap;
-    return r;
+    auto const dest = replace_impl(pos, s, s.size());
+    s.copy(dest, s.size());
+    return pos;
 }
 
 auto
@@ -1539,19 +1633,10 @@ segments_type::
 replace( iterator pos, string_view s ) ->
     iterator
 {
-    BOOST_ASSERT(v_ != nullptr);
-    url_base& v = *v_;
-    BOOST_ASSERT(v.size() == v.a_.size());
-    auto const ns = detail::pchar_pct_set().encoded_size(s);
-    auto const n0 = pos.n_;
-    auto const n = ns + 1;
-    if( n0 < n )
-        v.s_ = v.a_.reserve(v.a_.size() + n - n0);
-    auto const cap = v.a_.capacity();
-    auto r = insert_impl(erase(pos), s, ns);
-    BOOST_ASSERT(v.a_.capacity() == cap); // Strong guarantee violation
-    (void) cap;
-    return r;
+    auto const pct = detail::pchar_pct_set();
+    auto const dest = replace_impl(pos, s, pct.encoded_size(s));
+    pct.encode(dest, s);
+    return pos;
 }
 
 //----------------------------------------------------------
diff --git a/include/boost/url/url_base.hpp b/include/boost/url/url_base.hpp
index 904652a..235fd53 100644
--- a/include/boost/url/url_base.hpp
+++ b/include/boost/url/url_base.hpp
@@ -1639,6 +1639,14 @@ private:
     iterator
     insert_impl( iterator pos, string_view s, std::size_t ns );
 
+    BOOST_URL_DECL
+    bool
+    check_insert( iterator pos, string_view s ) const;
+
+    BOOST_URL_DECL
+    char*
+    replace_impl( iterator& pos, string_view s, std::size_t ns );
+
 public:
 
     segments_type() = default;
-- 
2.43.0


From 61a65c92a4c675ad9e7223fc44723a1aafe40393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:07 +0000
Subject: [PATCH 21/26] fix: static_pool out of bounds allocations

The space left underflowed when the alignment moved past the end of the
buffer, and the size of an array could overflow.
---
 include/boost/url/static_pool.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/url/static_pool.hpp b/include/boost/url/static_pool.hpp
index 57ebcb5..225a23a 100644
--- a/include/boost/url/static_pool.hpp
+++ b/include/boost/url/static_pool.hpp
@@ -35,8 +35,9 @@ class basic_static_pool
             (u0 + align - 1) / align);
         auto const p =
             reinterpret_cast<char*>(u);
-        if( u < u0 || bytes >
-            capacity_ - (p - base_))
+        if( u < u0 ||
+            u - std::uintptr_t(base_) > capacity_ ||
+            bytes > capacity_ - (p - base_))
             BOOST_THROW_EXCEPTION(
                 std::bad_alloc());
         top_ = reinterpret_cast<
@@ -103,6 +104,9 @@ public:
         pointer
         allocate(size_type n)
         {
+            if(n > std::size_t(-1) / sizeof(T))
+                BOOST_THROW_EXCEPTION(
+                    std::bad_alloc());
             return reinterpret_cast<T*>(
                 pool_->allocate(
                     n * sizeof(T),
-- 
2.43.0


From 426d411e9a0293b74c921e3572e6b891fb5273dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:59 +0000
Subject: [PATCH 22/26] fix: copying and moving basic_url

Copy assignment did nothing and the copy and move constructors did not
compile, so a url could not be returned, copied or kept in a container.
---
 include/boost/url/basic_url.hpp      | 20 +++++++++++++++++---
 include/boost/url/detail/storage.hpp | 26 ++++++++++++++++++++++++++
 2 files changed, 43 insertions(+), 3 deletions(-)

diff --git a/include/boost/url/basic_url.hpp b/include/boost/url/basic_url.hpp
index 0219765..cf1b214 100644
--- a/include/boost/url/basic_url.hpp
+++ b/include/boost/url/basic_url.hpp
@@ -54,19 +54,33 @@ public:
     }
 
     basic_url(
-        basic_url&&) noexcept
+        basic_url&& u) noexcept
+        : detail::storage_member<
+            Allocator>(std::move(u.st_))
+        , url_base(static_cast<
+            detail::storage&>(this->st_))
     {
+        this->pt_ = u.pt_;
+        this->s_ = u.s_;
+        u.pt_ = detail::parts();
+        u.s_ = nullptr;
     }
 
     basic_url(
-        basic_url const&)
+        basic_url const& u)
+        : detail::storage_member<
+            Allocator>(u.st_.get_allocator())
+        , url_base(this->st_,
+            u.encoded_url())
     {
     }
 
     basic_url&
     operator=(
-        basic_url const&)
+        basic_url const& u)
     {
+        if(this != &u)
+            set_encoded_url(u.encoded_url());
         return *this;
     }
 };
diff --git a/include/boost/url/detail/storage.hpp b/include/boost/url/detail/storage.hpp
index ed32c00..50622f6 100644
--- a/include/boost/url/detail/storage.hpp
+++ b/include/boost/url/detail/storage.hpp
@@ -14,6 +14,7 @@
 #include <cstdlib>
 #include <cstring>
 #include <memory>
+#include <utility>
 
 namespace boost {
 namespace urls {
@@ -49,6 +50,18 @@ public:
     {
     }
 
+    alloc_storage(
+        alloc_storage&& other) noexcept
+        : a_(std::move(other.a_))
+        , p_(other.p_)
+        , size_(other.size_)
+        , cap_(other.cap_)
+    {
+        other.p_ = nullptr;
+        other.size_ = 0;
+        other.cap_ = 0;
+    }
+
     ~alloc_storage()
     {
         if(p_)
@@ -56,6 +69,12 @@ public:
                 p_, cap_ + 1);
     }
 
+    Allocator
+    get_allocator() const noexcept
+    {
+        return a_;
+    }
+
     std::size_t
     capacity() const noexcept override
     {
@@ -123,6 +142,13 @@ struct storage_member
         : st_(alloc)
     {
     }
+
+    explicit
+    storage_member(
+        alloc_storage<Allocator>&& st) noexcept
+        : st_(std::move(st))
+    {
+    }
 };
 
 } // detail
-- 
2.43.0


From 07436de8607d2aa1dbdf4fe6bc038f18026999b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:15 +0000
Subject: [PATCH 23/26] fix: string_to_scheme depends on the C locale

---
 include/boost/url/detail/char_type.hpp |  2 +-
 include/boost/url/impl/scheme.ipp      | 38 +++++++++++++-------------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/include/boost/url/detail/char_type.hpp b/include/boost/url/detail/char_type.hpp
index cfc288b..32a3dd7 100644
--- a/include/boost/url/detail/char_type.hpp
+++ b/include/boost/url/detail/char_type.hpp
@@ -26,7 +26,7 @@ to_lower(char c) noexcept
         static_cast<unsigned char>(c - 65);
     if(u > 25)
         return c;
-    return 'a' + c;
+    return 'a' + u;
 }
 
 inline
diff --git a/include/boost/url/impl/scheme.ipp b/include/boost/url/impl/scheme.ipp
index 1885550..bd43813 100644
--- a/include/boost/url/impl/scheme.ipp
+++ b/include/boost/url/impl/scheme.ipp
@@ -25,23 +25,23 @@ string_to_scheme(
     switch(s.size())
     {
     case 2: // ws
-        if( tolower(s[0]) == 'w' &&
-            tolower(s[1]) == 's')
+        if( to_lower(s[0]) == 'w' &&
+            to_lower(s[1]) == 's')
             return scheme::ws;
         break;
 
     case 3:
-        switch(tolower(s[0]))
+        switch(to_lower(s[0]))
         {
         case 'w': // wss
-            if( tolower(s[1]) == 's' &&
-                tolower(s[2]) == 's')
+            if( to_lower(s[1]) == 's' &&
+                to_lower(s[2]) == 's')
                 return scheme::wss;
             break;
 
         case 'f': // ftp
-            if( tolower(s[1]) == 't' &&
-                tolower(s[2]) == 'p')
+            if( to_lower(s[1]) == 't' &&
+                to_lower(s[2]) == 'p')
                 return scheme::ftp;
             break;
 
@@ -51,19 +51,19 @@ string_to_scheme(
         break;
 
     case 4:
-        switch(tolower(s[0]))
+        switch(to_lower(s[0]))
         {
         case 'f': // file
-            if( tolower(s[1]) == 'i' &&
-                tolower(s[2]) == 'l' &&
-                tolower(s[3]) == 'e')
+            if( to_lower(s[1]) == 'i' &&
+                to_lower(s[2]) == 'l' &&
+                to_lower(s[3]) == 'e')
                 return scheme::file;
             break;
 
         case 'h': // http
-            if( tolower(s[1]) == 't' &&
-                tolower(s[2]) == 't' &&
-                tolower(s[3]) == 'p')
+            if( to_lower(s[1]) == 't' &&
+                to_lower(s[2]) == 't' &&
+                to_lower(s[3]) == 'p')
                 return scheme::http;
             break;
 
@@ -73,11 +73,11 @@ string_to_scheme(
         break;
 
     case 5: // https
-        if( tolower(s[0]) == 'h' &&
-            tolower(s[1]) == 't' &&
-            tolower(s[2]) == 't' &&
-            tolower(s[3]) == 'p' &&
-            tolower(s[4]) == 's')
+        if( to_lower(s[0]) == 'h' &&
+            to_lower(s[1]) == 't' &&
+            to_lower(s[2]) == 't' &&
+            to_lower(s[3]) == 'p' &&
+            to_lower(s[4]) == 's')
             return scheme::https;
         break;
 
-- 
2.43.0


From 901b71669dc4dda0beae917ebe7512e6e700d03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:50 +0000
Subject: [PATCH 24/26] fix: growing the buffer near the allocator's max_size

---
 include/boost/url/detail/storage.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/boost/url/detail/storage.hpp b/include/boost/url/detail/storage.hpp
index 50622f6..1c706b2 100644
--- a/include/boost/url/detail/storage.hpp
+++ b/include/boost/url/detail/storage.hpp
@@ -88,14 +88,13 @@ public:
         if(n <= cap_)
             return p_;
 
+        // one more is needed for the null
         std::size_t cap =
-            traits::max_size(a_);
+            traits::max_size(a_) - 1;
         if(cap_ < cap - cap_)
-        {
             cap = 2 * cap_;
-            if( cap < n)
-                cap = n;
-        }
+        if( cap < n)
+            cap = n;
         auto p = a_.allocate(cap + 1);
         if(p_)
         {
-- 
2.43.0


From 38753ff744916faf5265a27a07e5e6da9787364a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:49 +0000
Subject: [PATCH 25/26] fix: hexadecimal digits where char is unsigned

hex_digit returns -1 for a character that is not a digit, but as a
plain char it compares unequal to -1 where char is unsigned.
---
 include/boost/url/detail/char_type.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/url/detail/char_type.hpp b/include/boost/url/detail/char_type.hpp
index 32a3dd7..4c23ce3 100644
--- a/include/boost/url/detail/char_type.hpp
+++ b/include/boost/url/detail/char_type.hpp
@@ -49,7 +49,7 @@ is_alpha(
 }
 
 inline
-char
+signed char
 hex_digit(char c) noexcept
 {
     static constexpr char tab[] =
@@ -70,7 +70,8 @@ hex_digit(char c) noexcept
         "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" // 224..239
         "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" // 240..255
         ;
-    return tab[static_cast<unsigned char>(c)];
+    return static_cast<signed char>(
+        tab[static_cast<unsigned char>(c)]);
 }
 
 inline
-- 
2.43.0


From 9fab5b3e1f206784597f22e9790800caaecab39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:51 +0000
Subject: [PATCH 26/26] fix: a reverse iterator over segments() gives a
 dangling reference

The iterator's operator* returns by value, but its reference type said
value_type const&, which std::reverse_iterator then binds to a temporary.
---
 include/boost/url/url_base.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/url/url_base.hpp b/include/boost/url/url_base.hpp
index 235fd53..3f7cff2 100644
--- a/include/boost/url/url_base.hpp
+++ b/include/boost/url/url_base.hpp
@@ -1850,11 +1850,11 @@ public:
     using value_type =
         segments_type::value_type;
 
-    /// A pointer to an element
-    using pointer = value_type const*;
+    /// The type returned by `operator->`
+    using pointer = value_type;
 
-    /// A reference to an element
-    using reference = value_type const&;
+    /// The type returned by `operator*`
+    using reference = value_type;
 
     /// The difference_type for this iterator
     using difference_type = std::ptrdiff_t;
-- 
2.43.0

