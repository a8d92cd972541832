From 198d3a309dfbf8d0c70c496140b36a7fee6ea99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:26 +0000
Subject: [PATCH 01/14] fix: get_element_at returns None for an index one past
 the end

---
 F15_Parser/ExtractedRouteSequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/F15_Parser/ExtractedRouteSequence.py b/F15_Parser/ExtractedRouteSequence.py
index e6a8ad2..a81e737 100644
--- a/F15_Parser/ExtractedRouteSequence.py
+++ b/F15_Parser/ExtractedRouteSequence.py
@@ -147,7 +147,7 @@ class ExtractedRouteSequence:
 
         :param index: The index of the extracted route record to be retrieved;
         :return: An instance of ExtractedRouteRecord located at index provided or None if index is out of range;"""
-        if index < 0 or index > self.get_number_of_elements():
+        if index < 0 or index >= self.get_number_of_elements():
             return None
         return self.extracted_route_records[index]
 
-- 
2.43.0


From c43cd86e942ca3ad2b7a13913e99354cf4ce4b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:28 +0000
Subject: [PATCH 02/14] fix: take the whole second level of a cruise climb
 element

---
 F15_Parser/F15Parse.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/F15_Parser/F15Parse.py b/F15_Parser/F15Parse.py
index 1e7c25d..44899f5 100644
--- a/F15_Parser/F15Parse.py
+++ b/F15_Parser/F15Parse.py
@@ -548,21 +548,21 @@ class ParseF15:
                     TokenSubType.F15_SB_SPEED_ALTITUDE_NMF | TokenSubType.F15_SB_SPEED_ALTITUDE_NMS | \
                     TokenSubType.F15_SB_SPEED_ALTITUDE_NMA | TokenSubType.F15_SB_SPEED_ALTITUDE_NMM:
                 self.assign_altitude(ers, token, ex_route_rec, token_string[5:10], False)
-                self.assign_altitude(ers, token, ex_route_rec, token_string[11:], True)
+                self.assign_altitude(ers, token, ex_route_rec, token_string[10:], True)
                 self.assign_speed(ex_route_rec, token_string[0:5])
             case TokenSubType.F15_SB_SPEED_ALTITUDE_MFF | TokenSubType.F15_SB_SPEED_ALTITUDE_MFS | \
                     TokenSubType.F15_SB_SPEED_ALTITUDE_MFA | TokenSubType.F15_SB_SPEED_ALTITUDE_MFM | \
                     TokenSubType.F15_SB_SPEED_ALTITUDE_MAF | TokenSubType.F15_SB_SPEED_ALTITUDE_MAS | \
                     TokenSubType.F15_SB_SPEED_ALTITUDE_MAA | TokenSubType.F15_SB_SPEED_ALTITUDE_MAM:
                 self.assign_altitude(ers, token, ex_route_rec, token_string[4:8], False)
-                self.assign_altitude(ers, token, ex_route_rec, token_string[9:], True)
+                self.assign_altitude(ers, token, ex_route_rec, token_string[8:], True)
                 self.assign_speed(ex_route_rec, token_string[0:4])
             case TokenSubType.F15_SB_SPEED_ALTITUDE_MSF | TokenSubType.F15_SB_SPEED_ALTITUDE_MSS | \
                     TokenSubType.F15_SB_SPEED_ALTITUDE_MSA | TokenSubType.F15_SB_SPEED_ALTITUDE_MSM | \
                     TokenSubType.F15_SB_SPEED_ALTITUDE_MMF | TokenSubType.F15_SB_SPEED_ALTITUDE_MMS | \
                     TokenSubType.F15_SB_SPEED_ALTITUDE_MMA | TokenSubType.F15_SB_SPEED_ALTITUDE_MMM:
                 self.assign_altitude(ers, token, ex_route_rec, token_string[4:9], False)
-                self.assign_altitude(ers, token, ex_route_rec, token_string[10:], True)
+                self.assign_altitude(ers, token, ex_route_rec, token_string[9:], True)
                 self.assign_speed(ex_route_rec, token_string[0:4])
             case _:
                 self.assign_altitude(ers, token, ex_route_rec, "X000", False)
-- 
2.43.0


From 677cf33128c8dd3110da22bc27efcb99f1e2d646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:41 +0000
Subject: [PATCH 03/14] fix: recognise every cruise climb speed/level/level
 combination

---
 F15_Parser/F15TokenSyntaxDescriptions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/F15_Parser/F15TokenSyntaxDescriptions.py b/F15_Parser/F15TokenSyntaxDescriptions.py
index ebb3cfb..c3e634d 100644
--- a/F15_Parser/F15TokenSyntaxDescriptions.py
+++ b/F15_Parser/F15TokenSyntaxDescriptions.py
@@ -319,11 +319,11 @@ class F15TokenSyntaxDefinition:
          TokenSubType.F15_SB_SPEED_ALTITUDE_NSM],
         ["N[0-9]{4}A[0-9]{3}F[0-9]{3}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
          TokenSubType.F15_SB_SPEED_ALTITUDE_NAF],
-        ["N[0-9]{4}A[0-9]{4}S[0-9]{4}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
+        ["N[0-9]{4}A[0-9]{3}S[0-9]{4}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
          TokenSubType.F15_SB_SPEED_ALTITUDE_NAS],
         ["N[0-9]{4}A[0-9]{3}A[0-9]{3}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
          TokenSubType.F15_SB_SPEED_ALTITUDE_NAA],
-        ["N[0-9]{4}A[0-9]{4}M[0-9]{4}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
+        ["N[0-9]{4}A[0-9]{3}M[0-9]{4}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
          TokenSubType.F15_SB_SPEED_ALTITUDE_NAM],
         ["N[0-9]{4}M[0-9]{4}F[0-9]{3}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
          TokenSubType.F15_SB_SPEED_ALTITUDE_NMF],
@@ -338,7 +338,7 @@ class F15TokenSyntaxDefinition:
         ["K[0-9]{4}F[0-9]{3}S[0-9]{4}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
          TokenSubType.F15_SB_SPEED_ALTITUDE_KFS],
         ["K[0-9]{4}F[0-9]{3}A[0-9]{3}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
-         TokenSubType.F15_SB_SPEED_ALTITUDE_KFS],
+         TokenSubType.F15_SB_SPEED_ALTITUDE_KFA],
         ["K[0-9]{4}F[0-9]{3}M[0-9]{4}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
          TokenSubType.F15_SB_SPEED_ALTITUDE_KFM],
         ["K[0-9]{4}S[0-9]{4}F[0-9]{3}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
-- 
2.43.0


From 3c09118933fe41348ce9f797ed4307a9129c6073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:42 +0000
Subject: [PATCH 04/14] fix: import the parser in the shipped example from its
 package

---
 main.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/main.py b/main.py
index 8c65f08..5a130e3 100644
--- a/main.py
+++ b/main.py
@@ -1,5 +1,5 @@
-from Parser.ExtractedRouteSequence import ExtractedRouteSequence
-from Parser.F15Parse import ParseF15
+from F15_Parser.ExtractedRouteSequence import ExtractedRouteSequence
+from F15_Parser.F15Parse import ParseF15
 from Tokenizer.Tokenize import Tokenize
 
 # Example usage of the ICAO field 15 parser.
-- 
2.43.0


From bd727435776900fb9d5503669570da313df2cd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:43 +0000
Subject: [PATCH 05/14] fix: keep the lat/long point in route order when it
 follows an ATS route

---
 F15_Parser/F15Parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/F15_Parser/F15Parse.py b/F15_Parser/F15Parse.py
index 44899f5..3f9babf 100644
--- a/F15_Parser/F15Parse.py
+++ b/F15_Parser/F15Parse.py
@@ -1380,7 +1380,7 @@ class ParseF15:
                 if sub_type == TokenSubType.F15_SB_PRP_BD or sub_type == TokenSubType.F15_SB_LL_DEG or \
                     sub_type == TokenSubType.F15_SB_LL_MIN or sub_type == TokenSubType.F15_SB_LLBD_DEG or \
                         sub_type == TokenSubType.F15_SB_LLBD_MIN:
-                    self.add_error_and_re_sync(ers, tokens, next_token, 48)
+                    self.add_error_no_re_sync(ers, next_token, 48)
                 self.point(ers, tokens, next_token)
             case TokenBaseType.F15_ROUTE:
                 self.add_error_and_re_sync(ers, tokens, next_token, 53)
-- 
2.43.0


From 6bb9dcd5e82c78e994d635ec9c9422eabe64df4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:16 +0000
Subject: [PATCH 06/14] fix: decode and check the coordinates of a single point
 IFR section

---
 F15_Parser/F15Parse.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/F15_Parser/F15Parse.py b/F15_Parser/F15Parse.py
index 3f9babf..21f3891 100644
--- a/F15_Parser/F15Parse.py
+++ b/F15_Parser/F15Parse.py
@@ -1675,6 +1675,11 @@ class ParseF15:
         token = tokens.get_next_token()
         ex_route_rec = self.add_record(ers, token)
 
+        # Check lat/long and bearing distance semantics
+        if token.get_token_sub_type() != TokenSubType.F15_SB_PRP and \
+                token.get_token_sub_type() != TokenSubType.F15_SB_PRP_AERO:
+            self.assign_lat_long_bearing_distance(ers, token)
+
         # As this rule change is VFR to IFR and this is a speed altitude element,
         # the rules must be IFR
         ex_route_rec.set_flight_rules(self.RULES["I"])
-- 
2.43.0


From 2dc0de67958d75455acbf4110d2f396cf1f9b1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:17 +0000
Subject: [PATCH 07/14] fix: keep parsing after a break end token that ends no
 break section

---
 F15_Parser/F15Parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/F15_Parser/F15Parse.py b/F15_Parser/F15Parse.py
index 21f3891..9005d2b 100644
--- a/F15_Parser/F15Parse.py
+++ b/F15_Parser/F15Parse.py
@@ -1304,6 +1304,8 @@ class ParseF15:
                 self.assign_speed_vfr(ers, tokens, token)
             case TokenBaseType.F15_BREAK_END:
                 self.break_end(ers, tokens, token)
+                # No rule change took place if there are tokens left, carry on with those
+                self.re_sync_parser_after_error(ers, tokens)
             case TokenBaseType.F15_DCT:
                 self.dct(ers, tokens, token)
             case TokenBaseType.F15_STAY:
-- 
2.43.0


From ddaf6087c856b4701003c09bb0313981bcd88c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:36 +0000
Subject: [PATCH 08/14] fix: store a too long break text token on its break
 section

---
 F15_Parser/F15Parse.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/F15_Parser/F15Parse.py b/F15_Parser/F15Parse.py
index 9005d2b..a51fae9 100644
--- a/F15_Parser/F15Parse.py
+++ b/F15_Parser/F15Parse.py
@@ -834,14 +834,15 @@ class ParseF15:
         :param token: The 'break' text token being saved to the 'break' start token;
         :return: None
         """
-        base_type = token.get_token_base_type()
-        if base_type is TokenBaseType.F15_TOO_LONG:
-            self.add_error_and_re_sync(ers, tokens, token, 4)
-
         # Save the token as break text
         last_ers = ers.get_last_element()
         last_ers.append_break_text(token.get_token_string())
 
+        base_type = token.get_token_base_type()
+        if base_type is TokenBaseType.F15_TOO_LONG:
+            self.add_error_and_re_sync(ers, tokens, token, 4)
+            return
+
         sub_type = token.get_token_sub_type()
         cur_break_type = ers.get_last_element().get_flight_rules()
 
-- 
2.43.0


From 29825e58b8bf7393923295bb473c0c05953a4b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:37 +0000
Subject: [PATCH 09/14] fix: report a missing cruise climb slash once and stop
 there

---
 F15_Parser/F15Parse.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/F15_Parser/F15Parse.py b/F15_Parser/F15Parse.py
index a51fae9..c1fb53a 100644
--- a/F15_Parser/F15Parse.py
+++ b/F15_Parser/F15Parse.py
@@ -989,6 +989,7 @@ class ParseF15:
         base_type = next_token.get_token_base_type()
         if base_type is not TokenBaseType.F15_SLASH:
             self.add_error_and_re_sync(ers, tokens, next_token, 26)
+            return
 
         # Skip the forward slash and get the SPEED/ALTITUDE/ALTITUDE or
         # SPEED / ALTITUDE / PLUS token
-- 
2.43.0


From fa8a10dcf9c1471d4d54a69abf038961b2cfac58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:38 +0000
Subject: [PATCH 10/14] fix: only look past a connector for the point a bearing
 and distance start from

---
 F15_Parser/F15Parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/F15_Parser/F15Parse.py b/F15_Parser/F15Parse.py
index c1fb53a..a6237a6 100644
--- a/F15_Parser/F15Parse.py
+++ b/F15_Parser/F15Parse.py
@@ -249,7 +249,7 @@ class ParseF15:
                 # Set azimuth and distance between the two points at the previous
                 # point.
                 self.set_azimuth_and_distance(last_but_one_ers, last_ers)
-            else:
+            elif last_but_one_ers.get_base_type() not in (TokenBaseType.F15_POINT, TokenBaseType.F15_C):
                 # Go back one more ERS element and check if this is a point
                 last_minus_two_ers = ers.get_element_at(ers.get_number_of_elements()-3)
                 if last_minus_two_ers is None:
-- 
2.43.0


From aa5c55f3503b97c310dfe98b2c4efab9498afcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:39 +0000
Subject: [PATCH 11/14] fix: reject a route after a lat/long point with a stay
 time

---
 F15_Parser/F15Parse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/F15_Parser/F15Parse.py b/F15_Parser/F15Parse.py
index a6237a6..bad6f61 100644
--- a/F15_Parser/F15Parse.py
+++ b/F15_Parser/F15Parse.py
@@ -1590,7 +1590,8 @@ class ParseF15:
             case TokenBaseType.F15_POINT:
                 self.point(ers, tokens, next_token)
             case TokenBaseType.F15_ROUTE:
-                self.route(ers, tokens, next_token)
+                # A route after a point, only the point determines if it is allowed
+                self.post_point(ers, tokens, next_token)
             case TokenBaseType.F15_SID_STAR:
                 self.sid_star(ers, tokens, next_token)
             case TokenBaseType.F15_TOO_LONG:
-- 
2.43.0


From a4ca67f9bc8e45d35e3bd2884282ad08bb8f3774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:48 +0000
Subject: [PATCH 12/14] fix: accept nothing but a point as the cruise climb
 point

---
 F15_Parser/F15Parse.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/F15_Parser/F15Parse.py b/F15_Parser/F15Parse.py
index bad6f61..4932a08 100644
--- a/F15_Parser/F15Parse.py
+++ b/F15_Parser/F15Parse.py
@@ -975,6 +975,21 @@ class ParseF15:
         :param token: The point in a cruise/climb element;
         :return: None
         """
+        # Only a point can be the cruise / climb point, a single 'C' is also a point
+        base_type = token.get_token_base_type()
+        match base_type:
+            case TokenBaseType.F15_POINT | TokenBaseType.F15_C:
+                pass
+            case TokenBaseType.F15_UNKNOWN:
+                self.add_error_and_re_sync(ers, tokens, token, 3)
+                return
+            case TokenBaseType.F15_TOO_LONG:
+                self.add_error_and_re_sync(ers, tokens, token, 4)
+                return
+            case _:
+                self.add_error_and_re_sync(ers, tokens, token, 18)
+                return
+
         # Save the cruise / climb point
         self.add_record(ers, token)
 
-- 
2.43.0


From 73d1cc6b770b67fedde3a3f9f591c83311964968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:02 +0000
Subject: [PATCH 13/14] fix: escape XML special characters taken from the field
 text

---
 F15_Parser/ExtractedRouteRecord.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/F15_Parser/ExtractedRouteRecord.py b/F15_Parser/ExtractedRouteRecord.py
index 1fb9f8a..1fe6729 100644
--- a/F15_Parser/ExtractedRouteRecord.py
+++ b/F15_Parser/ExtractedRouteRecord.py
@@ -1,3 +1,5 @@
+from xml.sax.saxutils import escape
+
 from F15_Parser.F15TokenSyntaxDescriptions import TokenBaseType, TokenSubType
 
 
@@ -566,5 +568,5 @@ class ExtractedRouteRecord:
                " altitude_cruise_to_si=\"" + "{0:.2f}".format(self.get_altitude_cruise_to_si()) + "\"" + \
                " latitude=\"" + "{0:>.2f}".format(self.get_latitude()) + "\"" + \
                " longitude=\"" + "{0:>.2f}".format(self.get_longitude()) + "\"" + \
-               " " + attr_name + "=\"" + error_or_break + "\"" + \
-               ">" + self.get_name() + "</" + rec_type + ">"
+               " " + attr_name + "=\"" + escape(error_or_break, {"\"": "&quot;"}) + "\"" + \
+               ">" + escape(self.get_name()) + "</" + rec_type + ">"
-- 
2.43.0


From 303fc1d8b33d0b5850650881d0284075b331828e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:56 +0000
Subject: [PATCH 14/14] fix: tabs and line ends in a text survive the XML
 output

---
 F15_Parser/ExtractedRouteRecord.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/F15_Parser/ExtractedRouteRecord.py b/F15_Parser/ExtractedRouteRecord.py
index 1fe6729..9fc57a1 100644
--- a/F15_Parser/ExtractedRouteRecord.py
+++ b/F15_Parser/ExtractedRouteRecord.py
@@ -568,5 +568,6 @@ class ExtractedRouteRecord:
                " altitude_cruise_to_si=\"" + "{0:.2f}".format(self.get_altitude_cruise_to_si()) + "\"" + \
                " latitude=\"" + "{0:>.2f}".format(self.get_latitude()) + "\"" + \
                " longitude=\"" + "{0:>.2f}".format(self.get_longitude()) + "\"" + \
-               " " + attr_name + "=\"" + escape(error_or_break, {"\"": "&quot;"}) + "\"" + \
-               ">" + escape(self.get_name()) + "</" + rec_type + ">"
+               " " + attr_name + "=\"" + escape(error_or_break, {"\"": "&quot;", "\t": "&#9;", "\n": "&#10;",
+                                                                "\r": "&#13;"}) + "\"" + \
+               ">" + escape(self.get_name(), {"\r": "&#13;"}) + "</" + rec_type + ">"
-- 
2.43.0

