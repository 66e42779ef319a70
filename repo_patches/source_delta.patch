From 3e70587195534dca3f37568ffde38d2bb3ed4115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:45 +0000
Subject: [PATCH 01/69] fix: Color32 read past the end of short colour text
 with leading whitespace or '#'

---
 src/kml/base/color32.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/kml/base/color32.h b/src/kml/base/color32.h
index dcdf8d7..8e31892 100644
--- a/src/kml/base/color32.h
+++ b/src/kml/base/color32.h
@@ -131,13 +131,14 @@ class Color32 {
     // character, skip it. (Google Earth supports this usage, despite its not
     // being common practice.)
     size_t offset = 0;
-    while (isspace(color_abgr[offset])) {
+    while (offset < color_abgr.size() && isspace(color_abgr[offset])) {
       offset ++;
     }
-    if (color_abgr.size() > 0 && color_abgr[offset] == '#') {
+    if (offset < color_abgr.size() && color_abgr[offset] == '#') {
       offset ++;
     }
-    size_t length = color_abgr.size() >= 8 + offset ? 8 : color_abgr.size();
+    size_t length = color_abgr.size() >= 8 + offset ?
+        8 : color_abgr.size() - offset;
     for(size_t i = offset; i < length + offset; ++i) {
       out = out * 16;
       if (color_abgr[i] >= '0' && color_abgr[i] <= '9') {
-- 
2.43.0


From f2b64f3d4c044841611534cf2ef3acc23c05e899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:04 +0000
Subject: [PATCH 02/69] fix: text containing ']]>' or several reserved
 characters was serialized as malformed or altered XML

---
 src/kml/dom/serializer.cc | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/kml/dom/serializer.cc b/src/kml/dom/serializer.cc
index ab25bae..da4cb24 100644
--- a/src/kml/dom/serializer.cc
+++ b/src/kml/dom/serializer.cc
@@ -37,13 +37,21 @@ using kmlbase::ToString;
 namespace kmldom {
 
 static string EnityEscapeXml(const string& xml) {
-  kmlbase::StringMap map;
-  map["&"] = "&amp;";
-  map["<"] = "&lt;";
-  map[">"] = "&gt;";
-  map["'"] = "&apos;";
-  map["\""] = "&quot;";
-  return kmlbase::CreateExpandedStrings(xml, map, "", "");
+  // Replace each reserved character exactly once, in one pass: replacing one
+  // character at a time over the whole string would escape the ampersands of
+  // earlier replacements again.
+  string out;
+  for (size_t i = 0; i < xml.size(); ++i) {
+    switch (xml[i]) {
+      case '&': out.append("&amp;"); break;
+      case '<': out.append("&lt;"); break;
+      case '>': out.append("&gt;"); break;
+      case '\'': out.append("&apos;"); break;
+      case '"': out.append("&quot;"); break;
+      default: out.append(1, xml[i]); break;
+    }
+  }
+  return out;
 }
 
 Serializer::Serializer() : xsd_(*Xsd::GetSchema()) {
@@ -56,8 +64,10 @@ Serializer::Serializer() : xsd_(*Xsd::GetSchema()) {
 const string Serializer::MaybeQuoteString(const string& value) {
   // If there's a CDATA anywhere in this string, it must have been set through
   // the API (since the underlying XML parser will strip it out). We need to
-  // entity-replace any reserved characters.
-  if (value.find("<![CDATA[") != string::npos) {
+  // entity-replace any reserved characters. The same goes for the CDATA
+  // terminator which cannot appear within a CDATA section.
+  if (value.find("<![CDATA[") != string::npos ||
+      value.find("]]>") != string::npos) {
     return EnityEscapeXml(value);
   }
   // If the string contains any reserved characters (but does not have any
-- 
2.43.0


From 093349372e5c8c073c380055524a7b0a9882c28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:04 +0000
Subject: [PATCH 03/69] fix: attribute values were serialized without escaping
 reserved characters

---
 src/kml/base/attributes.cc | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/kml/base/attributes.cc b/src/kml/base/attributes.cc
index 5cc8508..91abb17 100644
--- a/src/kml/base/attributes.cc
+++ b/src/kml/base/attributes.cc
@@ -71,6 +71,24 @@ bool Attributes::Parse(const kmlbase::StringVector& attrs) {
   return true;
 }
 
+// Append the attribute value with every character that cannot appear as-is in
+// a "-quoted XML attribute value escaped.  Whitespace other than space is
+// escaped such that it is not normalized away when parsed again.
+static void AppendEscapedValue(const string& value, string* output) {
+  for (size_t i = 0; i < value.size(); ++i) {
+    switch (value[i]) {
+      case '&': output->append("&amp;"); break;
+      case '<': output->append("&lt;"); break;
+      case '>': output->append("&gt;"); break;
+      case '"': output->append("&quot;"); break;
+      case '\t': output->append("&#9;"); break;
+      case '\n': output->append("&#10;"); break;
+      case '\r': output->append("&#13;"); break;
+      default: output->append(1, value[i]); break;
+    }
+  }
+}
+
 void Attributes::Serialize(string* output) const {
   if (output) {
     StringMapIterator iter = CreateIterator();
@@ -78,7 +96,7 @@ void Attributes::Serialize(string* output) const {
       *output += " ";
       *output += iter.Data().first;
       *output += "=\"";
-      *output += iter.Data().second;
+      AppendEscapedValue(iter.Data().second, output);
       *output += "\"";
     }
   }
-- 
2.43.0


From c5ac031c8e1d275eafb56d3900f3d7c4854b9ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:39 +0000
Subject: [PATCH 04/69] fix: pretty serialization added white space to the text
 of Snippet, linkSnippet and SimpleData

---
 src/kml/dom/xml_serializer.h | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/kml/dom/xml_serializer.h b/src/kml/dom/xml_serializer.h
index 3b03443..78383d0 100644
--- a/src/kml/dom/xml_serializer.h
+++ b/src/kml/dom/xml_serializer.h
@@ -89,7 +89,8 @@ class XmlSerializer : public Serializer {
     : newline_(newline),
       indent_(indent),
       output_(output),
-      start_pending_(false) {
+      start_pending_(false),
+      text_saved_(false) {
   }
 
   virtual ~XmlSerializer() {}
@@ -117,13 +118,16 @@ class XmlSerializer : public Serializer {
       tag_stack_.pop();
     } else {
       tag_stack_.pop();
-      Indent();
+      if (!text_saved_) {
+        Indent();
+      }
       output_->write("</", 2);
       const string& tag_name = xsd_.ElementName(type_id);
       output_->write(tag_name.data(), tag_name.size());
       output_->put('>');
       Newline();
     }
+    text_saved_ = false;
   }
 
   // Emit the XML for the field of the given type with the given content
@@ -148,10 +152,14 @@ class XmlSerializer : public Serializer {
 
   // Save out character data.
   virtual void SaveContent(const string& content, bool maybe_quote) {
-    EmitStart(false);
-    if (maybe_quote) {
+    if (maybe_quote && !content.empty()) {
+      // This is the text of the element: no line break or indentation may be
+      // added to it.
+      EmitStart(false, false);
       WriteQuoted(content);
+      text_saved_ = true;
     } else {
+      EmitStart(false);
       output_->write(content.data(), content.size());
     }
   }
@@ -211,7 +219,7 @@ class XmlSerializer : public Serializer {
     output_->write(quoted.data(), quoted.size());
   }
 
-  bool EmitStart(bool is_nil) {
+  bool EmitStart(bool is_nil, bool newline = true) {
     if (!start_pending_) {
       return false;
     }
@@ -228,7 +236,9 @@ class XmlSerializer : public Serializer {
     } else {
       output_->put('>');
     }
-    Newline();
+    if (newline) {
+      Newline();
+    }
     start_pending_ = false;
     return true;
   }
@@ -238,6 +248,7 @@ class XmlSerializer : public Serializer {
   T* output_;
   std::stack<int> tag_stack_;
   bool start_pending_;
+  bool text_saved_;  // The current element's text was just saved.
   string serialized_attributes_;
 };
 
-- 
2.43.0


From e73cd304cef18d6cbbfc18ae95564c5ebfa8e8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:24 +0000
Subject: [PATCH 05/69] fix: a description within an unknown element corrupted
 the parse of later descriptions

---
 src/kml/dom/kml_handler.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kml/dom/kml_handler.cc b/src/kml/dom/kml_handler.cc
index 08e8625..487d9b6 100644
--- a/src/kml/dom/kml_handler.cc
+++ b/src/kml/dom/kml_handler.cc
@@ -210,7 +210,9 @@ void KmlHandler::EndElement(const string& name) {
   // inside <description> elements. Here we are checking to see if (1) we're
   // inside a closing </description> element and (2) if we're at the end of any
   // possible series of nested description elements.
-  if (name.length() == 11 && name == "description" && --in_description_ == 0) {
+  // A <description> inside of an unknown element was never counted.
+  if (in_description_ > 0 && name.length() == 11 && name == "description" &&
+      --in_description_ == 0) {
     skip_depth_--;
   }
 
-- 
2.43.0


From 4741a0f7fa5f10c9fd43e8ac29ff8b9872ab0a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:00 +0000
Subject: [PATCH 06/69] fix: text and attributes of unknown elements were
 serialized without escaping

---
 src/kml/dom/kml_handler.cc | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/kml/dom/kml_handler.cc b/src/kml/dom/kml_handler.cc
index 487d9b6..aa263b1 100644
--- a/src/kml/dom/kml_handler.cc
+++ b/src/kml/dom/kml_handler.cc
@@ -55,6 +55,20 @@ kMaxNestingDepth = LIBKML_MAX_NESTING_DEPTH;
 
 namespace kmldom {
 
+// Append the parsed (unescaped) character data or attribute value such that
+// the result is raw XML again.
+static void AppendEscaped(const string& s, string* xml) {
+  for (size_t i = 0; i < s.size(); ++i) {
+    switch (s[i]) {
+      case '&': xml->append("&amp;"); break;
+      case '<': xml->append("&lt;"); break;
+      case '>': xml->append("&gt;"); break;
+      case '"': xml->append("&quot;"); break;
+      default: xml->append(1, s[i]); break;
+    }
+  }
+}
+
 KmlHandler::KmlHandler(parser_observer_vector_t& observers)
   : kml_factory_(*KmlFactory::GetFactory()),
     skip_depth_(0),
@@ -330,7 +344,12 @@ bool KmlHandler::CallAddChildObservers(
 // <Placemark><Point><coordinates/></Point></Placemark>
 // <X><Point>foo<coordinates/>bar</Point></P> remains as-is.
 void KmlHandler::CharData(const string& s) {
-  char_data_.top().append(s);
+  if (skip_depth_ > 0 && in_description_ == 0) {
+    // Unknown content is saved as raw XML.
+    AppendEscaped(s, &char_data_.top());
+  } else {
+    char_data_.top().append(s);
+  }
 }
 
 // As with STL pop() methods this is (potentially) destructive.  If the
@@ -357,7 +376,11 @@ void KmlHandler::InsertUnknownStartElement(const string& name,
     top.append(" ");
     top.append(atts.at(i));
     top.append("=\"");
-    top.append(atts.at(i+1));
+    if (in_description_ == 0) {
+      AppendEscaped(atts.at(i+1), &top);
+    } else {
+      top.append(atts.at(i+1));
+    }
     top.append("\"");
   }
   top.append(">");
-- 
2.43.0


From 008c9afd673506aea15c03cda6f9c727f57abdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:13 +0000
Subject: [PATCH 07/69] fix: misplaced elements within Snippet and linkSnippet
 were dropped

---
 src/kml/dom/snippet.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/kml/dom/snippet.cc b/src/kml/dom/snippet.cc
index e5b104a..fddad92 100644
--- a/src/kml/dom/snippet.cc
+++ b/src/kml/dom/snippet.cc
@@ -64,7 +64,12 @@ void SnippetCommon::AddElement(const ElementPtr& element) {
   if (!element) {
     return;
   }
-  set_text(get_char_data());
+  if (element->Type() == Type()) {
+    set_text(get_char_data());
+  } else {
+    // A known KML element inside of a snippet is misplaced: store it.
+    Element::AddElement(element);
+  }
 }
 
 void SnippetCommon::Serialize(Serializer& serializer) const {
-- 
2.43.0


From 71e75e290ad3497e6989a4522c9ea7c038640b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:08 +0000
Subject: [PATCH 08/69] fix: coordinates text without numbers hung the parser
 and newline or tab separated 2d tuples were misread

---
 src/kml/dom/geometry.cc | 134 +++++++++++++++++-----------------------
 1 file changed, 57 insertions(+), 77 deletions(-)

diff --git a/src/kml/dom/geometry.cc b/src/kml/dom/geometry.cc
index ed43273..81671ee 100644
--- a/src/kml/dom/geometry.cc
+++ b/src/kml/dom/geometry.cc
@@ -52,6 +52,36 @@ Coordinates::Coordinates() {
 
 Coordinates::~Coordinates() {}
 
+// The helpers below are used by ParseVec3().  All stop at the end of the string.
+static const char* SkipWhitespace(const char* cstr) {
+  while (isspace(static_cast<unsigned char>(*cstr))) { ++cstr; }
+  return cstr;
+}
+
+// This returns the start of the next [-][.]digit.
+static const char* SkipToNumber(const char* cstr) {
+  for (; *cstr; ++cstr) {
+    const char* cp = cstr;
+    if (*cp == '-') { ++cp; }
+    if (*cp == '.') { ++cp; }
+    if (isdigit(static_cast<unsigned char>(*cp))) {
+      break;
+    }
+  }
+  return cstr;
+}
+
+// This returns everything up to the next comma or whitespace and advances to
+// there.
+static string GetToken(const char** cstr) {
+  const char* first = *cstr;
+  while (**cstr && **cstr != ',' &&
+         !isspace(static_cast<unsigned char>(**cstr))) {
+    ++*cstr;
+  }
+  return string(first, *cstr - first);
+}
+
 // This parses off a Vec3 from the given string and returns a pointer
 // to the end of chars consumed.  The purpose is for use in the inner loop
 // of the overall parse of a <coordinates> string.  This handles both 2d and
@@ -81,97 +111,47 @@ Coordinates::~Coordinates() {}
 // like this: "1.1*2.2,3,3" will become "1.1,3.3,0.0". This precisely matches
 // the precent for parsing of bad coordinate strings set by Google Earth.
 bool Coordinates::ParseVec3(const char* cstr, char** nextp, Vec3* vec) {
-  
   if (!cstr || !vec) {  // Not much to do w/o input or output.
     return false;
   }
-  bool done = false;
-  
-  int k;
-  char lon[1024];
-  k = 0;
-  while(*cstr && *cstr!='-' && !isdigit(*cstr)) { ++cstr; }
-  const char *first = cstr;
-  
-  while (*cstr && *cstr!=' ' && *cstr!='\n' && *cstr!=',') { ++cstr; ++k; }
-  
-  memcpy(lon, first, k);
-  lon[k] = '\0'; 
-  string lon_s = string(lon);
-  if( lon_s.empty()) { done = false; return done; }
-  
-  double longitude; 
-  kmlbase::StringToDouble(lon_s, &longitude);
-  vec->set(0, longitude);
-  
-  
-  while(*cstr && *cstr!='-' && *cstr!='\n' && !isdigit(*cstr)) { ++cstr; ++k; }
-  
-  char lat[1024];
-  first = cstr;
-  k = 0;
-  int b = 0;
-  while (*cstr  && *cstr!=',') {
-    if( *cstr==' ') {
-      b = 1;  
-      break;
-    }
-    ++cstr;  ++k;
+
+  cstr = SkipToNumber(cstr);
+  if (!*cstr) {
+    return false;
   }
-  memcpy(lat, first, k);
-  lat[k] = '\0';
-  done = true;
-  
-  string lat_s = string(lat);
+  double longitude = 0.0;
+  kmlbase::StringToDouble(GetToken(&cstr), &longitude);
+  vec->set(0, longitude);
+
+  cstr = SkipToNumber(cstr);
   double latitude = 0.0;
-  if( !lat_s.empty())
-    kmlbase::StringToDouble(lat_s, &latitude);
-  
+  kmlbase::StringToDouble(GetToken(&cstr), &latitude);
   vec->set(1, latitude);
-  
-  
-  while(*cstr && *cstr!='-'&& !isdigit(*cstr)) { ++cstr; ++k; }
-  
-  if ( b < 1) {
-    char alt[1024];
-    first = cstr;
-    k = 0;
-    while (*cstr && *cstr!=',') {
-      if( *cstr==' ') {
-	b = 1;  
-	break;
-      }
-      ++cstr;  ++k;
-    }
-    memcpy(alt, first, k); 
-    alt[k] = '\0';
-    
-    string alt_s = string(alt);
-    double altitude;
-    if( !alt_s.empty() ) {
-      kmlbase::StringToDouble(alt_s, &altitude);
+
+  // There is an altitude only if a comma follows the latitude.
+  vec->clear_altitude();
+  cstr = SkipWhitespace(cstr);
+  if (*cstr == ',') {
+    cstr = SkipToNumber(cstr);
+    double altitude = 0.0;
+    if (kmlbase::StringToDouble(GetToken(&cstr), &altitude)) {
       vec->set(2, altitude);
     }
   }
-  
-  while(*cstr && *cstr!='-' && !isdigit(*cstr)) ++cstr;
-  
-  *nextp = const_cast<char*>(cstr);
-  
-  return done;
+
+  if (nextp) {
+    *nextp = const_cast<char*>(SkipToNumber(cstr));
+  }
+  return true;
 }
 
 // The char_data is everything between <coordinates> elements including
 // leading and trailing whitespace.
 void Coordinates::Parse(const string& char_data) {
-  const char* cstr = char_data.c_str();
-  const char* endp = cstr + char_data.size();
-  char* next = const_cast<char*>(cstr);
-  while (next != endp) {
-    Vec3 vec;
-    if (ParseVec3(next, &next, &vec)) {
-      coordinates_array_.push_back(vec);
-    }
+  char* next = const_cast<char*>(char_data.c_str());
+  Vec3 vec;
+  while (ParseVec3(next, &next, &vec)) {
+    coordinates_array_.push_back(vec);
   }
 }
 
-- 
2.43.0


From df595ab901900a0cc9ea0ff5a57ff0f453d0182a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:13 +0000
Subject: [PATCH 09/69] fix: gx:coord and gx:angles separated by other than
 single spaces were misread

---
 src/kml/dom/geometry.cc | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/kml/dom/geometry.cc b/src/kml/dom/geometry.cc
index 81671ee..9046a74 100644
--- a/src/kml/dom/geometry.cc
+++ b/src/kml/dom/geometry.cc
@@ -535,16 +535,15 @@ void GxTrack::Parse(const string& char_data, std::vector<Vec3>* out) {
   if (!out) {
     return;
   }
-  // TODO: this is a little heavy. Optimization along the lines of
-  // Coordinates::Parse may be required.
-  std::vector<string> s;
-  kmlbase::SplitStringUsing(char_data, " ", &s);
   kmlbase::Vec3 vec;
-  for (size_t i = 0; i < s.size(); i++) {
-    double d;
-    kmlbase::FromString(s[i], &d);
-    vec.set(static_cast<int>(i), d);
-    if (i > 2) break;
+  const char* cstr = SkipWhitespace(char_data.c_str());
+  for (int i = 0; i < 3 && *cstr; ++i) {
+    const char* first = cstr;
+    while (*cstr && !isspace(static_cast<unsigned char>(*cstr))) { ++cstr; }
+    double d = 0.0;
+    kmlbase::FromString(string(first, cstr - first), &d);
+    vec.set(i, d);
+    cstr = SkipWhitespace(cstr);
   }
   out->push_back(vec);
 }
-- 
2.43.0


From c5275aebf77a858a6fd1fd52a64da4837c0e923e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:25 +0000
Subject: [PATCH 10/69] fix: SplitStringUsing kept part of a separator longer
 than one character and threw on an empty one

---
 src/kml/base/string_util.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kml/base/string_util.cc b/src/kml/base/string_util.cc
index a865922..c954b5c 100644
--- a/src/kml/base/string_util.cc
+++ b/src/kml/base/string_util.cc
@@ -64,9 +64,10 @@ void SplitStringUsing(const string& input, const string& split_string,
                       std::vector<string>* output) {
   string iter = input;
   size_t separator;
-  while ((separator = iter.find(split_string)) != string::npos) {
+  while (!split_string.empty() &&
+         (separator = iter.find(split_string)) != string::npos) {
     output->push_back(iter.substr(0, separator));
-    iter = iter.substr(separator+1);
+    iter = iter.substr(separator + split_string.size());
   }
   output->push_back(iter);
 }
-- 
2.43.0


From 7069441f698c569167405857252a64f11e774865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:12 +0000
Subject: [PATCH 11/69] fix: entity expansion skipped or re-expanded references
 and schema data labels leaked or vanished

---
 src/kml/base/string_util.cc     | 12 ++++++------
 src/kml/engine/entity_mapper.cc | 19 +++++++++----------
 2 files changed, 15 insertions(+), 16 deletions(-)

diff --git a/src/kml/base/string_util.cc b/src/kml/base/string_util.cc
index c954b5c..4ced86c 100644
--- a/src/kml/base/string_util.cc
+++ b/src/kml/base/string_util.cc
@@ -46,15 +46,15 @@ string CreateExpandedStrings(const string& in,
   StringMap::const_iterator itr = string_map.begin();
   for (itr = string_map.begin(); itr != string_map.end(); ++itr)  {
     string candidate(start + itr->first + end);
+    if (candidate.empty()) {
+      continue;
+    }
     size_t start_pos = out.find(candidate);
     while (start_pos != string::npos) {
       out.replace(start_pos, candidate.size(), itr->second);
-      // Avoid an infinite loop if the value contains the key. Allow the first
-      // replacement to happen, then bail.
-      if (itr->second.find(itr->first) != string::npos) {
-        break;
-      }
-      start_pos = out.find(candidate, start_pos + candidate.size());
+      // Continue after the inserted value: this avoids an infinite loop if the
+      // value contains the key.
+      start_pos = out.find(candidate, start_pos + itr->second.size());
     }
   }
   return out;
diff --git a/src/kml/engine/entity_mapper.cc b/src/kml/engine/entity_mapper.cc
index 4f87c40..33fa801 100644
--- a/src/kml/engine/entity_mapper.cc
+++ b/src/kml/engine/entity_mapper.cc
@@ -140,6 +140,7 @@ void EntityMapper::GatherDataFields(const DataPtr& data) {
 void EntityMapper::GatherSchemaDataFields(const SchemaDataPtr& schemadata) {
   // We need to take the schemaUrl and find the <Schema> with that id.
   schemadata_prefix_ = "/";
+  simplefield_name_map_.clear();
   if (schemadata->has_schemaurl()) {
     // We need to get the name= attr of the <Schema> with the id= attr that
     // matches this schemaUrl.
@@ -184,17 +185,15 @@ void EntityMapper::GatherSimpleDataFields(const SimpleDataPtr& simpledata) {
       simpledata->get_text();
   }
   // If there is a schemaUrl, the names we will use for display are in
-  // the populated map. If there isn't, the map is empty and we'll use the
-  // name attr of the SimpleData element.
+  // the populated map. If there isn't one for this name we'll use the name attr
+  // of the SimpleData element.
   if (alt_markup_map_) {
-    if (simplefield_name_map_.empty()) {
-      alt_markup_map_->push_back(
-          std::make_pair(simpledata->get_name(), simpledata->get_text()));
-    } else {
-      alt_markup_map_->push_back(
-          std::make_pair(simplefield_name_map_[simpledata->get_name()],
-                         simpledata->get_text()));
-    }
+    StringMap::const_iterator itr =
+      simplefield_name_map_.find(simpledata->get_name());
+    alt_markup_map_->push_back(
+        std::make_pair(itr == simplefield_name_map_.end() ?
+                       simpledata->get_name() : itr->second,
+                       simpledata->get_text()));
   }
 }
 
-- 
2.43.0


From b5605e49ff7e2c45cd984cafc69e670be74fa97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:37 +0000
Subject: [PATCH 12/69] fix: stopped, truncated or failed parses were accepted
 or reported without an error message

---
 src/kml/base/expat_parser.cc | 6 ++++--
 src/kml/engine/kml_stream.cc | 9 +++++++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/kml/base/expat_parser.cc b/src/kml/base/expat_parser.cc
index 9a11720..26a162c 100644
--- a/src/kml/base/expat_parser.cc
+++ b/src/kml/base/expat_parser.cc
@@ -143,7 +143,7 @@ bool ExpatParser::ParseInternalBuffer(size_t len, string* errors,
 // Private.
 bool ExpatParser::_ParseString(const string& xml, string* errors) {
   int xml_size = static_cast<int>(xml.size());
-  XML_Status status = XML_Parse(parser_, xml.c_str(), xml_size, xml_size);
+  XML_Status status = XML_Parse(parser_, xml.c_str(), xml_size, XML_TRUE);
   if (status != XML_STATUS_OK && errors) {
     // This is the other half of XML_StopParser() which is our way of
     // stopping expat if the root element is not KML.
@@ -161,8 +161,10 @@ void ExpatParser::ReportError(XML_Parser parser, string* errors) {
   if (!errors) {
     return;
   }
+  const XML_LChar* error_string = XML_ErrorString(XML_GetErrorCode(parser));
   std::stringstream strstream;
-  strstream << XML_ErrorString(XML_GetErrorCode(parser));
+  // There is no error code if a handler stopped the parse.
+  strstream << (error_string ? error_string : "Invalid root element");
   strstream << " on line ";
   strstream << XML_GetCurrentLineNumber(parser);
   strstream << " at offset ";
diff --git a/src/kml/engine/kml_stream.cc b/src/kml/engine/kml_stream.cc
index b6bd25e..ab46317 100644
--- a/src/kml/engine/kml_stream.cc
+++ b/src/kml/engine/kml_stream.cc
@@ -51,6 +51,7 @@ KmlStream* KmlStream::ParseFromIstream(
   // Perform buffered parse
   kmlbase::ExpatParser parser(&kml_handler, false);
   const int kBufSize = 4096;
+  bool parsed_to_end = false;
   while (input->good()) {
     if (void* buf = parser.GetInternalBuffer(kBufSize)) {
       std::streamsize read_size =
@@ -61,6 +62,7 @@ KmlStream* KmlStream::ParseFromIstream(
                                       errors, input->eof())) {
         return NULL;  // Parse error
       }
+      parsed_to_end = input->eof();
     } else {
       if (errors) {
         *errors = "memory error";
@@ -69,6 +71,13 @@ KmlStream* KmlStream::ParseFromIstream(
     }
   }
 
+  if (!parsed_to_end) {
+    if (errors) {
+      *errors = "input could not be read to its end";
+    }
+    return NULL;
+  }
+
   // Parse succeeded.  Construct KmlStream.
   KmlStream* kml_stream = new KmlStream;
   kml_stream->set_root(kml_handler.PopRoot());
-- 
2.43.0


From dbf29c3113399ce64dde9fed2578da4214193a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:06 +0000
Subject: [PATCH 13/69] fix: old-style Schema names of known elements crashed
 the parser and its data leaked between features

---
 src/kml/dom/kml_handler.cc | 40 +++++++++++++++++++++++++++++---------
 src/kml/dom/kml_handler.h  |  3 +++
 2 files changed, 34 insertions(+), 9 deletions(-)

diff --git a/src/kml/dom/kml_handler.cc b/src/kml/dom/kml_handler.cc
index aa263b1..8976181 100644
--- a/src/kml/dom/kml_handler.cc
+++ b/src/kml/dom/kml_handler.cc
@@ -114,6 +114,13 @@ void KmlHandler::StartElement(const string& name,
     return;
   }
 
+  if (in_old_schema_placemark_) {
+    // Markup within a field of an old Schema placemark is part of its text.
+    InsertUnknownStartElement(name, attrs);
+    skip_depth_++;
+    return;
+  }
+
   // If we see <Schema parent=""> then we attempt to parse the old Schema
   // usage outlined in the header. The name of the schema is stored in the
   // old_schema_name_ string.
@@ -138,7 +145,10 @@ void KmlHandler::StartElement(const string& name,
     static_cast<KmlDomType>(Xsd::GetSchema()->ElementId(name));
 
   // If we're parsing old Schema usage, we force the creation of a Placemark.
-  if (!old_schema_name_.empty() && name == old_schema_name_) {
+  const bool is_old_schema_placemark =
+      !old_schema_name_.empty() && name == old_schema_name_ &&
+      !old_schema_placemark_ && name != "Schema";
+  if (is_old_schema_placemark) {
     // Treat this as a Placemark.
     type_id = Type_Placemark;
   }
@@ -163,7 +173,8 @@ void KmlHandler::StartElement(const string& name,
     }
   } else if (xsd_type == XSD_SIMPLE_TYPE) {
     element = kml_factory_.CreateFieldById(type_id);
-  } else if (xsd_type == XSD_UNKNOWN && !old_schema_name_.empty()) {
+  } else if (xsd_type == XSD_UNKNOWN && old_schema_placemark_ &&
+             stack_.top() == old_schema_placemark_) {
     // We might be parsing one of the children of the old schema usage.
     in_old_schema_placemark_ = ParseOldSchemaChild(name, simplefield_name_vec_,
                                                    &simpledata_vec_);
@@ -189,6 +200,9 @@ void KmlHandler::StartElement(const string& name,
   }
   // This is a known element.  Push onto parse stack and gather content.
   stack_.push(element);
+  if (is_old_schema_placemark) {
+    old_schema_placemark_ = element;
+  }
 
   // We need to permit parsing of un-CDATA'd markup inside <description>
   // elements. We bump the skip counter here as if we'd encountered an unknown
@@ -234,7 +248,7 @@ void KmlHandler::EndElement(const string& name) {
     // We're inside an unknown element. Build the closing tag, decrement
     // the skip counter and then check if we're back to known KML.
     InsertUnknownEndElement(name);
-    if (--skip_depth_ == 0) {
+    if (--skip_depth_ == 0 && !in_old_schema_placemark_) {
       // The next element will be known KML. Push the gathered char_data_ up
       // to Element as a string for serializiation later on.
       char_data_.top().append("\n");
@@ -287,13 +301,17 @@ void KmlHandler::EndElement(const string& name) {
 
   // Handle the case of reaching the closing of an old-style </Schema>.
   if (!old_schema_name_.empty()) {
-    if (name.length() == 6 && name == "Schema") {
-      HandleOldSchemaEndElement(AsSchema(child), old_schema_name_,
+    const SchemaPtr schema = AsSchema(child);
+    if (schema && schema->GetUnknownAttributes() &&
+        schema->GetUnknownAttributes()->FindValue("parent", NULL)) {
+      HandleOldSchemaEndElement(schema, old_schema_name_,
                                 &simplefield_name_vec_);
-    } else if (name == old_schema_name_) {
+    } else if (child == old_schema_placemark_) {
       // Or that of its Placemark substitute.
-      HandleOldSchemaParentEndElement(AsPlacemark(child), old_schema_name_,
+      HandleOldSchemaParentEndElement(AsPlacemark(child), name,
                                       kml_factory_, simpledata_vec_);
+      simpledata_vec_.clear();
+      old_schema_placemark_ = NULL;
     }
   }
 
@@ -438,6 +456,7 @@ void KmlHandler::HandleOldSchemaEndElement(
     return;
   }
   schema->set_id(old_schema_name + "_id");
+  simplefield_name_vec->clear();
   // TODO: nuke the parent="Placemark" attr.
   for (size_t i = 0; i < schema->get_simplefield_array_size(); i++) {
     if (const SimpleFieldPtr& simplefield =
@@ -459,7 +478,8 @@ void KmlHandler::HandleOldSchemaParentEndElement(
   // element. Take the SimpleData elements we've been creating from its
   // children and hand them to an ExtendedData, then give that to the
   // parent placemark.
-  ExtendedDataPtr extendeddata = kml_factory.CreateExtendedData();
+  ExtendedDataPtr extendeddata = placemark->has_extendeddata() ?
+      placemark->get_extendeddata() : kml_factory.CreateExtendedData();
   SchemaDataPtr schemadata = kml_factory.CreateSchemaData();
   schemadata->set_schemaurl(old_schema_name + "_id");
   std::vector<SimpleDataPtr>::const_iterator itr =
@@ -468,7 +488,9 @@ void KmlHandler::HandleOldSchemaParentEndElement(
     schemadata->add_simpledata(*itr);
   }
   extendeddata->add_schemadata(schemadata);
-  placemark->set_extendeddata(extendeddata);
+  if (!placemark->has_extendeddata()) {
+    placemark->set_extendeddata(extendeddata);
+  }
 }
 
 }  // end namespace kmldom
diff --git a/src/kml/dom/kml_handler.h b/src/kml/dom/kml_handler.h
index 95fde30..96ccace 100644
--- a/src/kml/dom/kml_handler.h
+++ b/src/kml/dom/kml_handler.h
@@ -120,6 +120,9 @@ private:
   // a separate class created only when needed.
   bool in_old_schema_placemark_;
   string old_schema_name_;
+  // The Placemark being parsed as the substitute of an old-style Schema's
+  // element, if any.
+  ElementPtr old_schema_placemark_;
   kmlbase::StringVector simplefield_name_vec_;
   std::vector<SimpleDataPtr> simpledata_vec_;
 
-- 
2.43.0


From 2919d59a86c71b0f1b5e891d084c5131c2be2e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:46 +0000
Subject: [PATCH 14/69] fix: ParseAtom used an uninitialised parser to stop at
 an unknown root or too deep nesting

---
 src/kml/base/expat_handler.h     | 1 +
 src/kml/base/expat_handler_ns.cc | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/kml/base/expat_handler.h b/src/kml/base/expat_handler.h
index da7c026..41f9953 100644
--- a/src/kml/base/expat_handler.h
+++ b/src/kml/base/expat_handler.h
@@ -36,6 +36,7 @@ class Attributes;
 // This declares the pure virtual ExpatHandler interface.
 class ExpatHandler {
 public:
+  ExpatHandler() : parser_(NULL) {}
   virtual ~ExpatHandler() {}
   virtual void StartElement(const string& name,
                             const StringVector& atts) = 0;
diff --git a/src/kml/base/expat_handler_ns.cc b/src/kml/base/expat_handler_ns.cc
index 3ad0b93..99db884 100644
--- a/src/kml/base/expat_handler_ns.cc
+++ b/src/kml/base/expat_handler_ns.cc
@@ -59,6 +59,8 @@ const string ExpatHandlerNs::TranslatePrefixedName(
 
 void ExpatHandlerNs::StartElement(const string& prefixed_name,
                                   const kmlbase::StringVector& atts) {
+  // The inner handler stops the parse by way of the parser in use.
+  expat_handler_->set_parser(get_parser());
   expat_handler_->StartElement(TranslatePrefixedName(prefixed_name), atts);
 }
 
-- 
2.43.0


From ac757aa10fc04f4bf6666f0cfd6aee4530e4abc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:56 +0000
Subject: [PATCH 15/69] fix: attributes from an odd number of strings threw an
 exception

---
 src/kml/base/attributes.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/base/attributes.cc b/src/kml/base/attributes.cc
index 91abb17..0b5c6dd 100644
--- a/src/kml/base/attributes.cc
+++ b/src/kml/base/attributes.cc
@@ -62,7 +62,7 @@ bool Attributes::Parse(const char** attrs) {
 
 bool Attributes::Parse(const kmlbase::StringVector& attrs) {
   for (unsigned int i = 0; i < attrs.size() ; i += 2) {
-    if (attrs.size() - i < 1)
+    if (attrs.size() - i < 2)  // Quietly ignore unpaired last item.
       break;
     string attr_name = attrs.at(i);
     string attr_val = attrs.at(i+1);
-- 
2.43.0


From 0c53072e4a03063836a8d3394f717c4398df42bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:39 +0000
Subject: [PATCH 16/69] fix: xal:LocalityName was dropped on serialization

---
 src/kml/dom/xal.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kml/dom/xal.cc b/src/kml/dom/xal.cc
index 08f597e..cc8ea07 100644
--- a/src/kml/dom/xal.cc
+++ b/src/kml/dom/xal.cc
@@ -164,6 +164,9 @@ void XalLocality::AddElement(const ElementPtr& element) {
 
 void XalLocality::Serialize(Serializer& serializer) const {
   ElementSerializer element_serializer(*this, serializer);
+  if (has_localityname()) {
+    serializer.SaveFieldById(Type_xalLocalityName, get_localityname());
+  }
   if (has_thoroughfare()) {
     serializer.SaveElement(get_thoroughfare());
   }
-- 
2.43.0


From f53d41291f0635150fe49b4329fd085586762b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:44 +0000
Subject: [PATCH 17/69] fix: phoneNumber was serialized before
 xal:AddressDetails, out of schema order

---
 src/kml/dom/feature.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kml/dom/feature.cc b/src/kml/dom/feature.cc
index 361eed0..a5b8d81 100644
--- a/src/kml/dom/feature.cc
+++ b/src/kml/dom/feature.cc
@@ -148,12 +148,12 @@ void Feature::SerializeBeforeStyleSelector(Serializer& serializer) const {
   if (has_address()) {
     serializer.SaveFieldById(Type_address, get_address());
   }
-  if (has_phonenumber()) {
-    serializer.SaveFieldById(Type_phoneNumber, get_phonenumber());
-  }
   if (has_xaladdressdetails()) {
     serializer.SaveElement(get_xaladdressdetails());
   }
+  if (has_phonenumber()) {
+    serializer.SaveFieldById(Type_phoneNumber, get_phonenumber());
+  }
   if (has_snippet()) {
     serializer.SaveElement(get_snippet());
   }
-- 
2.43.0


From 8f0548ee84cac11aff989d3d14792a133a64934b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:12 +0000
Subject: [PATCH 18/69] fix: tour primitives of a gx:Playlist had no parent and
 NULL ones were kept

---
 src/kml/dom/gx_tour.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/dom/gx_tour.cc b/src/kml/dom/gx_tour.cc
index 0322aa5..e1c9cf4 100644
--- a/src/kml/dom/gx_tour.cc
+++ b/src/kml/dom/gx_tour.cc
@@ -83,7 +83,7 @@ GxPlaylist::~GxPlaylist() {}
 
 void GxPlaylist::add_gx_tourprimitive(
     const GxTourPrimitivePtr& gx_tourprimitive) {
-  gx_tourprimitive_array_.push_back(gx_tourprimitive);
+  AddComplexChild(gx_tourprimitive, &gx_tourprimitive_array_);
 }
 
 size_t GxPlaylist::get_gx_tourprimitive_array_size() const {
-- 
2.43.0


From bd8685515f72fdb8f59635eaeac891971331a414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:23 +0000
Subject: [PATCH 19/69] fix: the text of an enumeration number outside the
 enumeration was read past the table's end

---
 src/kml/dom/xsd.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/kml/dom/xsd.cc b/src/kml/dom/xsd.cc
index 628ddfc..cc2ccfe 100644
--- a/src/kml/dom/xsd.cc
+++ b/src/kml/dom/xsd.cc
@@ -108,7 +108,12 @@ const int size = sizeof(kKml22Enums)/sizeof(XsdSimpleTypeEnum);
 
   for (int i = 0; i < size; ++i) {
     if (kKml22Enums[i].type_id == type_id) {
-      return kKml22Enums[i].enum_value_list[enum_id];
+      const char** enum_value_list = kKml22Enums[i].enum_value_list;
+      for (int j = 0; enum_value_list[j]; ++j) {
+        if (j == enum_id) {
+          return enum_value_list[j];
+        }
+      }
     }
   }
   return string();
-- 
2.43.0


From a363dfcd945804255616c18a3383acda18407b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:34 +0000
Subject: [PATCH 20/69] fix: a SimpleField could be cast to a
 gx:SimpleArrayField

---
 src/kml/dom/schema.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/kml/dom/schema.h b/src/kml/dom/schema.h
index 4d26b00..0aa389f 100644
--- a/src/kml/dom/schema.h
+++ b/src/kml/dom/schema.h
@@ -106,9 +106,11 @@ class SimpleField : public BasicElement<Type_SimpleField> {
 class GxSimpleArrayField : public SimpleField {
  public:
   virtual ~GxSimpleArrayField();
-  virtual KmlDomType Type() const { return Type_GxSimpleArrayField; }
+  // This static method makes the class useable with ElementCast.
+  static KmlDomType ElementType() { return Type_GxSimpleArrayField; }
+  virtual KmlDomType Type() const { return ElementType(); }
   virtual bool IsA(KmlDomType type) const {
-    return type == Type_GxSimpleArrayField || SimpleField::IsA(type);
+    return type == ElementType() || SimpleField::IsA(type);
   }
 
   // Visitor API methods, see visitor.h.
-- 
2.43.0


From 891524342c57daf84abb800679f9b2161c454f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:06 +0000
Subject: [PATCH 21/69] fix: cloning a text element with misplaced children
 mixed up or recursed into its character data

---
 src/kml/engine/clone.cc | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/kml/engine/clone.cc b/src/kml/engine/clone.cc
index 91069e9..17f9e58 100644
--- a/src/kml/engine/clone.cc
+++ b/src/kml/engine/clone.cc
@@ -63,6 +63,7 @@ class ElementReplicator : public kmldom::Serializer {
     ElementPtr clone = KmlFactory::GetFactory()->CreateElementById(id);
     clone->ParseAttributes(attributes.Clone());
     clone_stack_.push(clone);
+    char_data_stack_.push(string());
   }
 
   // Serializer::End() is called at the end of a complex element.
@@ -73,9 +74,10 @@ class ElementReplicator : public kmldom::Serializer {
     // those complex elements which have character data.
     // TODO: refactor the special-casing in KmlHandler::EndElement() such that
     // it can be used from here.  Using child->AddElement(child) is dangerous.
-    if (!char_data_.empty()) {
-      child->set_char_data(char_data_);
-      char_data_.clear();
+    const string char_data = char_data_stack_.top();
+    char_data_stack_.pop();
+    if (!char_data.empty()) {
+      child->set_char_data(char_data);
       // NOTE: This very much expects this to mean "parse yourself".  If
       // this falls through to Element::AddChild() this will make the element
       // a child of itself by putting itself in the misplaced elements array.
@@ -126,8 +128,8 @@ class ElementReplicator : public kmldom::Serializer {
       if (clone_stack_.size() > 0) {
         clone_stack_.top()->AddUnknownElement(content);
       }
-    } else {
-      char_data_.append(content);
+    } else if (!char_data_stack_.empty()) {
+      char_data_stack_.top().append(content);
     }
   }
 
@@ -154,7 +156,9 @@ class ElementReplicator : public kmldom::Serializer {
  private:
   // This stack operates akin to the stack in the parser.
   std::stack<ElementPtr> clone_stack_;
-  string char_data_;
+  // The character data of each element on the clone stack.  This is kept per
+  // element as any element with character data can have (misplaced) children.
+  std::stack<string> char_data_stack_;
   // This flag indicates that we're serializing an array of unknown elements.
   // See BeginElementArray(), EndElementArray(), and SaveContent() above.
   bool serializing_unknown_;
-- 
2.43.0


From 40b658cb416d6191e63226ba64ddfe8bb4fff6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:23 +0000
Subject: [PATCH 22/69] fix: fields and attributes of misplaced elements were
 taken for those of the element they are in

---
 src/kml/dom/element.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/kml/dom/element.cc b/src/kml/dom/element.cc
index aaceeb0..2a245a2 100644
--- a/src/kml/dom/element.cc
+++ b/src/kml/dom/element.cc
@@ -66,8 +66,15 @@ void Element::AddUnknownElement(const string& s) {
 void Element::SerializeUnknown(Serializer& serializer) const {
   // First serialize the misplaced elements:
   for (size_t i = 0; i < unknown_legal_elements_array_.size(); ++i) {
-    // Anything derived from Element implements a Serialize() method.
-    unknown_legal_elements_array_[i]->Serialize(serializer);
+    const ElementPtr& element = unknown_legal_elements_array_[i];
+    if (Xsd::GetSchema()->ElementType(element->Type()) == XSD_COMPLEX_TYPE) {
+      // A misplaced complex element is saved as a child like any other such
+      // that no serializer mistakes its content for that of this element.
+      serializer.SaveElement(element);
+    } else {
+      // Anything derived from Element implements a Serialize() method.
+      element->Serialize(serializer);
+    }
   }
   // Now serialize unknown elements:
   // Announce to the Serializer that the next N SaveContent() are each
-- 
2.43.0


From 0b3bf40508d7ede949c5812e82512aadc726aeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:42 +0000
Subject: [PATCH 23/69] fix: merging elements did not merge the text of
 Snippet, linkSnippet and SimpleData

---
 src/kml/engine/merge.cc | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/kml/engine/merge.cc b/src/kml/engine/merge.cc
index ac9171a..7a04802 100644
--- a/src/kml/engine/merge.cc
+++ b/src/kml/engine/merge.cc
@@ -49,7 +49,7 @@ class FieldMerger : public Serializer {
  public:
   // The target is expected to be a complex element.
   FieldMerger(ElementPtr target)
-      : target_(target) {}
+      : target_(target), serializing_unknown_(false) {}
 
   virtual ~FieldMerger() {}
 
@@ -99,8 +99,36 @@ class FieldMerger : public Serializer {
     SaveFieldById(type_id, color.to_string_abgr());
   }
 
+  // Any unknown elements are saved with SaveContent() between these two.
+  virtual void BeginElementArray(int type_id, size_t element_count) {
+    serializing_unknown_ = type_id == kmldom::Type_Unknown;
+  }
+  virtual void EndElementArray(int type_id) {
+    serializing_unknown_ = false;
+  }
+
+  // This sets the character data of those elements which have such.
+  virtual void SaveContent(const string& content, bool maybe_quote) {
+    if (serializing_unknown_ || content.empty()) {
+      return;
+    }
+    switch (target_->Type()) {
+      case kmldom::Type_linkSnippet:
+      case kmldom::Type_SimpleData:
+      case kmldom::Type_Snippet:
+        // These elements parse their character data on AddElement() of
+        // themselves.  See KmlHandler::EndElement().
+        target_->set_char_data(content);
+        target_->AddElement(target_);
+        break;
+      default:
+        break;
+    }
+  }
+
  private:
   ElementPtr target_;
+  bool serializing_unknown_;
 };
 
 // This is the implementation of the public API function to merge the
-- 
2.43.0


From 31263db3e48eabcc7ce70b2f88fe63998b0e9805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:47 +0000
Subject: [PATCH 24/69] fix: merging elements merged arrays into one element
 instead of appending to the target's array

---
 src/kml/dom/gx_tour.cc            |  6 +--
 src/kml/dom/networklinkcontrol.cc |  4 +-
 src/kml/engine/merge.cc           | 86 +++++++++++++++++++++----------
 3 files changed, 61 insertions(+), 35 deletions(-)

diff --git a/src/kml/dom/gx_tour.cc b/src/kml/dom/gx_tour.cc
index e1c9cf4..dcf1016 100644
--- a/src/kml/dom/gx_tour.cc
+++ b/src/kml/dom/gx_tour.cc
@@ -105,10 +105,8 @@ void GxPlaylist::AddElement(const ElementPtr& element) {
 
 void GxPlaylist::Serialize(Serializer& serializer) const {
   ElementSerializer element_serializer(*this, serializer);
-  for (size_t i = 0; i < get_gx_tourprimitive_array_size(); ++i) {
-    serializer.SaveElementGroup(get_gx_tourprimitive_array_at(i),
-                                Type_GxTourPrimitive);
-  }
+  serializer.SaveElementGroupArray(gx_tourprimitive_array_,
+                                   Type_GxTourPrimitive);
 }
 
 void GxPlaylist::Accept(Visitor* visitor) {
diff --git a/src/kml/dom/networklinkcontrol.cc b/src/kml/dom/networklinkcontrol.cc
index fa1aaed..52676e4 100644
--- a/src/kml/dom/networklinkcontrol.cc
+++ b/src/kml/dom/networklinkcontrol.cc
@@ -178,9 +178,7 @@ void Update::Serialize(Serializer& serializer) const {
   if (has_targethref()) {
     serializer.SaveFieldById(Type_targetHref, get_targethref());
   }
-  for (size_t i = 0; i < updateoperation_array_.size(); ++i) {
-    serializer.SaveElement(get_updateoperation_array_at(i));
-  }
+  serializer.SaveElementArray(updateoperation_array_);
 }
 
 void Update::Accept(Visitor* visitor) {
diff --git a/src/kml/engine/merge.cc b/src/kml/engine/merge.cc
index 7a04802..2de431c 100644
--- a/src/kml/engine/merge.cc
+++ b/src/kml/engine/merge.cc
@@ -144,41 +144,71 @@ void MergeFields(const ElementPtr& source, ElementPtr target) {
   source->Serialize(field_merger);
 }
 
+// This Serializer-specialization merges each immediate complex element child
+// of the source into the target.
+class ChildMerger : public Serializer {
+ public:
+  ChildMerger(ElementPtr target)
+      : target_(target), in_array_(false) {
+    GetChildElements(target_, false, &target_children_);
+  }
+
+  virtual ~ChildMerger() {}
+
+  virtual void SaveElement(const ElementPtr& element) {
+    if (!element) {
+      return;
+    }
+    if (!in_array_) {
+      // TODO: walk through both lists taking advantage of both being in
+      // the same order given that Element::Serialize() is XSD order.
+      for (size_t i = 0; i < target_children_.size(); ++i) {
+        // If the target has an element of this type...
+        if (element->Type() == target_children_[i]->Type()) {
+          // ... recurse and merge it.
+          MergeElements(element, target_children_[i]);
+          return;
+        }
+      }
+    }
+    // If we get here the target had no child of this type or the child is
+    // one of an array so we clone one.
+    // This smashes anything in the same group.
+    // LineString smashes Point in Placemark...
+    target_->AddElement(Clone(element));
+  }
+
+  // The elements of an array are appended to those of the target.
+  virtual void BeginElementArray(int type_id, size_t element_count) {
+    in_array_ = true;
+  }
+  virtual void EndElementArray(int type_id) {
+    in_array_ = false;
+  }
+  virtual void BeginElementGroupArray(int group_id, size_t element_count) {
+    in_array_ = true;
+  }
+  virtual void EndElementGroupArray(int group_id) {
+    in_array_ = false;
+  }
+
+ private:
+  ElementPtr target_;
+  ElementVector target_children_;
+  bool in_array_;
+};
+
 // This function sets all target simple element ("fields") and all complex
 // element children to values found in the source.  This form of merge
 // behavior is central to "style merging".
 // TODO: Update/Change behaves _slightly_ differently but may borrow from this.
 void MergeElements(const ElementPtr& source, ElementPtr target) {
-  if (!source || !target) {
+  if (!source || !target || source == target) {
     return;
   }
-  // Get the pointers to the immediate complex element children of the source
-  // and target element.
-  ElementVector source_children;
-  GetChildElements(source, false, &source_children);
-  ElementVector target_children;
-  GetChildElements(target, false, &target_children);
-
-  // Iterate through the source children looking for a match in the target.
-  // TODO: walk through both lists taking advantage of both being in
-  // the same order given that Element::Serialize() is XSD order.
-  for (size_t i = 0; i < source_children.size(); ++i) {
-    size_t j;
-    for (j = 0; j < target_children.size(); ++j) {
-      // If the target has an element of this type...
-      if (source_children[i]->Type() == target_children[j]->Type()) {
-        // ... recurse and merge it.
-        MergeElements(source_children[i], target_children[j]);
-        break;
-      }
-    }
-    // If we get here the target had no child of this type so we clone one.
-    if (j == target_children.size()) {
-      // This smashes anything in the same group.
-      // LineString smashes Point in Placemark...
-      target->AddElement(Clone(source_children[i]));
-    }
-  }
+  // Merge in the immediate complex children of source to target.
+  ChildMerger child_merger(target);
+  source->Serialize(child_merger);
 
   // Merge in the immediately simple children of source to target.
   MergeFields(source, target);
-- 
2.43.0


From 9f3febcf3159b50d0ae0248d4bbfda81241996c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:00 +0000
Subject: [PATCH 25/69] fix: visit the atom and xAL descendants of features and
 feeds

Feature::AcceptChildren skipped atom:author, atom:link and
xal:AddressDetails, and the atom and xAL classes with children did not
implement AcceptChildren at all.
---
 src/kml/dom/atom.cc    | 18 ++++++++++++++++++
 src/kml/dom/atom.h     |  9 +++++++++
 src/kml/dom/feature.cc |  9 +++++++++
 src/kml/dom/xal.cc     | 41 +++++++++++++++++++++++++++++++++++++++++
 src/kml/dom/xal.h      | 15 +++++++++++++++
 5 files changed, 92 insertions(+)

diff --git a/src/kml/dom/atom.cc b/src/kml/dom/atom.cc
index 6a36481..f0a9311 100644
--- a/src/kml/dom/atom.cc
+++ b/src/kml/dom/atom.cc
@@ -224,6 +224,12 @@ void AtomCommon::Serialize(Serializer& serializer) const {
   serializer.SaveElementArray(link_array_);
 }
 
+void AtomCommon::AcceptChildren(VisitorDriver* driver) {
+  Element::AcceptChildren(driver);
+  Element::AcceptRepeated<AtomCategoryPtr>(&category_array_, driver);
+  Element::AcceptRepeated<AtomLinkPtr>(&link_array_, driver);
+}
+
 // <atom:entry>
 AtomEntry::AtomEntry()
   : has_summary_(false) {
@@ -259,6 +265,13 @@ void AtomEntry::Serialize(Serializer& serializer) const {
   }
 }
 
+void AtomEntry::AcceptChildren(VisitorDriver* driver) {
+  AtomCommon::AcceptChildren(driver);
+  if (has_content()) {
+    driver->Visit(get_content());
+  }
+}
+
 // <atom:feed>
 AtomFeed::AtomFeed() {
   set_xmlns(kmlbase::XMLNS_ATOM);
@@ -284,6 +297,11 @@ void AtomFeed::Serialize(Serializer& serializer) const {
   serializer.SaveElementArray(entry_array_);
 }
 
+void AtomFeed::AcceptChildren(VisitorDriver* driver) {
+  AtomCommon::AcceptChildren(driver);
+  Element::AcceptRepeated<AtomEntryPtr>(&entry_array_, driver);
+}
+
 // <atom:link>
 AtomLink::AtomLink()
   : has_href_(false),
diff --git a/src/kml/dom/atom.h b/src/kml/dom/atom.h
index 808a351..99db534 100644
--- a/src/kml/dom/atom.h
+++ b/src/kml/dom/atom.h
@@ -147,6 +147,9 @@ class AtomCommon : public Element {
     return link_array_[index];
   }
 
+  // Visitor API methods, see visitor.h.
+  virtual void AcceptChildren(VisitorDriver* driver);
+
  protected:
   AtomCommon();
   void AddElement(const ElementPtr& element);
@@ -308,6 +311,9 @@ class AtomEntry : public AtomCommon {
     set_content(NULL);
   }
 
+  // Visitor API methods, see visitor.h.
+  virtual void AcceptChildren(VisitorDriver* driver);
+
  private:
   friend class KmlFactory;
   AtomEntry();
@@ -344,6 +350,9 @@ class AtomFeed : public AtomCommon {
     return entry_array_[index];
   }
 
+  // Visitor API methods, see visitor.h.
+  virtual void AcceptChildren(VisitorDriver* driver);
+
  private:
   friend class KmlFactory;
   AtomFeed();
diff --git a/src/kml/dom/feature.cc b/src/kml/dom/feature.cc
index a5b8d81..6b666bb 100644
--- a/src/kml/dom/feature.cc
+++ b/src/kml/dom/feature.cc
@@ -193,6 +193,15 @@ void Feature::Serialize(Serializer& serializer) const {
 
 void Feature::AcceptChildren(VisitorDriver* driver) {
   Object::AcceptChildren(driver);
+  if (has_atomauthor()) {
+    driver->Visit(get_atomauthor());
+  }
+  if (has_atomlink()) {
+    driver->Visit(get_atomlink());
+  }
+  if (has_xaladdressdetails()) {
+    driver->Visit(get_xaladdressdetails());
+  }
   if (has_snippet()) {
     driver->Visit(get_snippet());
   }
diff --git a/src/kml/dom/xal.cc b/src/kml/dom/xal.cc
index cc8ea07..b257ee9 100644
--- a/src/kml/dom/xal.cc
+++ b/src/kml/dom/xal.cc
@@ -62,6 +62,13 @@ void XalAddressDetails::Serialize(Serializer& serializer) const {
   } 
 } 
 
+void XalAddressDetails::AcceptChildren(VisitorDriver* driver) {
+  Element::AcceptChildren(driver);
+  if (has_country()) {
+    driver->Visit(get_country());
+  }
+}
+
 // <xal:AdministrativeArea>
 XalAdministrativeArea::XalAdministrativeArea()
     : has_administrativeareaname_(false) {
@@ -102,6 +109,16 @@ void XalAdministrativeArea::Serialize(Serializer& serializer) const {
   }
 }
 
+void XalAdministrativeArea::AcceptChildren(VisitorDriver* driver) {
+  Element::AcceptChildren(driver);
+  if (has_locality()) {
+    driver->Visit(get_locality());
+  }
+  if (has_subadministrativearea()) {
+    driver->Visit(get_subadministrativearea());
+  }
+}
+
 // <xal:Country>
 XalCountry::XalCountry()
     : has_countrynamecode_(false) {
@@ -136,6 +153,13 @@ void XalCountry::Serialize(Serializer& serializer) const {
   }
 }
 
+void XalCountry::AcceptChildren(VisitorDriver* driver) {
+  Element::AcceptChildren(driver);
+  if (has_administrativearea()) {
+    driver->Visit(get_administrativearea());
+  }
+}
+
 // <xal:Locality>
 XalLocality::XalLocality()
     : has_localityname_(false) {
@@ -175,6 +199,16 @@ void XalLocality::Serialize(Serializer& serializer) const {
   }
 }
 
+void XalLocality::AcceptChildren(VisitorDriver* driver) {
+  Element::AcceptChildren(driver);
+  if (has_thoroughfare()) {
+    driver->Visit(get_thoroughfare());
+  }
+  if (has_postalcode()) {
+    driver->Visit(get_postalcode());
+  }
+}
+
 // <xal:PostalCode>
 XalPostalCode::XalPostalCode()
     : has_postalcodenumber_(false) {
@@ -236,6 +270,13 @@ void XalSubAdministrativeArea::Serialize(Serializer& serializer) const {
   }
 }
 
+void XalSubAdministrativeArea::AcceptChildren(VisitorDriver* driver) {
+  Element::AcceptChildren(driver);
+  if (has_locality()) {
+    driver->Visit(get_locality());
+  }
+}
+
 // <xal:Thoroughfare>
 XalThoroughfare::XalThoroughfare()
     : has_thoroughfarename_(false),
diff --git a/src/kml/dom/xal.h b/src/kml/dom/xal.h
index e58b02d..942dd63 100644
--- a/src/kml/dom/xal.h
+++ b/src/kml/dom/xal.h
@@ -69,6 +69,9 @@ class XalAddressDetails : public BasicElement<Type_XalAddressDetails> {
   }
   void clear_country() { set_country(NULL); }
 
+  // Visitor API methods, see visitor.h.
+  virtual void AcceptChildren(VisitorDriver* driver);
+
  private:
   XalAddressDetails();
   XalCountryPtr country_;
@@ -121,6 +124,9 @@ class XalAdministrativeArea : public BasicElement<Type_XalAdministrativeArea> {
   }
   void clear_subadministrativearea() { set_subadministrativearea(NULL); }
 
+  // Visitor API methods, see visitor.h.
+  virtual void AcceptChildren(VisitorDriver* driver);
+
  private:
   XalAdministrativeArea();
   bool has_administrativeareaname_;
@@ -162,6 +168,9 @@ class XalCountry : public BasicElement<Type_XalCountry> {
   }
   void clear_administrativearea() { set_administrativearea(NULL); }
 
+  // Visitor API methods, see visitor.h.
+  virtual void AcceptChildren(VisitorDriver* driver);
+
  private:
   XalCountry();
   bool has_countrynamecode_;
@@ -212,6 +221,9 @@ class XalLocality : public BasicElement<Type_XalLocality> {
   }
   void clear_postalcode() { set_postalcode(NULL); }
 
+  // Visitor API methods, see visitor.h.
+  virtual void AcceptChildren(VisitorDriver* driver);
+
  private:
   XalLocality();
   bool has_localityname_;
@@ -287,6 +299,9 @@ class XalSubAdministrativeArea :
   }
   void clear_locality() { set_locality(NULL); }
 
+  // Visitor API methods, see visitor.h.
+  virtual void AcceptChildren(VisitorDriver* driver);
+
  private:
   XalSubAdministrativeArea();
   bool has_subadministrativeareaname_;
-- 
2.43.0


From fb5c4f45301924142d8e0de08d51b89469ce83c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:00 +0000
Subject: [PATCH 26/69] fix: HotSpot accepts the visitor as a HotSpot

VisitHotSpot was never called: HotSpot inherited Vec2::Accept.
---
 src/kml/dom/hotspot.cc | 4 ++++
 src/kml/dom/hotspot.h  | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/src/kml/dom/hotspot.cc b/src/kml/dom/hotspot.cc
index 94dc5b1..bdf8cfb 100644
--- a/src/kml/dom/hotspot.cc
+++ b/src/kml/dom/hotspot.cc
@@ -31,4 +31,8 @@ HotSpot::HotSpot() {}
 
 HotSpot::~HotSpot() {}
 
+void HotSpot::Accept(Visitor* visitor) {
+  visitor->VisitHotSpot(HotSpotPtr(this));
+}
+
 }  // end namespace kmldom
diff --git a/src/kml/dom/hotspot.h b/src/kml/dom/hotspot.h
index 9ac1392..0fd0f28 100644
--- a/src/kml/dom/hotspot.h
+++ b/src/kml/dom/hotspot.h
@@ -43,6 +43,9 @@ class HotSpot : public Vec2 {
     return type == Type_hotSpot || Vec2::IsA(type);
   }
 
+  // Visitor API methods, see visitor.h.
+  virtual void Accept(Visitor* visitor);
+
  private:
   friend class KmlFactory;
   HotSpot();
-- 
2.43.0


From f99a2f1e2013ae17e99ebc73f69309bf85cacb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:00 +0000
Subject: [PATCH 27/69] fix: vec2 elements are in the KML namespace

---
 src/kml/dom/vec2.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kml/dom/vec2.cc b/src/kml/dom/vec2.cc
index decc1f6..f65c370 100644
--- a/src/kml/dom/vec2.cc
+++ b/src/kml/dom/vec2.cc
@@ -43,6 +43,7 @@ Vec2::Vec2()
     has_xunits_(false),
     yunits_(UNITS_FRACTION),
     has_yunits_(false) {
+  set_xmlns(kmlbase::XMLNS_KML22);
 }
 
 Vec2::~Vec2() {}
-- 
2.43.0


From 38f253a6ed328ac1341275fe52c7de1654865304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:08 +0000
Subject: [PATCH 28/69] fix: define the declared public SerializeToOstream()

---
 src/kml/dom/xml_serializer.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/kml/dom/xml_serializer.cc b/src/kml/dom/xml_serializer.cc
index e686d43..5e5748e 100644
--- a/src/kml/dom/xml_serializer.cc
+++ b/src/kml/dom/xml_serializer.cc
@@ -68,6 +68,14 @@ string SerializeRaw(const ElementPtr& root) {
   return xml;
 }
 
+// This function is in the public API for emitting the given Element hierarchy
+// to a stream.
+void SerializeToOstream(const ElementPtr& root, bool pretty,
+                        std::ostream* xml) {
+  XmlSerializer<std::ostream>::Serialize(root, pretty ? "\n" : "",
+                                         pretty ? "  " : "", xml);
+}
+
 string GetElementName(const ElementPtr& element) {
   return element ?  Xsd::GetSchema()->ElementName(element->Type()) : string("");
 }
-- 
2.43.0


From ea245ed82ed73d1a61a42a8fcea49dd700725ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:20 +0000
Subject: [PATCH 29/69] fix: a StyleSelector without an id is not a shared
 style

GetSharedStyleById("") returned such a style.
---
 src/kml/engine/shared_style_parser_observer.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kml/engine/shared_style_parser_observer.h b/src/kml/engine/shared_style_parser_observer.h
index f89219f..769c076 100644
--- a/src/kml/engine/shared_style_parser_observer.h
+++ b/src/kml/engine/shared_style_parser_observer.h
@@ -66,9 +66,10 @@ class SharedStyleParserObserver : public kmldom::ParserObserver {
             // TODO: provide means to send back an and error string with id
             return false;  // Duplicate id, fail parse.
           }
+          // No such mapping so save it, and "last one wins" on non-strict
+          // parse.
+          (*shared_style_map_)[ss->get_id()] = ss;
         }
-        // No such mapping so save it, and "last one wins" on non-strict parse.
-        (*shared_style_map_)[ss->get_id()] = ss;
       }
     }
     return true;  // Not a duplicate id, keep parsing.
-- 
2.43.0


From 72aa4748ff506659937ad49bd62326b876e32e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:20 +0000
Subject: [PATCH 30/69] fix: ClearIds clears the ids of all objects with
 duplicate ids

---
 src/kml/engine/id_mapper.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/kml/engine/id_mapper.cc b/src/kml/engine/id_mapper.cc
index a28c489..62fbeba 100644
--- a/src/kml/engine/id_mapper.cc
+++ b/src/kml/engine/id_mapper.cc
@@ -71,12 +71,16 @@ void MapIds(const ElementPtr& root, ObjectIdMap* object_id_map,
 const ElementPtr& ClearIds(const ElementPtr& root) {
   // Get all objects with an id.
   ObjectIdMap object_id_map;
-  MapIds(root, &object_id_map, NULL);
+  ElementVector dup_id_vector;
+  MapIds(root, &object_id_map, &dup_id_vector);
   // Iterate through them all and clear the id.
   ObjectIdMap::const_iterator iter = object_id_map.begin();
   for (; iter != object_id_map.end(); ++iter) {
     iter->second->clear_id();
   }
+  for (size_t i = 0; i < dup_id_vector.size(); ++i) {
+    AsObject(dup_id_vector[i])->clear_id();
+  }
   return root;
 }
 
-- 
2.43.0


From abc6ebb72986ac6e93a3484cd298b41b52899924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:20 +0000
Subject: [PATCH 31/69] fix: import shared styles whose id another object has
 too

---
 src/kml/engine/kml_file.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/kml/engine/kml_file.cc b/src/kml/engine/kml_file.cc
index d09141b..8211f0c 100644
--- a/src/kml/engine/kml_file.cc
+++ b/src/kml/engine/kml_file.cc
@@ -146,7 +146,16 @@ KmlFile* KmlFile::CreateFromImportInternal(const kmldom::ElementPtr& element,
   }
   // Add all the shared styles to the style map. A shared style is any style
   // with an id whose parent is a document (and by defintion anything in
-  // object_id_map_ has an id).
+  // object_id_map_ has an id).  The objects in dup_id_elements precede those of
+  // the same id in object_id_map_.
+  for (size_t i = 0; i < dup_id_elements.size(); ++i) {
+    if (kmldom::StyleSelectorPtr ss =
+            kmldom::AsStyleSelector(dup_id_elements[i])) {
+      if (kmldom::AsDocument(ss->GetParent())) {
+        (kml_file->shared_style_map_)[ss->get_id()] = ss;
+      }
+    }
+  }
   ObjectIdMap::const_iterator it;
   for (it = map_ptr->begin(); it != map_ptr->end(); it++) {
     if (kmldom::StyleSelectorPtr ss = kmldom::AsStyleSelector(it->second)) {
-- 
2.43.0


From 6cc37e433bb9d73223ca7ae02c03258bd1b68a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:14 +0000
Subject: [PATCH 32/69] fix: Href kept the fragment in the path of absolute
 references and took text of the path, query or fragment for a scheme

---
 src/kml/engine/href.cc | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/kml/engine/href.cc b/src/kml/engine/href.cc
index b9a28df..db7c087 100644
--- a/src/kml/engine/href.cc
+++ b/src/kml/engine/href.cc
@@ -31,7 +31,8 @@ namespace kmlengine {
 size_t Href::ParseScheme(const string& href) {
   // Look for <scheme>://...
   size_t css = href.find("://");
-  if (css == string::npos || css == 0) {
+  if (css == string::npos || css == 0 ||
+      href.find_first_of("/?") < css) {  // The "://" is in the path or query.
     return 0;
   }
   scheme_ = href.substr(0, css);
@@ -43,7 +44,8 @@ size_t Href::ParseNetLoc(const string& href) {
   // Look for ...://<net_loc>/...
   size_t slash = href.find('/');
   if (slash == string::npos) {
-    return 0;
+    net_loc_ = href;
+    return href.size();  // There is no path.
   }
   net_loc_ = href.substr(0, slash);
   return slash + 1;  // First char after /
@@ -51,21 +53,19 @@ size_t Href::ParseNetLoc(const string& href) {
 
 // private
 void Href::Parse(const string& href) {
-  size_t net_loc_start = ParseScheme(href);
+  size_t pound = href.find_first_of('#');
+  if (pound != string::npos) {
+    fragment_ = href.substr(pound + 1);
+  }
+  const string url = href.substr(0, pound);
+  size_t net_loc_start = ParseScheme(url);
   size_t path_start;
   if (net_loc_start > 0) {
-    path_start = ParseNetLoc(href.substr(net_loc_start)) + net_loc_start;
+    path_start = ParseNetLoc(url.substr(net_loc_start)) + net_loc_start;
   } else {
     path_start = 0;
   }
-  size_t path_end = href.size();
-  size_t pound = href.find_first_of('#');
-  if (pound != string::npos) {
-    fragment_ = href.substr(pound + 1);
-    path_end = pound;
-  }
-  path_ = href.substr(path_start, path_end);
+  path_ = url.substr(path_start);
 }
 
 }  // end namespace kmlengine
-
-- 
2.43.0


From a610a3d4bd4fac4fe1f7aca2314cee738402fd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:14 +0000
Subject: [PATCH 33/69] fix: KmzSplit split at a .kmz in the middle of a name

---
 src/kml/engine/kml_uri.cc | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/kml/engine/kml_uri.cc b/src/kml/engine/kml_uri.cc
index bc20e98..e34228b 100644
--- a/src/kml/engine/kml_uri.cc
+++ b/src/kml/engine/kml_uri.cc
@@ -205,18 +205,22 @@ bool GetFetchableUri(const string& uri, string* fetchable_uri) {
 
 bool KmzSplit(const string& kml_url, string* kmz_url,
               string* kmz_path) {
+  // Find the ".kmz" which ends a path segment: the name of the KMZ file.
   size_t kmz = kml_url.find(".kmz");
+  while (kmz != string::npos && kmz + 4 != kml_url.size() &&
+         kml_url[kmz + 4] != '/') {
+    kmz = kml_url.find(".kmz", kmz + 1);
+  }
   if (kmz == string::npos) {
     return false;
   }
+  const string path = kml_url.size() > kmz + 4 ?
+      kml_url.substr(kmz + 4 + 1) : string();  // one past / after ".kmz/"
   if (kmz_url) {
     *kmz_url = kml_url.substr(0, kmz + 4);
   }
-  if (kmz_path && kml_url.size() > kmz + 4) {
-    *kmz_path = kml_url.substr(kmz + 4 + 1);  // one past / after ".kmz/"
-  } else if (kmz_path && kmz == kml_url.size() - 4) {
-    // kml_url was just a kmz file
-    kmz_path->clear();
+  if (kmz_path) {
+    *kmz_path = path;
   }
   return true;
 }
-- 
2.43.0


From 87cdacf8b62b142174249c7961b13ce54889daf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:14 +0000
Subject: [PATCH 34/69] fix: GetFetchableUri dropped the scheme and leading
 slash of URIs without a host, such as file: URIs, and appended to its output

---
 src/kml/engine/kml_uri.cc | 22 ++--------------------
 src/kml/engine/kml_uri.h  |  2 +-
 2 files changed, 3 insertions(+), 21 deletions(-)

diff --git a/src/kml/engine/kml_uri.cc b/src/kml/engine/kml_uri.cc
index e34228b..fd076ae 100644
--- a/src/kml/engine/kml_uri.cc
+++ b/src/kml/engine/kml_uri.cc
@@ -180,26 +180,8 @@ bool GetFetchableUri(const string& uri, string* fetchable_uri) {
   if (!fetchable_uri) {
     return true;  // uri parsed fine, just not interested in output.
   }
-  string scheme;
-  static_cast<void> (uri_parser->GetScheme(&scheme));
-  string host;
-  static_cast<void> (uri_parser->GetHost(&host));
-
-  if (!scheme.empty() && !host.empty()) {
-    fetchable_uri->append(scheme).append("://",3).append(host);
-    string port;
-    static_cast<void> (uri_parser->GetPort(&port));
-    if (!port.empty()) {
-      fetchable_uri->append(":",1).append(port);
-    }
-    fetchable_uri->append("/",1);
-  }
-
-  string path;
-  static_cast<void> (uri_parser->GetPath(&path));
-  if (!path.empty()) {
-    fetchable_uri->append(path);
-  }
+  // In a valid URI the first ? or # starts the query or fragment.
+  fetchable_uri->assign(uri, 0, uri.find_first_of("?#"));
   return true;
 }
 
diff --git a/src/kml/engine/kml_uri.h b/src/kml/engine/kml_uri.h
index 24e8ec3..3281a21 100644
--- a/src/kml/engine/kml_uri.h
+++ b/src/kml/engine/kml_uri.h
@@ -120,7 +120,7 @@ bool SplitUriFragment(const string& uri, string* fragment);
 bool SplitUriPath(const string& uri, string* path);
 
 // This function returns true if the given uri is valid.  If the fetchable_uri
-// output string is supplied a uri w/o the fragment is stored there.
+// output string is supplied a uri w/o the query and fragment is stored there.
 bool GetFetchableUri(const string& uri, string* fetchable_uri);
 
 // Given a url of the form scheme:authority/path/file.kmz/file/in/kmz this
-- 
2.43.0


From 534b511caacfc390fa185906c5557e2f2f908686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:27 +0000
Subject: [PATCH 35/69] fix: NetCache cached failed items, evicting others, and
 grew without bound with a size of 0

---
 src/kml/base/net_cache.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/kml/base/net_cache.h b/src/kml/base/net_cache.h
index 1d979b7..784e8bb 100644
--- a/src/kml/base/net_cache.h
+++ b/src/kml/base/net_cache.h
@@ -129,9 +129,8 @@ class NetCache {
     }
     // Fetch succeeded: create a CacheItem from the data.
     CacheItemPtr item = CacheItem::CreateFromString(data);
-    if (!Save(url, item)) {  // This is basically an internal error.
-      return NULL;
-    }
+    // Save fails if there is no item or no room to cache any.
+    static_cast<void>(Save(url, item));
     return item;
   }
 
@@ -150,13 +149,14 @@ class NetCache {
   }
 
   // This stores the given CacheItem to the cache for the given url.
-  // This failes of a CacheItem for this url exists (use Delete first).
+  // This failes of a CacheItem for this url exists (use Delete first), if
+  // cache_item is NULL, or if the cache was created to hold no items.
   // If the cache is at capacity this also first forces the removall
   // of the oldest item in the cache.  Application code should not typically
   // use this directly: use Fetch().
   bool Save(const string& url, const CacheItemPtr& cache_item) {
     const CacheItemPtr exists = LookUp(url);
-    if (exists) {
+    if (exists || !cache_item || max_size_ == 0) {
       return false;
     }
     if (cache_map_.size() == max_size_) {
-- 
2.43.0


From bfb7d0f8b93f5f8bacfd14f0ad8273731b1e4c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:47 +0000
Subject: [PATCH 36/69] fix: style URLs with a host or query and no path were
 taken for local references

---
 src/kml/engine/style_merger.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/kml/engine/style_merger.cc b/src/kml/engine/style_merger.cc
index 8ea9bb5..1bef652 100644
--- a/src/kml/engine/style_merger.cc
+++ b/src/kml/engine/style_merger.cc
@@ -84,15 +84,14 @@ void StyleMerger::MergeStyleUrl(const string& styleurl) {
   if (--nesting_depth_ < 0) {
     return;
   }
-  string path;
   string style_id;  // fragment
   if (styleurl.empty() ||
-      !SplitUri(styleurl, NULL, NULL, NULL, &path, NULL, &style_id) ||
+      !SplitUri(styleurl, NULL, NULL, NULL, NULL, NULL, &style_id) ||
       style_id.empty()) {
     return;  // Empty or bad styleurl or w/o fragment: ignore.
   }
-  // If there's no path this is a StyleSelector within this file.
-  if (path.empty()) {
+  // A mere fragment is a StyleSelector within this file.
+  if (styleurl[0] == '#') {
     SharedStyleMap::const_iterator found = shared_style_map_.find(style_id);
     if (found != shared_style_map_.end()) {
       MergeStyleSelector(found->second);
-- 
2.43.0


From e97939cda3984ed32857b9dd4b89b8cc408f80ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:23 +0000
Subject: [PATCH 37/69] fix: splitting an inline style which has an id gave the
 feature a style URL to nothing

---
 src/kml/engine/style_splitter.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kml/engine/style_splitter.cc b/src/kml/engine/style_splitter.cc
index 6fefcdc..e64d74e 100644
--- a/src/kml/engine/style_splitter.cc
+++ b/src/kml/engine/style_splitter.cc
@@ -83,12 +83,13 @@ bool StyleSplitter::EndElement(const kmldom::ElementPtr& parent,
         // ...and this id does not collide:
         if (shared_style_map_->find(style_id) == shared_style_map_->end()) {
           ++id_counter_;  // Bump the id counter only if it was used.
-          // Create an empty StyleSelector of the child's type and set the id.
+          // Create an empty StyleSelector of the child's type.
           kmldom::StyleSelectorPtr shared =
               CreateStyleSelector(child->Type());
-          shared->set_id(style_id);
           // Merge the children from child into the new StyleSelector.
           kmlengine::MergeElements(child, shared);
+          // Set the id after the merge given that child may have one too.
+          shared->set_id(style_id);
           // Add the StyleSelector to the Document and the shared style map.
           document_->add_styleselector(shared);
           (*shared_style_map_)[shared->get_id()] = shared;
-- 
2.43.0


From 4a439f2be95abc5c0a293a201e9b6459736c196e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:12 +0000
Subject: [PATCH 38/69] fix: splitting styles used ids of shared styles the
 document already has

---
 src/kml/engine/style_splitter.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/kml/engine/style_splitter.cc b/src/kml/engine/style_splitter.cc
index e64d74e..174b87f 100644
--- a/src/kml/engine/style_splitter.cc
+++ b/src/kml/engine/style_splitter.cc
@@ -100,6 +100,13 @@ bool StyleSplitter::EndElement(const kmldom::ElementPtr& parent,
       }
     }
   }
+  // Note the shared styles the KML already has: a new id must not collide.
+  if (!in_update_ && parent->IsA(kmldom::Type_Document)) {
+    kmldom::StyleSelectorPtr styleselector = kmldom::AsStyleSelector(child);
+    if (styleselector && styleselector->has_id()) {
+      (*shared_style_map_)[styleselector->get_id()] = styleselector;
+    }
+  }
   // Falling through any of the conditions above means no action is taken
   // to interfere with this child being added to this parent.
   // Parsing of <Update> is complete so disable guard.
-- 
2.43.0


From 5ebcfc62d80d6936d9066e98d8ec310c72d64d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:31 +0000
Subject: [PATCH 39/69] fix: inlining styles lost either the shared or the
 inline style of a feature with both

---
 src/kml/engine/style_inliner.cc         | 24 +++++++++++++++++++++---
 src/kml/engine/style_inliner_internal.h |  1 +
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/kml/engine/style_inliner.cc b/src/kml/engine/style_inliner.cc
index 1b32818..e9961ae 100644
--- a/src/kml/engine/style_inliner.cc
+++ b/src/kml/engine/style_inliner.cc
@@ -29,6 +29,7 @@
 #include "kml/engine/style_inliner_internal.h"
 #include "kml/engine/id_mapper.h"
 #include "kml/engine/kml_uri.h"
+#include "kml/engine/merge.h"
 #include "kml/engine/style_resolver.h"
 
 namespace kmlengine {
@@ -81,19 +82,36 @@ bool StyleInliner::EndElement(const kmldom::ElementPtr& parent,
       // If it's a local reference and we've captured this shared style
       // give a copy of that to the Feature instead of this styleUrl.
       string fragment;
-      string path;
-      if (SplitUri(child->get_char_data(), NULL, NULL, NULL, &path, NULL,
-                   &fragment) && path.empty()) {
+      const string& styleurl = child->get_char_data();
+      if (!styleurl.empty() && styleurl[0] == '#' &&
+          SplitUri(styleurl, NULL, NULL, NULL, NULL, NULL, &fragment)) {
         SharedStyleMap::const_iterator iter = shared_styles_.find(fragment);
         if (iter != shared_styles_.end()) {
           feature->set_styleselector(
               kmlengine::StyleResolver::CreateResolvedStyleSelector(
                   child->get_char_data(), shared_styles_));
+          inlined_ = feature;
           return false;  // Don't add the <styleUrl> to the feature.
         }
       }
       // We fall to here if the styleUrl is a remote reference or if the
       // styleUrl's local reference is not found.
+    } else if (feature == inlined_) {
+      // Merge the feature's own style over the one inlined for its styleUrl.
+      if (kmldom::StyleSelectorPtr styleselector =
+          kmldom::AsStyleSelector(child)) {
+        kmldom::StyleMapPtr stylemap =
+            kmldom::AsStyleMap(feature->get_styleselector());
+        for (size_t i = 0; i < stylemap->get_pair_array_size(); ++i) {
+          const kmldom::PairPtr& pair = stylemap->get_pair_array_at(i);
+          MergeElements(
+              StyleResolver::CreateResolvedStyle(
+                  "", styleselector, shared_styles_, "", NULL,
+                  static_cast<kmldom::StyleStateEnum>(pair->get_key())),
+              pair->get_styleselector());
+        }
+        return false;  // Don't replace the inlined style.
+      }
     }
   }
   // Everything else.
diff --git a/src/kml/engine/style_inliner_internal.h b/src/kml/engine/style_inliner_internal.h
index eab7495..0680295 100644
--- a/src/kml/engine/style_inliner_internal.h
+++ b/src/kml/engine/style_inliner_internal.h
@@ -76,6 +76,7 @@ class StyleInliner : public kmldom::ParserObserver {
  private:
   kmlengine::SharedStyleMap shared_styles_;
   kmldom::DocumentPtr document_;
+  kmldom::FeaturePtr inlined_;  // Feature whose styleUrl was last inlined.
   bool in_update_;
 };
 
-- 
2.43.0


From bd4f51a3133b6e8661d670771748e9c635aad5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:31 +0000
Subject: [PATCH 40/69] fix: inlining styles left the style URLs of a feature's
 own style map pointing at nothing

---
 src/kml/engine/style_inliner.cc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/kml/engine/style_inliner.cc b/src/kml/engine/style_inliner.cc
index e9961ae..9d85859 100644
--- a/src/kml/engine/style_inliner.cc
+++ b/src/kml/engine/style_inliner.cc
@@ -112,6 +112,21 @@ bool StyleInliner::EndElement(const kmldom::ElementPtr& parent,
         }
         return false;  // Don't replace the inlined style.
       }
+    } else if (kmldom::StyleMapPtr stylemap = kmldom::AsStyleMap(child)) {
+      // The shared styles a feature's own StyleMap refers to are taken out
+      // of the <Document>, so inline these as well.
+      for (size_t i = 0; i < stylemap->get_pair_array_size(); ++i) {
+        const kmldom::PairPtr& pair = stylemap->get_pair_array_at(i);
+        const string& styleurl = pair->get_styleurl();
+        if (!styleurl.empty() && styleurl[0] == '#' &&
+            shared_styles_.find(styleurl.substr(1)) != shared_styles_.end()) {
+          kmldom::StylePtr style = StyleResolver::CreateResolvedStyle(
+              styleurl, pair->get_styleselector(), shared_styles_, "", NULL,
+              static_cast<kmldom::StyleStateEnum>(pair->get_key()));
+          pair->set_styleselector(kmldom::AsStyleSelector(ClearIds(style)));
+          pair->clear_styleurl();
+        }
+      }
     }
   }
   // Everything else.
-- 
2.43.0


From 0be94d02ed2e92e80397a2d12d8b960313ab899c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:10 +0000
Subject: [PATCH 41/69] fix: an update deleted the first feature with the id in
 the container instead of the object of that id

---
 src/kml/engine/update_processor.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/kml/engine/update_processor.cc b/src/kml/engine/update_processor.cc
index 16c9a37..4f1f692 100644
--- a/src/kml/engine/update_processor.cc
+++ b/src/kml/engine/update_processor.cc
@@ -118,7 +118,13 @@ void UpdateProcessor::ProcessUpdateDelete(const DeletePtr& deleet) {
 FeaturePtr UpdateProcessor::DeleteFeatureById(const string& id) {
   if (FeaturePtr feature = AsFeature(kml_file_.GetObjectById(id))) {
     if (ContainerPtr container = AsContainer(feature->GetParent())) {
-      return container->DeleteFeatureById(id);
+      // The container may have other features of this id.
+      for (size_t i = 0; i < container->get_feature_array_size(); ++i) {
+        if (container->get_feature_array_at(i) == feature) {
+          return container->DeleteFeatureAt(i);
+        }
+      }
+      return NULL;
     }
     if (KmlPtr kml = AsKml(feature->GetParent())) {
       kml->clear_feature();
-- 
2.43.0


From 79d379e5d21769bde4348f560a8c6ecc197585d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:11 +0000
Subject: [PATCH 42/69] fix: a Change changed the id of its target to that of
 its source and cleared the target's own targetId

---
 src/kml/engine/update_processor.cc | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/kml/engine/update_processor.cc b/src/kml/engine/update_processor.cc
index 4f1f692..38c4855 100644
--- a/src/kml/engine/update_processor.cc
+++ b/src/kml/engine/update_processor.cc
@@ -77,14 +77,27 @@ void UpdateProcessor::ProcessUpdateChange(const ChangePtr& change) {
     string targetid;
     if (GetTargetId(source_object, &targetid)) {
       if (ObjectPtr target_object = kml_file_.GetObjectById(targetid)) {
-        MergeElements(source_object, target_object);
-        // It's easier to just clear the target's targetId= attribute than
-        // to teach MergeElements() how to avoid copying targetId from
-        // source to target.  This does imply that targetId is treated as
+        // It's easier to just restore the target's id= and targetId= attributes
+        // than to teach MergeElements() how to avoid copying these from source
+        // to target.  This does imply that id and targetId are treated as
         // any other attribute and merged over on anything other than the
         // root Object.  Ideally the targetId would not be _within_ the
         // source Object at all, but such is the OGC KML 2.2 standard.
-        target_object->clear_targetid();
+        const bool had_id = target_object->has_id();
+        const string id = target_object->get_id();
+        const bool had_targetid = target_object->has_targetid();
+        const string own_targetid = target_object->get_targetid();
+        MergeElements(source_object, target_object);
+        if (had_id) {
+          target_object->set_id(id);
+        } else {
+          target_object->clear_id();
+        }
+        if (had_targetid) {
+          target_object->set_targetid(own_targetid);
+        } else {
+          target_object->clear_targetid();
+        }
       }
     }
   }
-- 
2.43.0


From feb6b4506e1887b77ab656394f91eccff38fc866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:29 +0000
Subject: [PATCH 43/69] fix: expanding a Bbox from one which was never expanded
 yielded the whole world

---
 src/kml/engine/bbox.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/kml/engine/bbox.h b/src/kml/engine/bbox.h
index 599df6b..0e85dde 100644
--- a/src/kml/engine/bbox.h
+++ b/src/kml/engine/bbox.h
@@ -105,8 +105,12 @@ class Bbox {
            east_ >= longitude && west_ <= longitude;
   }
 
-  // This expands this Bbox to contain the given Bbox.
+  // This expands this Bbox to contain the given Bbox.  A Bbox which was never
+  // expanded contains nothing.
   void ExpandFromBbox(const Bbox& bbox) {
+    if (bbox.get_north() < bbox.get_south()) {
+      return;
+    }
     ExpandLatitude(bbox.get_north());
     ExpandLatitude(bbox.get_south());
     ExpandLongitude(bbox.get_east());
-- 
2.43.0


From 442609d88d0ad52354536db8154174203bab8781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:03 +0000
Subject: [PATCH 44/69] fix: KmlFeatureListSaver took the features of Update
 operations for features of the document

---
 src/kml/convenience/kml_feature_list_saver.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/kml/convenience/kml_feature_list_saver.h b/src/kml/convenience/kml_feature_list_saver.h
index ca85d14..2117867 100644
--- a/src/kml/convenience/kml_feature_list_saver.h
+++ b/src/kml/convenience/kml_feature_list_saver.h
@@ -60,6 +60,11 @@ class KmlFeatureListSaver : public kmldom::ParserObserver {
     }
   }
 
+  // ParserObserver::NewElement()
+  virtual bool NewElement(const kmldom::ElementPtr& element) {
+    return StartElement(element);
+  }
+
   virtual bool StartElement(const kmldom::ElementPtr& element) {
     if (element->Type() == kmldom::Type_Update) {
       in_update_ = true;
-- 
2.43.0


From 1fd1a8bac1fcc9f6db5160828e45039570fc376f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:03 +0000
Subject: [PATCH 45/69] fix: KmlFeatureListSaver left references to styles
 whose id is one character without the style base

---
 src/kml/convenience/kml_feature_list_saver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/convenience/kml_feature_list_saver.h b/src/kml/convenience/kml_feature_list_saver.h
index 2117867..4309c47 100644
--- a/src/kml/convenience/kml_feature_list_saver.h
+++ b/src/kml/convenience/kml_feature_list_saver.h
@@ -86,7 +86,7 @@ class KmlFeatureListSaver : public kmldom::ParserObserver {
       kmldom::FeaturePtr feature = kmldom::AsFeature(child);
       if (!style_base_.empty() && feature->has_styleurl()) {
         const string& styleurl = feature->get_styleurl();
-        if (styleurl.size() > 2 && styleurl[0] == '#') {
+        if (styleurl.size() > 1 && styleurl[0] == '#') {
           feature->set_styleurl(style_base_ + styleurl);
         }
       }
-- 
2.43.0


From f433eaad2adce676ccc7d7eb80411ea1c943724c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:52 +0000
Subject: [PATCH 46/69] fix: a GPX trkpt without lat or lon was handled as the
 point before it, and empty numbers were uninitialised

---
 src/kml/convenience/gpx_trk_pt_handler.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/kml/convenience/gpx_trk_pt_handler.h b/src/kml/convenience/gpx_trk_pt_handler.h
index 2e7fdd6..053070e 100644
--- a/src/kml/convenience/gpx_trk_pt_handler.h
+++ b/src/kml/convenience/gpx_trk_pt_handler.h
@@ -64,11 +64,12 @@ class GpxTrkPtHandler : public kmlbase::ExpatHandler {
       // <trkpt lat="-33.911973070" lon="18.422974152">
       // If both lat and lon exist and are sane doubles create a Vec3 for
       // the point.
+      vec3_.reset();
       boost::scoped_ptr<kmlbase::Attributes> attributes(
           kmlbase::Attributes::Create(atts));
       if (attributes.get()) {
-        double latitude;
-        double longitude;
+        double latitude = 0;
+        double longitude = 0;
         if (attributes->GetDouble("lat", &latitude) &&
             attributes->GetDouble("lon", &longitude)) {
           vec3_.reset(new kmlbase::Vec3(longitude, latitude));
@@ -98,8 +99,8 @@ class GpxTrkPtHandler : public kmlbase::ExpatHandler {
     } else if (name.compare("ele") == 0) {
       // <ele>4.943848</ele>
       if (vec3_.get()) {
-	double alt;
-	kmlbase::FromString(char_data_, &alt);
+        double alt = 0;
+        kmlbase::FromString(char_data_, &alt);
         vec3_->set_altitude(alt);
       }
     }
-- 
2.43.0


From 9884ed5d9252faed215fe6b662e9508bc1386b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:52 +0000
Subject: [PATCH 47/69] fix: a point from empty lat or lon attributes had
 uninitialised coordinates

---
 src/kml/convenience/convenience.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kml/convenience/convenience.cc b/src/kml/convenience/convenience.cc
index 6aa8918..e38a5ff 100644
--- a/src/kml/convenience/convenience.cc
+++ b/src/kml/convenience/convenience.cc
@@ -148,8 +148,8 @@ LookAtPtr CreateLookAt(double latitude, double longitude, double altitude,
 PointPtr CreatePointFromLatLonAtts(const char** atts) {
   boost::scoped_ptr<Attributes> attributes(Attributes::Create(atts));
   if (attributes.get()) {
-    double latitude;
-    double longitude;
+    double latitude = 0;
+    double longitude = 0;
     if (attributes->GetValue("lat", &latitude) &&
         attributes->GetValue("lon", &longitude)) {
       return CreatePointLatLon(latitude, longitude);
-- 
2.43.0


From 7086c3af089f3bed419c059e45d43d37df24689d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:52 +0000
Subject: [PATCH 48/69] fix: CloneEntryFeature returned and changed the entry's
 own feature instead of a clone

---
 src/kml/convenience/atom_util.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kml/convenience/atom_util.cc b/src/kml/convenience/atom_util.cc
index 4baa5a3..7580b53 100644
--- a/src/kml/convenience/atom_util.cc
+++ b/src/kml/convenience/atom_util.cc
@@ -160,7 +160,8 @@ FeaturePtr AtomUtil::GetEntryFeature(const AtomEntryPtr& entry) {
 
 // static
 FeaturePtr AtomUtil::CloneEntryFeature(const AtomEntryPtr& entry) {
-  if (FeaturePtr feature = GetEntryFeature(entry)) {
+  if (FeaturePtr feature =
+      kmldom::AsFeature(kmlengine::Clone(GetEntryFeature(entry)))) {
     string href;
     if (FindRelUrl(*entry.get(), "self", &href)) {
       AtomLinkPtr link = KmlFactory::GetFactory()->CreateAtomLink();
-- 
2.43.0


From 2277e34dc58bea8947e5fc28753726d7ead5a93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:52 +0000
Subject: [PATCH 49/69] fix: GetFeedFeatures did not set the container's
 atom:link to the feed's self link as documented

---
 src/kml/convenience/atom_util.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/kml/convenience/atom_util.cc b/src/kml/convenience/atom_util.cc
index 7580b53..9c03f5e 100644
--- a/src/kml/convenience/atom_util.cc
+++ b/src/kml/convenience/atom_util.cc
@@ -178,6 +178,12 @@ void AtomUtil::GetFeedFeatures(const AtomFeedPtr& feed,
                                ContainerPtr container) {
   // Need both an <atom:feed> and Container to do anything interesting.
   if (feed.get() && container.get()) {
+    string href;
+    if (FindRelUrl(*feed.get(), "self", &href)) {
+      AtomLinkPtr link = KmlFactory::GetFactory()->CreateAtomLink();
+      link->set_href(href);
+      container->set_atomlink(link);
+    }
     for (size_t i = 0; i < feed->get_entry_array_size(); ++i) {
       // We need to clone because libkml allows no more than one parent per
       // XmlElement (see kmlbase::XmlElement::SetParent).
-- 
2.43.0


From 256ea9dfc5054ddb501991d8546ba77ae68f1546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:52 +0000
Subject: [PATCH 50/69] fix: GetGdResourceId crashed when no resource_id string
 is supplied

---
 src/kml/convenience/atom_util.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kml/convenience/atom_util.cc b/src/kml/convenience/atom_util.cc
index 9c03f5e..de19328 100644
--- a/src/kml/convenience/atom_util.cc
+++ b/src/kml/convenience/atom_util.cc
@@ -258,7 +258,9 @@ bool AtomUtil::GetGdResourceId(const kmldom::AtomEntryPtr& entry,
     if (HackParseElement(entry->get_unknown_elements_array_at(i), &tag,
                          &content) &&
         tag == "resourceId") {
-      *resource_id = content;
+      if (resource_id) {
+        *resource_id = content;
+      }
       return true;
     }
   }
-- 
2.43.0


From b4a11b95dcaa2fee79a63b89ca05e1d96b43d7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:50 +0000
Subject: [PATCH 51/69] fix: an XSD whose root is an element read from an empty
 stack, and elements outside of types leaked

---
 src/kml/xsd/xsd_handler.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kml/xsd/xsd_handler.cc b/src/kml/xsd/xsd_handler.cc
index 98dc545..3bfde72 100644
--- a/src/kml/xsd/xsd_handler.cc
+++ b/src/kml/xsd/xsd_handler.cc
@@ -95,13 +95,13 @@ void XsdHandler::StartEnumeration(const Attributes& attributes) {
 // <xs:element name="..." type="..." default=".."/>
 // <xs:element ref="..." minOccurs="..." maxOccurs="..."/>
 void XsdHandler::StartXsElement(const Attributes& attributes) {
-  XsdElement* element = XsdElement::Create(attributes);
+  const XsdElementPtr element = XsdElement::Create(attributes);
   if (!element) {
     return;
   }
 
   // Is this a global element?
-  if (parse_.top() == kSchema) {
+  if (!parse_.empty() && parse_.top() == kSchema) {
     xsd_file_->add_element(element);
   } else if (XsdComplexTypePtr complex_type =
                  XsdComplexType::AsComplexType(current_type_)) {
-- 
2.43.0


From 312a5370ad0438a11466cf7714e3a7ef5de6bf1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:50 +0000
Subject: [PATCH 52/69] fix: an XSD with an anonymous or nested type crashed
 the parser

---
 src/kml/xsd/xsd_handler.cc | 32 ++++++++++++++++++++++++--------
 src/kml/xsd/xsd_handler.h  |  6 +++++-
 2 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/src/kml/xsd/xsd_handler.cc b/src/kml/xsd/xsd_handler.cc
index 3bfde72..1f93349 100644
--- a/src/kml/xsd/xsd_handler.cc
+++ b/src/kml/xsd/xsd_handler.cc
@@ -40,7 +40,7 @@ namespace kmlxsd {
 
 // <xs:complexType name="..." abstract="...">
 void XsdHandler::StartComplexType(const Attributes& attributes) {
-  if (!current_type_) {  // <xs:complexType> and/or <xs:simpleType>
+  if (++type_depth_ == 1) {  // Types within a type are anonymous.
     current_type_ = XsdComplexType::Create(attributes);
   }
 }
@@ -48,12 +48,20 @@ void XsdHandler::StartComplexType(const Attributes& attributes) {
 // </xs:complexType">
 // </xs:simpleType">
 void XsdHandler::EndType() {
-  xsd_file_->add_type(current_type_);
-  current_type_ = NULL;
+  if (--type_depth_ > 0) {
+    return;
+  }
+  if (current_type_) {  // NULL if the type has no name.
+    xsd_file_->add_type(current_type_);
+    current_type_ = NULL;
+  }
 }
 
 // <xs:extension base="...">
 void XsdHandler::StartExtension(const Attributes& attributes) {
+  if (type_depth_ != 1) {
+    return;
+  }
   if (XsdComplexTypePtr complex_type =
           XsdComplexType::AsComplexType(current_type_)) {
     string base;
@@ -65,13 +73,16 @@ void XsdHandler::StartExtension(const Attributes& attributes) {
 
 // <xs:simpleType name="..."/>
 void XsdHandler::StartSimpleType(const Attributes& attributes) {
-  if (!current_type_) {  // <xs:simpleType is never nested...
+  if (++type_depth_ == 1) {  // Types within a type are anonymous.
     current_type_ = XsdSimpleType::Create(attributes);
   }
 }
 
 // <xs:restriction base="...">
 void XsdHandler::StartRestriction(const Attributes& attributes) {
+  if (type_depth_ != 1) {
+    return;
+  }
   if (XsdSimpleTypePtr simple_type =
           XsdSimpleType::AsSimpleType(current_type_)) {
     string base;
@@ -83,6 +94,9 @@ void XsdHandler::StartRestriction(const Attributes& attributes) {
 
 // <xs:enumeration value="...">
 void XsdHandler::StartEnumeration(const Attributes& attributes) {
+  if (type_depth_ != 1) {
+    return;
+  }
   if (XsdSimpleTypePtr simple_type =
           XsdSimpleType::AsSimpleType(current_type_)) {
     string value;
@@ -103,10 +117,12 @@ void XsdHandler::StartXsElement(const Attributes& attributes) {
   // Is this a global element?
   if (!parse_.empty() && parse_.top() == kSchema) {
     xsd_file_->add_element(element);
-  } else if (XsdComplexTypePtr complex_type =
-                 XsdComplexType::AsComplexType(current_type_)) {
-     // Is it a child of <xs:complexType>?
-    complex_type->add_element(element);
+  } else if (type_depth_ == 1) {
+    if (XsdComplexTypePtr complex_type =
+            XsdComplexType::AsComplexType(current_type_)) {
+      // Is it a child of <xs:complexType>?
+      complex_type->add_element(element);
+    }
   }
 }
 
diff --git a/src/kml/xsd/xsd_handler.h b/src/kml/xsd/xsd_handler.h
index 0dfba03..964ff40 100644
--- a/src/kml/xsd/xsd_handler.h
+++ b/src/kml/xsd/xsd_handler.h
@@ -52,7 +52,8 @@ class XsdHandler : public kmlbase::ExpatHandler {
  public:
   XsdHandler(XsdFile* xsd_file)
     : xsd_file_(xsd_file),
-      current_type_(NULL) {
+      current_type_(NULL),
+      type_depth_(0) {
   }
   virtual ~XsdHandler() {}
 
@@ -84,6 +85,9 @@ class XsdHandler : public kmlbase::ExpatHandler {
   void EndType();
   XsdTypePtr current_type_;
 
+  // How many <xs:complexType>'s and <xs:simpleType>'s are open.
+  int type_depth_;
+
   std::stack<string> parse_;
 };
 
-- 
2.43.0


From 584a275da24127b1878990e324fa6ca11799d9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:50 +0000
Subject: [PATCH 53/69] fix: the name of the invalid XSD primitive type was
 constructed from NULL

---
 src/kml/xsd/xsd_primitive_type.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/xsd/xsd_primitive_type.cc b/src/kml/xsd/xsd_primitive_type.cc
index 00ce2e5..010d740 100644
--- a/src/kml/xsd/xsd_primitive_type.cc
+++ b/src/kml/xsd/xsd_primitive_type.cc
@@ -56,7 +56,7 @@ static const char* XsdPrimitiveTypeName[] = {
 };
 
 const string XsdPrimitiveType::GetTypeName(TypeId type_id) {
-  return XsdPrimitiveTypeName[type_id];
+  return type_id == XSD_INVALID ? string() : XsdPrimitiveTypeName[type_id];
 }
 
 XsdPrimitiveType::TypeId XsdPrimitiveType::GetTypeId(
-- 
2.43.0


From 4a9bb7d215230fb9c2547224d09b789fc8916465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:50 +0000
Subject: [PATCH 54/69] fix: the XSD primitive type QName was not recognised

---
 src/kml/xsd/xsd_primitive_type.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/xsd/xsd_primitive_type.cc b/src/kml/xsd/xsd_primitive_type.cc
index 010d740..1808db2 100644
--- a/src/kml/xsd/xsd_primitive_type.cc
+++ b/src/kml/xsd/xsd_primitive_type.cc
@@ -47,7 +47,7 @@ static const char* XsdPrimitiveTypeName[] = {
   "hexBinary",  // 3.2.15
   "base64Binary",  // 3.2.16
   "anyURI",  // 3.2.17
-  "QNAME",  // 3.2.18
+  "QName",  // 3.2.18
   "NOTATION",  // 3.2.19
   // NOTE: this includes only the types involved in the xsd:int derivation.
   "integer",  // 3.3.13.  Is-a XSD_DECIMAL.
-- 
2.43.0


From 5feaa4686b24924465a2e383e80a6715cccfeb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:50 +0000
Subject: [PATCH 55/69] fix: XSD type hierarchy queries did not terminate for
 circular base types

---
 src/kml/xsd/xsd_file.cc | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/kml/xsd/xsd_file.cc b/src/kml/xsd/xsd_file.cc
index ac8d184..5aeea3e 100644
--- a/src/kml/xsd/xsd_file.cc
+++ b/src/kml/xsd/xsd_file.cc
@@ -158,8 +158,16 @@ bool XsdFile::GetTypeHierarchy(const XsdComplexTypePtr& complex_type,
   if (!xsd_schema_) {  // Not much we can do w/o a <xs:schema ... >!
     return false;
   }
+  if (!complex_type) {
+    return false;
+  }
   XsdComplexTypePtr current = complex_type;
+  // A hierarchy with more steps than there are types is circular.
+  size_t steps = 0;
   while (current->has_extension_base()) {
+    if (++steps > type_map_.size()) {
+      return false;
+    }
     if (XsdComplexTypePtr base = GetBaseType(current)) {
       if (type_hier) {
         type_hier->push_back(base);
@@ -236,11 +244,13 @@ bool XsdFile::SearchTypeHierarchy(const XsdComplexTypePtr& complex_type,
   if (!xsd_schema_) {  // Not much we can do w/o a <xs:schema ... >!
     return false;
   }
-  if (find_type == complex_type) {
-    return true;
-  }
-  if (XsdComplexTypePtr base_type = GetBaseType(complex_type)) {
-    return SearchTypeHierarchy(base_type, find_type);
+  XsdComplexTypePtr current = complex_type;
+  // A hierarchy with more steps than there are types is circular.
+  for (size_t steps = 0; current && steps <= type_map_.size(); ++steps) {
+    if (find_type == current) {
+      return true;
+    }
+    current = GetBaseType(current);
   }
   return false;
 }
-- 
2.43.0


From fe6d3f13e67b4f44f0c320bf94e7a8a9831f08eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:50 +0000
Subject: [PATCH 56/69] fix: asking an XSD file without a valid schema for its
 namespace or a base type crashed

---
 src/kml/xsd/xsd_file.cc | 3 ++-
 src/kml/xsd/xsd_file.h  | 9 +++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/kml/xsd/xsd_file.cc b/src/kml/xsd/xsd_file.cc
index 5aeea3e..dea7386 100644
--- a/src/kml/xsd/xsd_file.cc
+++ b/src/kml/xsd/xsd_file.cc
@@ -146,7 +146,8 @@ const XsdElementPtr XsdFile::ResolveRef(const string& element_ref) const {
 XsdComplexTypePtr XsdFile::GetBaseType(
     const XsdComplexTypePtr& complex_type) const {
   string type_name;
-  if (!xsd_schema_->SplitNsName(complex_type->get_extension_base(),
+  if (!xsd_schema_ || !complex_type ||
+      !xsd_schema_->SplitNsName(complex_type->get_extension_base(),
                                 &type_name)) {
     return NULL;  // XSD is incomplete.
   }
diff --git a/src/kml/xsd/xsd_file.h b/src/kml/xsd/xsd_file.h
index 99e9e5f..7d649f3 100644
--- a/src/kml/xsd/xsd_file.h
+++ b/src/kml/xsd/xsd_file.h
@@ -80,11 +80,12 @@ class XsdFile {
     type_map_[xsd_type->get_name()] = xsd_type;
   }
 
-  const string& get_target_namespace() const {
-    return xsd_schema_->get_target_namespace();
+  // These are empty if there is no <xs:schema> with a targetNamespace.
+  const string get_target_namespace() const {
+    return xsd_schema_ ? xsd_schema_->get_target_namespace() : string();
   }
-  const string& get_target_namespace_prefix() const {
-    return xsd_schema_->get_target_namespace_prefix();
+  const string get_target_namespace_prefix() const {
+    return xsd_schema_ ? xsd_schema_->get_target_namespace_prefix() : string();
   }
 
   // Create an alias.  For example, "AbstractFeatureGroup" == "Feature".
-- 
2.43.0


From 839d23eecf44922820f5a43ffcf62b6469096f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:52 +0000
Subject: [PATCH 57/69] fix: a date-time followed by other text was accepted

---
 src/kml/base/date_time.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kml/base/date_time.cc b/src/kml/base/date_time.cc
index 01dbfc4..c25cfc1 100644
--- a/src/kml/base/date_time.cc
+++ b/src/kml/base/date_time.cc
@@ -113,7 +113,9 @@ DateTime::DateTime() {
 // private
 bool DateTime::ParseXsdDateTime(const string& xsd_date_time) {
   // TODO: strptime on win32?
-  return strptime(xsd_date_time.c_str(), "%Y-%m-%dT%H:%M:%SZ", &tm_) != NULL;
+  const char* end =
+      strptime(xsd_date_time.c_str(), "%Y-%m-%dT%H:%M:%SZ", &tm_);
+  return end == xsd_date_time.c_str() + xsd_date_time.size();
 }
 
 }  // end namespace kmlbase
-- 
2.43.0


From 2148e410cdd71bddda0b9eb1a57589174efc1f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:52 +0000
Subject: [PATCH 58/69] fix: date-times before 1970 were converted as if in
 1970

---
 src/kml/base/date_time.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kml/base/date_time.cc b/src/kml/base/date_time.cc
index c25cfc1..6d89643 100644
--- a/src/kml/base/date_time.cc
+++ b/src/kml/base/date_time.cc
@@ -70,6 +70,8 @@ time_t DateTime::GetTimeT() const {
   // This and is_leap() base from 1970, the epoch of a time_t.
   for (int year = 70; year < tm_.tm_year; ++year)
     res += is_leap(year) ? 366 : 365;
+  for (int year = tm_.tm_year; year < 70; ++year)
+    res -= is_leap(year) ? 366 : 365;
 
   for (int month = 0; month < tm_.tm_mon; ++month)
     res += ndays[is_leap(tm_.tm_year)][month];
-- 
2.43.0


From c1428b013d89cd1b252ec42368e28216d5bd8c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:22 +0000
Subject: [PATCH 59/69] fix: the line string box of a region was not closed

---
 src/kml/regionator/regionator_util.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/regionator/regionator_util.cc b/src/kml/regionator/regionator_util.cc
index 48bb0c0..460ddd0 100644
--- a/src/kml/regionator/regionator_util.cc
+++ b/src/kml/regionator/regionator_util.cc
@@ -139,7 +139,7 @@ PlacemarkPtr CreateLineStringBox(const string& name, const RegionPtr& region) {
     coordinates->add_latlng(north, east);
     coordinates->add_latlng(south, east);
     coordinates->add_latlng(south, west);
-    coordinates->add_latlng(south, west);
+    coordinates->add_latlng(north, west);
     LineStringPtr linestring = factory->CreateLineString();
     linestring->set_coordinates(coordinates);
     linestring->set_tessellate(true);
-- 
2.43.0


From a9a606aecadde6756917799b2ce3f6e2395273cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:09 +0000
Subject: [PATCH 60/69] fix: entry names which fill the name buffer were read
 past its end

---
 src/kml/base/contrib/minizip/unzip.c | 1 +
 src/kml/base/zip_file.cc             | 6 ++++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/kml/base/contrib/minizip/unzip.c b/src/kml/base/contrib/minizip/unzip.c
index df33f79..094a4db 100644
--- a/src/kml/base/contrib/minizip/unzip.c
+++ b/src/kml/base/contrib/minizip/unzip.c
@@ -914,6 +914,7 @@ extern int ZEXPORT libkml_unzLocateFile (file, szFileName, iCaseSensitivity)
                                     NULL,0,NULL,0);
         if (err == UNZ_OK)
         {
+            szCurrentFileName[UNZ_MAXFILENAMEINZIP]='\0';
             if (libkml_unzStringFileNameCompare(szCurrentFileName,
                                             szFileName,iCaseSensitivity)==0)
                 return UNZ_OK;
diff --git a/src/kml/base/zip_file.cc b/src/kml/base/zip_file.cc
index 3366837..d30353d 100644
--- a/src/kml/base/zip_file.cc
+++ b/src/kml/base/zip_file.cc
@@ -98,9 +98,11 @@ ZipFile::ZipFile(const string& data)
     if (zfile) {
       unz_file_info finfo;
       do {
-        static char buf[1024];
-        if (libkml_unzGetCurrentFileInfo(zfile, &finfo, buf, sizeof(buf),
+        // A name which fills the buffer is not terminated by minizip.
+        char buf[1024 + 1];
+        if (libkml_unzGetCurrentFileInfo(zfile, &finfo, buf, sizeof(buf) - 1,
               0, 0, 0, 0) == UNZ_OK) {
+          buf[sizeof(buf) - 1] = '\0';
           zipfile_toc_.push_back(buf);
         }
       } while (libkml_unzGoToNextFile(zfile) == UNZ_OK);
-- 
2.43.0


From 17bb5a0df3486c72c5e4e9d52bf5befca8257abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:09 +0000
Subject: [PATCH 61/69] fix: archive entry names escaping through an inner
 parent reference were accepted

---
 src/kml/base/zip_file.cc | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/kml/base/zip_file.cc b/src/kml/base/zip_file.cc
index d30353d..6453f98 100644
--- a/src/kml/base/zip_file.cc
+++ b/src/kml/base/zip_file.cc
@@ -219,11 +219,33 @@ bool ZipFile::GetEntry(const string& path_in_zip,
   return false;
 }
 
+// Does following this path lead out of the directory it starts in?
+static bool EscapesBase(const string& path) {
+  int depth = 0;
+  size_t begin = 0;
+  while (begin <= path.size()) {
+    size_t end = path.find_first_of("/\\", begin);
+    if (end == string::npos) {
+      end = path.size();
+    }
+    const string segment = path.substr(begin, end - begin);
+    if (segment == "..") {
+      if (--depth < 0) {
+        return true;
+      }
+    } else if (!segment.empty() && segment != ".") {
+      ++depth;
+    }
+    begin = end + 1;
+  }
+  return false;
+}
+
 bool ZipFile::AddEntry(const string& data,
                        const string& path_in_zip) {
   // The path must be relative to and below the archive.
   if (path_in_zip.substr(0, 1).find_first_of("/\\") != string::npos ||
-      path_in_zip.substr(0, 2) == "..") {
+      path_in_zip.substr(0, 2) == ".." || EscapesBase(path_in_zip)) {
     return false;
   }
   if (!minizip_file_) {
-- 
2.43.0


From 1dfdae020d1a2008445aece4a7b8b0f0ccbdf0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:09 +0000
Subject: [PATCH 62/69] fix: making a KMZ from a file which is not KML crashed

---
 src/kml/engine/kmz_file.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kml/engine/kmz_file.cc b/src/kml/engine/kmz_file.cc
index 05ac2d5..7c98e0d 100644
--- a/src/kml/engine/kmz_file.cc
+++ b/src/kml/engine/kmz_file.cc
@@ -216,6 +216,9 @@ bool KmzFile::CreateFromKmlFilepath(const string& kml_filepath,
 
   KmlFilePtr kml_file =
     KmlFile::CreateFromStringWithUrl(kml_data, base_dir, NULL);
+  if (!kml_file) {
+    return false;
+  }
 
   return CreateFromKmlFile(kml_file, kmz_filepath);
 }
-- 
2.43.0


From b7110451c28edfc4098ec0670664a18943aeb1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:09 +0000
Subject: [PATCH 63/69] fix: KmzCheckLinks reported references into the
 document itself as missing files

---
 src/kml/convenience/kmz_check_links.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/convenience/kmz_check_links.cc b/src/kml/convenience/kmz_check_links.cc
index 015fbc3..1750cf2 100644
--- a/src/kml/convenience/kmz_check_links.cc
+++ b/src/kml/convenience/kmz_check_links.cc
@@ -51,7 +51,7 @@ bool KmzCheckLinks(const KmzFile& kmzfile, vector<string>* missing_links) {
   bool ret = true;  // Innocent until proven guilty.
   for (size_t i = 0; i < href_vector.size(); ++i) {
     Href href(href_vector[i]);
-    if (href.IsRelative()) {
+    if (href.IsRelativePath()) {
       string content;
       if (!kmzfile.ReadFile(href.get_path().c_str(), &content)) {
         if (missing_links) {
-- 
2.43.0


From 751e5144f14cfc9d79fc427baa7f01ebaa5ba4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:13 +0000
Subject: [PATCH 64/69] fix: HttpClient::Login took the rest of the reply, less
 one character, for the token

---
 src/kml/convenience/http_client.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/convenience/http_client.cc b/src/kml/convenience/http_client.cc
index f7fafa6..a1fa83a 100644
--- a/src/kml/convenience/http_client.cc
+++ b/src/kml/convenience/http_client.cc
@@ -97,7 +97,7 @@ bool HttpClient::Login(const string& service_name,
   }
   const string token = response.substr(auth_offset + kAuth.size());
 
-  auth_token_ = token.substr(0, token.size() - 1);  // remove trailing "\n"
+  auth_token_ = token.substr(0, token.find('\n'));  // up to the end of the line
 
   // Attach Authorization header to every subsequent request
   PushHeader("Authorization", "GoogleLogin auth=" + auth_token_, &headers_);
-- 
2.43.0


From 52f65db708b90b7433970b0349aa278643baf4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:13 +0000
Subject: [PATCH 65/69] fix: GoogleMapsData::AddFeature crashed on a feature
 with duplicate ids

---
 src/kml/convenience/google_maps_data.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kml/convenience/google_maps_data.cc b/src/kml/convenience/google_maps_data.cc
index aaa5739..9898cdf 100644
--- a/src/kml/convenience/google_maps_data.cc
+++ b/src/kml/convenience/google_maps_data.cc
@@ -229,6 +229,9 @@ bool GoogleMapsData::AddFeature(const string& feature_feed_post_uri,
   // headers.
   kmlengine::KmlFilePtr kml_file =
       kmlengine::KmlFile::CreateFromImport(entry);
+  if (!kml_file.get()) {
+    return false;
+  }
   string post_data;
   kml_file->SerializeToString(&post_data);
 
-- 
2.43.0


From 45a96025df82c5e511692fe9fc6a33ed56a86b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:14 +0000
Subject: [PATCH 66/69] fix: a Snippet, linkSnippet or SimpleData misplaced
 inside one of its own kind was lost

---
 src/kml/dom/extendeddata.cc | 2 +-
 src/kml/dom/snippet.cc      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kml/dom/extendeddata.cc b/src/kml/dom/extendeddata.cc
index 83c2d28..bf91304 100644
--- a/src/kml/dom/extendeddata.cc
+++ b/src/kml/dom/extendeddata.cc
@@ -69,7 +69,7 @@ void SimpleData::AddElement(const ElementPtr& element) {
   if (!element) {
     return;
   }
-  if (element->Type() == Type_SimpleData) {
+  if (element.get() == this) {
     set_text(get_char_data());
   } else {
     // We have a known KML element inside <SimpleData> and need to store it.
diff --git a/src/kml/dom/snippet.cc b/src/kml/dom/snippet.cc
index fddad92..ffbf54f 100644
--- a/src/kml/dom/snippet.cc
+++ b/src/kml/dom/snippet.cc
@@ -64,7 +64,7 @@ void SnippetCommon::AddElement(const ElementPtr& element) {
   if (!element) {
     return;
   }
-  if (element->Type() == Type()) {
+  if (element.get() == this) {
     set_text(get_char_data());
   } else {
     // A known KML element inside of a snippet is misplaced: store it.
-- 
2.43.0


From 0d81f65d56e185c26f9373c54731c7704b8a6c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:48 +0000
Subject: [PATCH 67/69] fix: ReadFileToString took a directory for an empty
 file

---
 src/kml/base/file.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/kml/base/file.cc b/src/kml/base/file.cc
index 7aec359..9cbdeea 100644
--- a/src/kml/base/file.cc
+++ b/src/kml/base/file.cc
@@ -46,16 +46,20 @@ bool File::ReadFileToString(const string& filename, string* output) {
   if (!input_file.is_open() || !input_file.good()) {
     return false;
   }
-  output->clear();
+  string data;
   const unsigned int kBufferSize = 1024;
   char buffer[kBufferSize];
   while (!input_file.eof() && input_file.good()) {
     input_file.read(buffer, kBufferSize);
     // Guard zero read sizess for MSVC 2010.
     if (input_file.gcount() > 0) {
-      output->append(buffer, static_cast<size_t>(input_file.gcount()));
+      data.append(buffer, static_cast<size_t>(input_file.gcount()));
     }
   }
+  if (input_file.bad()) {
+    return false;  // For example a directory.
+  }
+  output->swap(data);
   return true;
 }
 
-- 
2.43.0


From 4968a526b83dfc4688b97f725d9f143a801021c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:48 +0000
Subject: [PATCH 68/69] fix: WriteStringToFile reported success when the data
 could not be written

---
 src/kml/base/file.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/base/file.cc b/src/kml/base/file.cc
index 9cbdeea..25d9702 100644
--- a/src/kml/base/file.cc
+++ b/src/kml/base/file.cc
@@ -75,7 +75,7 @@ bool File::WriteStringToFile(const string& data,
   }
   output_file.write(data.c_str(), static_cast<std::streamsize>(data.length()));
   output_file.close();
-  return true;
+  return output_file.good();
 }
 
 string File::JoinPaths(const string& p1, const string& p2) {
-- 
2.43.0


From b18ddbe0f9d5e63ab85816a252b7e484c37ccc7c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 12:20:55 +0000
Subject: [PATCH 69/69] fix: StringCaseEqual ignored everything after a NUL

---
 src/kml/base/string_util.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/kml/base/string_util.cc b/src/kml/base/string_util.cc
index 4ced86c..a2d56a9 100644
--- a/src/kml/base/string_util.cc
+++ b/src/kml/base/string_util.cc
@@ -26,6 +26,7 @@
 // This file contains the declarations of various string utility functions.
 
 #include "kml/base/string_util.h"
+#include <ctype.h>
 #include <stdlib.h>
 #include <string.h>  // memcpy, strchr
 
@@ -154,10 +155,17 @@ bool StringEndsWith(const string& str, const string& end) {
 }
 
 bool StringCaseEqual(const string& a, const string& b) {
-#if defined(WIN32) && !defined(strncasecmp)
-# define strncasecmp(s1, s2, n) _strnicmp (s1, s2, n)
-#endif
-  return a.size() == b.size() && strncasecmp(a.data(), b.data(), a.size()) == 0;
+  if (a.size() != b.size()) {
+    return false;
+  }
+  // Not strncasecmp(), which stops at a NUL.
+  for (size_t i = 0; i < a.size(); ++i) {
+    if (tolower(static_cast<unsigned char>(a[i])) !=
+        tolower(static_cast<unsigned char>(b[i]))) {
+      return false;
+    }
+  }
+  return true;
 }
 
 bool StringToDouble(const char* number, double* output) {
-- 
2.43.0

