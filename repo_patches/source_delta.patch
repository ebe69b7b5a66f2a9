From 2e492b343c4d9779de6fa1d25fc37600db5d09f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:12 +0000
Subject: [PATCH 001/106] fix: comment at the end of a configuration script

A comment not followed by a newline re-emitted its last character as a
token, and a lone '#' as last character made the lexer loop forever.
---
 src/Configuration/Script/Lexer.cpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/Configuration/Script/Lexer.cpp b/src/Configuration/Script/Lexer.cpp
index ee8a881..86e876a 100644
--- a/src/Configuration/Script/Lexer.cpp
+++ b/src/Configuration/Script/Lexer.cpp
@@ -42,16 +42,11 @@ char ConfigurationScript::nextc() {
 		// Make sure whitespace and comments are ignored
 		switch (c) {
 			case '#':
-				// Ignore all characters til end-of-line (or file)
-				do {
-					if (this->cnfbufferpos >= this->cnfbufferlength)
-						break;
-
-					c = this->cnfbuffer[this->cnfbufferpos++];
-				} while (c != 0 && c != '\n');
-
-				// Handle the newline or EOF in a new iteration
-				this->cnfbufferpos--;
+				// Ignore all characters til end-of-line (or file).
+				// The newline itself is handled in a new iteration.
+				while (this->cnfbufferpos < this->cnfbufferlength &&
+					   this->cnfbuffer[this->cnfbufferpos] != '\n')
+					this->cnfbufferpos++;
 
 				break;
 			case '\n':
-- 
2.43.0


From b7c426dfe834c731ca9ea06c1181e6e6db6295d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:12 +0000
Subject: [PATCH 002/106] fix: do not read past the end-of-file token when
 recovering from a syntax error

---
 src/Configuration/Script/Interpreter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Configuration/Script/Interpreter.cpp b/src/Configuration/Script/Interpreter.cpp
index efe6b18..134a619 100644
--- a/src/Configuration/Script/Interpreter.cpp
+++ b/src/Configuration/Script/Interpreter.cpp
@@ -37,6 +37,9 @@ bool ConfigurationScript::advance() {
  */
 bool ConfigurationScript::advanceTo(std::initializer_list<conftoken_t> args) {
 	do {
+		// There is nothing beyond EOF
+		if (tokent() == CTKN_EOF) return false;
+
 		ConfigToken *tkn = *(this->tknstream+1);
 
 		for (auto type : args) {
-- 
2.43.0


From ecb35cd9831e6ac5de0ad05bcce71a4d2a471627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:12 +0000
Subject: [PATCH 003/106] fix: an empty configuration script is not a syntax
 error

---
 src/Configuration/Script/Interpreter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Configuration/Script/Interpreter.cpp b/src/Configuration/Script/Interpreter.cpp
index 134a619..6d2f52c 100644
--- a/src/Configuration/Script/Interpreter.cpp
+++ b/src/Configuration/Script/Interpreter.cpp
@@ -194,6 +194,7 @@ ConfigBlock *ConfigurationScript::Interpret(vector<ConfigToken*>& tkns) {
 						blck = blck->GetParent();
 					else throw ConfigurationException(currline(), currcharpos(), currfile(), "Syntax error: Mismatched '{'.");
 				} break;
+				case CTKN_EOF: break;   // Empty script
 				default:
 					const string toks = ttos(tokent());
 					throw ConfigurationException(currline(), currcharpos(), currfile(), "Syntax error: Expected name or block-type, but got " + toks);
-- 
2.43.0


From d677caa7ea9b81a51bd0d5defe0b26fc62bf4b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:12 +0000
Subject: [PATCH 004/106] fix: quoted text is literal

A quoted "=", "{" etc. was taken as punctuation and the empty string ""
was dropped.
---
 .../Configuration/ConfigurationScript.h        |  4 ++--
 src/Configuration/Script/Lexer.cpp             | 18 ++++++++++--------
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/include/softlib/Configuration/ConfigurationScript.h b/include/softlib/Configuration/ConfigurationScript.h
index e36c1bd..a79f99a 100644
--- a/include/softlib/Configuration/ConfigurationScript.h
+++ b/include/softlib/Configuration/ConfigurationScript.h
@@ -119,8 +119,8 @@ private:
 
 	void initbuffer(const std::string&);
 	char nextc();
-	ConfigToken *gettkn(std::string&, ConfigToken*);
-	void pushbuffer(std::string&, std::vector<ConfigToken*>&);
+	ConfigToken *gettkn(std::string&, ConfigToken*, bool quoted=false);
+	void pushbuffer(std::string&, std::vector<ConfigToken*>&, bool quoted=false);
 
 	/* Interpreter properties/methods */
 	std::vector<ConfigToken*>::iterator tknstream;
diff --git a/src/Configuration/Script/Lexer.cpp b/src/Configuration/Script/Lexer.cpp
index 86e876a..8c3ae33 100644
--- a/src/Configuration/Script/Lexer.cpp
+++ b/src/Configuration/Script/Lexer.cpp
@@ -70,9 +70,11 @@ char ConfigurationScript::nextc() {
 
 	return 0;
 }
-ConfigToken *ConfigurationScript::gettkn(string& s, ConfigToken *prev) {
-	// First we check for simple tokens
-	if (s == "=") {
+ConfigToken *ConfigurationScript::gettkn(string& s, ConfigToken *prev, bool quoted) {
+	// First we check for simple tokens (quoted text is never one)
+	if (quoted) {
+		;
+	} else if (s == "=") {
 		return new ConfigToken(CTKN_EQUALS, s, prev, this->linecounter, this->charpos, this->file);
     } else if (s == "(") {
         return new ConfigToken(CTKN_LPAR, s, prev, this->linecounter, this->charpos, this->file);
@@ -104,16 +106,16 @@ ConfigToken *ConfigurationScript::gettkn(string& s, ConfigToken *prev) {
 	// Else, it must be a name.
 	return new ConfigToken(CTKN_NAME, s, prev, this->linecounter, this->charpos, this->file);
 }
-void ConfigurationScript::pushbuffer(string& buffer, vector<ConfigToken*>& tkns) {
-	if (buffer.empty()) return;
+void ConfigurationScript::pushbuffer(string& buffer, vector<ConfigToken*>& tkns, bool quoted) {
+	if (buffer.empty() && !quoted) return;
 
     ConfigToken *ct;
 	if (tkns.empty())
 		//tkns.push_back(gettkn(buffer, NULL));
-        ct = gettkn(buffer, nullptr);
+        ct = gettkn(buffer, nullptr, quoted);
 	else
 		//tkns.push_back(gettkn(buffer, &(tkns.back())));
-        ct = gettkn(buffer, tkns.back());
+        ct = gettkn(buffer, tkns.back(), quoted);
 
     tkns.push_back(ct);
 }
@@ -194,7 +196,7 @@ vector<ConfigToken*> ConfigurationScript::Lex(const string& str) {
 
 		switch (c) {
 			case '"': {
-				pushbuffer(buffer, tkns);
+				pushbuffer(buffer, tkns, this->instring);
 				buffer.clear();
 				this->instring = !this->instring;
 			} break;
-- 
2.43.0


From e98e2fd25534a2a8ea23441375a7e8e786de6660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:12 +0000
Subject: [PATCH 005/106] fix: report unterminated strings and inclusions in
 configuration scripts

A quotation mark or '<' opened at the very end of the script was silently
accepted.
---
 src/Configuration/Script/Lexer.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Configuration/Script/Lexer.cpp b/src/Configuration/Script/Lexer.cpp
index 8c3ae33..beaff04 100644
--- a/src/Configuration/Script/Lexer.cpp
+++ b/src/Configuration/Script/Lexer.cpp
@@ -234,6 +234,12 @@ vector<ConfigToken*> ConfigurationScript::Lex(const string& str) {
 		}
 	}
 
+	if (this->instring || this->ininclude)
+		throw ConfigurationException(
+			this->linecounter, this->charpos, this->file,
+			(this->instring ? "Unterminated string." : "Unterminated inclusion.")
+		);
+
 	// Push remaining buffer
     if (!buffer.empty())
         pushbuffer(buffer, tkns);
-- 
2.43.0


From dd8109842355770f2ad44ad8c3fe7a2cc5f3076f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:12 +0000
Subject: [PATCH 006/106] fix: report configuration files that include
 themselves

They recursed until the stack was exhausted.
---
 include/softlib/Configuration/ConfigurationScript.h |  1 +
 src/Configuration/Script/ConfigurationScript.cpp    |  1 +
 src/Configuration/Script/Lexer.cpp                  | 11 +++++++++++
 3 files changed, 13 insertions(+)

diff --git a/include/softlib/Configuration/ConfigurationScript.h b/include/softlib/Configuration/ConfigurationScript.h
index a79f99a..1c649a7 100644
--- a/include/softlib/Configuration/ConfigurationScript.h
+++ b/include/softlib/Configuration/ConfigurationScript.h
@@ -110,6 +110,7 @@ private:
 		   charpos;			/* Index of character on line */
 	std::string cnfbuffer;
     std::string file;       /* Name of file currently being read */
+    std::vector<std::string> includes; /* Names of the included files currently being read */
 	bool instring,			/* Currently in string (so all characters matter) */
          ininclude,         /* Currently between '<' and '>', meaning the text contains the name
                                of a file to be "included". */
diff --git a/src/Configuration/Script/ConfigurationScript.cpp b/src/Configuration/Script/ConfigurationScript.cpp
index 175ead4..e9b674c 100644
--- a/src/Configuration/Script/ConfigurationScript.cpp
+++ b/src/Configuration/Script/ConfigurationScript.cpp
@@ -65,6 +65,7 @@ void ConfigurationScript::FromStdin() {
  */
 ConfigBlock *ConfigurationScript::FromString(const string& config, const string& src) {
     this->file = src;
+    this->includes.clear();
 
 	// Convert the string to a stream of tokens
 	vector<ConfigToken*> tkns = Lex(config);
diff --git a/src/Configuration/Script/Lexer.cpp b/src/Configuration/Script/Lexer.cpp
index beaff04..e973b0b 100644
--- a/src/Configuration/Script/Lexer.cpp
+++ b/src/Configuration/Script/Lexer.cpp
@@ -134,6 +134,15 @@ vector<ConfigToken*> ConfigurationScript::include_file(const string& name) {
     string oldname, oldbuf;
     size_t bufpos, buflen, linec, charc;
 
+    for (const string& s : this->includes) {
+        if (s == name)
+            throw ConfigurationException(
+                this->linecounter, this->charpos, this->filename,
+                "The configuration file '%s' includes itself.",
+                name.c_str()
+            );
+    }
+
     if (!cfile.is_open())
         throw ConfigurationException(
             this->linecounter, this->charpos, this->filename,
@@ -144,6 +153,7 @@ vector<ConfigToken*> ConfigurationScript::include_file(const string& name) {
     // Save current state
     oldname = this->filename;
     this->filename = name;
+    this->includes.push_back(name);
     
     oldbuf = this->cnfbuffer;
     bufpos = this->cnfbufferpos;
@@ -169,6 +179,7 @@ vector<ConfigToken*> ConfigurationScript::include_file(const string& name) {
     this->cnfbufferpos = bufpos;
     this->cnfbuffer = oldbuf;
     this->filename = oldname;
+    this->includes.pop_back();
 
     return tkns;
 }
-- 
2.43.0


From c3b541f49fa1fbf61c21dc264c66546673615791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:12 +0000
Subject: [PATCH 007/106] fix: sub-blocks of copied and merged blocks point to
 their new parent

---
 src/Configuration/ConfigBlock.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Configuration/ConfigBlock.cpp b/src/Configuration/ConfigBlock.cpp
index 563c66f..b31b3ed 100644
--- a/src/Configuration/ConfigBlock.cpp
+++ b/src/Configuration/ConfigBlock.cpp
@@ -19,8 +19,10 @@ ConfigBlock::ConfigBlock(const ConfigBlock *cb) {
 
     // Copy sub-blocks
     vector<ConfigBlock*> sub = cb->GetAllSubBlocks();
-    for (unsigned int i = 0; i < sub.size(); i++)
+    for (unsigned int i = 0; i < sub.size(); i++) {
         subblocks.push_back(new ConfigBlock(sub.at(i)));
+        subblocks.back()->SetParent(this);
+    }
 
     // Copy settings
     vector<Setting*> set = cb->GetAllSettings();
@@ -83,6 +85,7 @@ ConfigBlock *ConfigBlock::AddSubBlock(ConfigBlock *cb) {
         return GetConfigBlock(cb->GetType(), cb->GetName());
     } else {
         this->subblocks.push_back(cb);
+        cb->SetParent(this);
         return cb;
     }
 }
-- 
2.43.0


From 093db18763d4e803d59d1ba55b0f9270e6b86022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:13 +0000
Subject: [PATCH 008/106] fix: merging copies new settings instead of sharing
 them

Both blocks owned (and deleted) the same object.
---
 src/Configuration/ConfigBlock.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Configuration/ConfigBlock.cpp b/src/Configuration/ConfigBlock.cpp
index b31b3ed..05cfee8 100644
--- a/src/Configuration/ConfigBlock.cpp
+++ b/src/Configuration/ConfigBlock.cpp
@@ -322,7 +322,7 @@ vector<string> *ConfigBlock::Merge(ConfigBlock *cb, bool allowNew) {
 		if (this->HasSetting(set[i]->GetName()))
 			this->MergeSetting(set[i]);
 		else if (allowNew) {
-			this->AddSetting(set[i]);
+			this->AddSetting(set[i]->Copy());
 		} else {
 			if (unknown == nullptr) unknown = new vector<string>();
 			unknown->push_back(set[i]->GetName());
-- 
2.43.0


From d3d336b84695f2e5d7f0cc938c867dac7b54b43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:13 +0000
Subject: [PATCH 009/106] fix: redefining a setting does not mark it as used

---
 src/Configuration/ConfigBlock.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/Configuration/ConfigBlock.cpp b/src/Configuration/ConfigBlock.cpp
index 05cfee8..9c1b388 100644
--- a/src/Configuration/ConfigBlock.cpp
+++ b/src/Configuration/ConfigBlock.cpp
@@ -55,17 +55,19 @@ ConfigBlock::~ConfigBlock() {
  */
 Setting *ConfigBlock::AddSetting(Setting *set) {
     if (HasSetting(set->GetName())) {
-        // Replace setting
-        Setting *s = GetSetting(set->GetName());
-        s->OverwriteValues(set);
-
-        delete set;
-
-        return s;
-    } else {
-        this->settings.push_back(set);
-        return set;
+        // Replace setting (without marking it as used)
+        for (Setting *s : this->settings) {
+            if (s->HasName(set->GetName())) {
+                s->OverwriteValues(set);
+                delete set;
+
+                return s;
+            }
+        }
     }
+
+    this->settings.push_back(set);
+    return set;
 }
 
 /**
-- 
2.43.0


From 9362b7e71822d0087431e98e3ba715afb03094b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:13 +0000
Subject: [PATCH 010/106] fix: type test for scalars and numeric vectors

Out-of-range numbers made the test itself throw, and text starting with a
number was accepted as a number.
---
 src/Configuration/Script/SettingScript.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/Configuration/Script/SettingScript.cpp b/src/Configuration/Script/SettingScript.cpp
index 6af9591..f0d10d0 100644
--- a/src/Configuration/Script/SettingScript.cpp
+++ b/src/Configuration/Script/SettingScript.cpp
@@ -243,13 +243,17 @@ bool SettingScript::IsScalar() const {
 bool SettingScript::IsScalar(unsigned int i) const {
 	const string& value = this->values.at(i);
 
+    size_t end = 0;
+
 	try {
-		stod(value, NULL);
+		stod(value, &end);
 	} catch (invalid_argument& e) {
 		return false;
+	} catch (out_of_range& e) {
+		return false;
 	}
 
-	return true;
+	return (end == value.length());
 }
 
 /**
@@ -260,11 +264,8 @@ bool SettingScript::IsScalar(unsigned int i) const {
 bool SettingScript::IsNumericVector() const {
 	size_t l = this->values.size();
 	for (size_t i = 0; i < l; i++) {
-		try {
-			stod(this->values[i], NULL);
-		} catch (invalid_argument& e) {
+		if (!IsScalar(i))
 			return false;
-		}
 	}
 
 	return true;
-- 
2.43.0


From 1aa569010fd721694f4e4f22d59d0098203e9c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:13 +0000
Subject: [PATCH 011/106] fix: unsigned integer type tests reject negative and
 too large numbers

Reading such a setting returned a wrapped or truncated value.
---
 src/Configuration/Script/SettingScript.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/Configuration/Script/SettingScript.cpp b/src/Configuration/Script/SettingScript.cpp
index f0d10d0..f4d1acc 100644
--- a/src/Configuration/Script/SettingScript.cpp
+++ b/src/Configuration/Script/SettingScript.cpp
@@ -182,8 +182,13 @@ bool SettingScript::IsUnsignedInteger32(unsigned int i) const {
     const string& value = this->values.at(i);
     size_t end = 0;
 
+    // 'stoul' accepts (and wraps) negative numbers
+    if (value.find('-') != string::npos)
+        return false;
+
     try {
-        stoul(value, &end);
+        if (stoull(value, &end) > 0xFFFFFFFFull)
+            return false;
     } catch (invalid_argument& e) {
         return false;
     } catch (out_of_range& e) {
@@ -218,6 +223,10 @@ bool SettingScript::IsUnsignedInteger64(unsigned int i) const {
     const string& value = this->values.at(i);
     size_t end = 0;
 
+    // 'stoull' accepts (and wraps) negative numbers
+    if (value.find('-') != string::npos)
+        return false;
+
     try {
         stoull(value, &end);
     } catch (invalid_argument& e) {
-- 
2.43.0


From 0fe1837ff649a120cbb1c776998ab9abc996b73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:24 +0000
Subject: [PATCH 012/106] fix: overwriting a typed setting reproduces the
 values of the other setting

---
 src/Configuration/SFile/SettingSFile.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/Configuration/SFile/SettingSFile.cpp b/src/Configuration/SFile/SettingSFile.cpp
index 4cbf8c0..48da813 100644
--- a/src/Configuration/SFile/SettingSFile.cpp
+++ b/src/Configuration/SFile/SettingSFile.cpp
@@ -40,9 +40,10 @@ void SettingSFile::DeleteCurrent() {
  *    of this setting.
  */
 void SettingSFile::OverwriteValues(const Setting *s) {
-    if (typeid(s) == typeid(SettingSFile*)) {
-        const SettingSFile *ss = (SettingSFile*)s;
+    if (s == this) return;
 
+    const SettingSFile *ss = dynamic_cast<const SettingSFile*>(s);
+    if (ss != nullptr) {
         switch (ss->dtype) {
             case DataType::BOOL:   this->SetValueBool(new vector<bool>(*(ss->data.b))); break;
             case DataType::INT32:  this->SetValueInt32(new vector<int32_t>(*(ss->data.i32))); break;
@@ -57,45 +58,45 @@ void SettingSFile::OverwriteValues(const Setting *s) {
         }
     } else {
         if (s->IsBool()) {
-            vector<bool> *v = new vector<bool>(s->GetNumberOfValues());
+            vector<bool> *v = new vector<bool>();
             for (size_t i = 0; i < s->GetNumberOfValues(); i++)
                 v->push_back(s->GetBool(i));
 
             this->SetValueBool(v);
         } else if (s->IsInteger32()) {
-            vector<int32_t> *v = new vector<int32_t>(s->GetNumberOfValues());
+            vector<int32_t> *v = new vector<int32_t>();
             for (size_t i = 0; i < s->GetNumberOfValues(); i++)
                 v->push_back(s->GetInteger32(i));
 
             this->SetValueInt32(v);
         } else if (s->IsInteger64()) {
-            vector<int64_t> *v = new vector<int64_t>(s->GetNumberOfValues());
+            vector<int64_t> *v = new vector<int64_t>();
             for (size_t i = 0; i < s->GetNumberOfValues(); i++)
                 v->push_back(s->GetInteger64(i));
 
             this->SetValueInt64(v);
         } else if (s->IsUnsignedInteger32()) {
-            vector<uint32_t> *v = new vector<uint32_t>(s->GetNumberOfValues());
+            vector<uint32_t> *v = new vector<uint32_t>();
             for (size_t i = 0; i < s->GetNumberOfValues(); i++)
                 v->push_back(s->GetUnsignedInteger32(i));
 
             this->SetValueUInt32(v);
         } else if (s->IsUnsignedInteger64()) {
-            vector<uint64_t> *v = new vector<uint64_t>(s->GetNumberOfValues());
+            vector<uint64_t> *v = new vector<uint64_t>();
             for (size_t i = 0; i < s->GetNumberOfValues(); i++)
                 v->push_back(s->GetUnsignedInteger64(i));
 
             this->SetValueUInt64(v);
         } else if (s->IsNumericVector()) {
-            vector<slibreal_t> *v = new vector<slibreal_t>(s->GetNumberOfValues());
+            vector<slibreal_t> *v = new vector<slibreal_t>();
             for (size_t i = 0; i < s->GetNumberOfValues(); i++)
                 v->push_back(s->GetScalar(i));
 
             this->SetValueReal(v);
         } else { // String
-            vector<string> *v = new vector<string>(s->GetNumberOfValues());
+            vector<string> *v = new vector<string>();
             for (size_t i = 0; i < s->GetNumberOfValues(); i++)
-                v->push_back(s->GetString());
+                v->push_back(s->GetString(i));
 
             this->SetValueString(v);
         }
-- 
2.43.0


From d07e338b85be4bf21bad0a6a57c0cfb4edba2ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:24 +0000
Subject: [PATCH 013/106] fix: copy typed settings holding reals and text

---
 src/Configuration/SFile/SettingSFile.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Configuration/SFile/SettingSFile.cpp b/src/Configuration/SFile/SettingSFile.cpp
index 48da813..4f274db 100644
--- a/src/Configuration/SFile/SettingSFile.cpp
+++ b/src/Configuration/SFile/SettingSFile.cpp
@@ -113,6 +113,8 @@ Setting *SettingSFile::Copy() {
         case DataType::INT64:  return new SettingSFile(new vector<int64_t>(*(this->data.i64)));
         case DataType::UINT32: return new SettingSFile(new vector<uint32_t>(*(this->data.u32)));
         case DataType::UINT64: return new SettingSFile(new vector<uint64_t>(*(this->data.u64)));
+        case DataType::REAL:   return new SettingSFile(new vector<slibreal_t>(*(this->data.r)));
+        case DataType::STRING: return new SettingSFile(new vector<string>(*(this->data.s)));
 
         default:
             throw ConfigurationException("The data in setting '%s' is of unrecognized type.", this->name.c_str());
-- 
2.43.0


From 17f7520222cee8ea2d17fff39c0d578ea2ac2ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:24 +0000
Subject: [PATCH 014/106] fix: numeric vector of a typed setting has no leading
 zeros

---
 src/Configuration/SFile/SettingSFile.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Configuration/SFile/SettingSFile.cpp b/src/Configuration/SFile/SettingSFile.cpp
index 4f274db..f0dd00f 100644
--- a/src/Configuration/SFile/SettingSFile.cpp
+++ b/src/Configuration/SFile/SettingSFile.cpp
@@ -165,7 +165,8 @@ string SettingSFile::GetString(unsigned int index) const {
         throw ConfigurationException("The data in setting '%s' is not of string type.", this->name.c_str());
 }
 vector<slibreal_t> SettingSFile::GetNumericVector() const {
-    vector<slibreal_t> v(GetNumberOfValues());
+    vector<slibreal_t> v;
+    v.reserve(GetNumberOfValues());
 
     switch (this->dtype) {
         case DataType::INT32:
-- 
2.43.0


From 48effb3c4dc32b1416debb21257600afdc735bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:24 +0000
Subject: [PATCH 015/106] fix: type tests of typed settings depend on the value
 and its index

---
 src/Configuration/SFile/SettingSFile.cpp | 79 +++++++++++++++---------
 1 file changed, 51 insertions(+), 28 deletions(-)

diff --git a/src/Configuration/SFile/SettingSFile.cpp b/src/Configuration/SFile/SettingSFile.cpp
index f0dd00f..6b66a3c 100644
--- a/src/Configuration/SFile/SettingSFile.cpp
+++ b/src/Configuration/SFile/SettingSFile.cpp
@@ -2,6 +2,7 @@
  * Implementation of the SFile Setting.
  */
 
+#include <cmath>
 #include <limits>
 #include <vector>
 #include <softlib/Configuration/ConfigurationSFile.h>
@@ -125,7 +126,7 @@ Setting *SettingSFile::Copy() {
  * GETTERS              *
  ************************/
 bool SettingSFile::GetBool(unsigned int index) const {
-    if (IsBool())
+    if (this->dtype == DataType::BOOL)
         return this->data.b->at(index);
     else
         throw ConfigurationException("The data in setting '%s' is not of boolean type.", this->name.c_str());
@@ -221,22 +222,31 @@ size_t SettingSFile::GetNumberOfValues() const {
 /************************
  * IS's                 *
  ************************/
-bool SettingSFile::IsBool() const { return (this->dtype == DataType::BOOL); }
-bool SettingSFile::IsBool(unsigned int) const { return IsBool(); }
-bool SettingSFile::IsInteger() const {
+bool SettingSFile::IsBool() const { return IsBool(0); }
+bool SettingSFile::IsBool(unsigned int index) const {
+    return (this->dtype == DataType::BOOL && index < this->data.b->size());
+}
+bool SettingSFile::IsInteger() const { return IsInteger(0); }
+bool SettingSFile::IsInteger(unsigned int index) const {
+    if (!IsNumericVector() || index >= GetNumberOfValues())
+        return false;
+
     switch (this->dtype) {
-        case DataType::INT32: case DataType::INT64:
-        case DataType::UINT32: case DataType::UINT64:
-        case DataType::REAL:
-        return true;
-        
-        default: return false;
+        case DataType::UINT64:
+            return (this->data.u64->at(index) <= (uint64_t)std::numeric_limits<int64_t>::max());
+        case DataType::REAL: {
+            // Only reals which are integers (and fit in 64 bits)
+            slibreal_t r = this->data.r->at(index);
+            return (r == std::floor(r) && r >= -9223372036854775808.0 && r < 9223372036854775808.0);
+        }
+
+        default: return true;
     }
 }
-bool SettingSFile::IsInteger(unsigned int) const { return IsInteger(); }
-bool SettingSFile::IsInteger32() const {
-    if (IsInteger()) {
-        int64_t i = GetInteger();
+bool SettingSFile::IsInteger32() const { return IsInteger32(0); }
+bool SettingSFile::IsInteger32(unsigned int index) const {
+    if (IsInteger(index)) {
+        int64_t i = GetInteger(index);
         if (i <= std::numeric_limits<int32_t>::max() &&
             i >= std::numeric_limits<int32_t>::min())
             return true;
@@ -245,16 +255,17 @@ bool SettingSFile::IsInteger32() const {
     } else
         return false;
 }
-bool SettingSFile::IsInteger32(unsigned int) const { return IsInteger32(); }
-bool SettingSFile::IsInteger64() const { return (this->dtype == DataType::INT64); }
-bool SettingSFile::IsInteger64(unsigned int) const { return IsInteger64(); }
+bool SettingSFile::IsInteger64() const { return IsInteger64(0); }
+bool SettingSFile::IsInteger64(unsigned int index) const {
+    return (this->dtype == DataType::INT64 && IsInteger(index));
+}
 bool SettingSFile::IsUnsignedInteger32() const { return IsUnsignedInteger32(0); }
 bool SettingSFile::IsUnsignedInteger32(unsigned int index) const {
     // Make sure data is >= 0
     if (!IsUnsignedInteger64(index))
         return false;
 
-    int64_t i = GetInteger(index);
+    uint64_t i = GetUnsignedInteger64(index);
     if (i <= std::numeric_limits<uint32_t>::max())
         return true;
     else
@@ -262,6 +273,9 @@ bool SettingSFile::IsUnsignedInteger32(unsigned int index) const {
 }
 bool SettingSFile::IsUnsignedInteger64() const { return IsUnsignedInteger64(0); }
 bool SettingSFile::IsUnsignedInteger64(unsigned int index) const { 
+    if (!IsNumericVector() || index >= GetNumberOfValues())
+        return false;
+
     // Make sure data is >= 0
     switch (this->dtype) {
         case DataType::INT32:
@@ -269,22 +283,31 @@ bool SettingSFile::IsUnsignedInteger64(unsigned int index) const {
         case DataType::INT64:
             return (this->data.i64->at(index) >= 0);
         case DataType::REAL:
-            return (this->data.r->at(index) >= 0);
-
-        case DataType::UINT32:
-        case DataType::UINT64:
-            return true;
+            return (IsInteger(index) && this->data.r->at(index) >= 0);
 
         default:
-            return false;
+            return true;
     }
 }
 bool SettingSFile::IsScalar() const {
-    return (IsInteger() && this->GetNumberOfValues() == 1);
+    return (IsNumericVector() && this->GetNumberOfValues() == 1);
+}
+bool SettingSFile::IsScalar(unsigned int index) const {
+    return (IsNumericVector() && index < this->GetNumberOfValues());
+}
+bool SettingSFile::IsNumericVector() const {
+    switch (this->dtype) {
+        case DataType::INT32: case DataType::INT64:
+        case DataType::UINT32: case DataType::UINT64:
+        case DataType::REAL:
+        return true;
+        
+        default: return false;
+    }
+}
+bool SettingSFile::IsNumericVector(unsigned int n) const {
+    return (IsNumericVector() && this->GetNumberOfValues() == n);
 }
-bool SettingSFile::IsScalar(unsigned int) const { return IsScalar(); }
-bool SettingSFile::IsNumericVector() const { return IsInteger(); }
-bool SettingSFile::IsNumericVector(unsigned int) const { return IsNumericVector(); }
 
 /************************
  * SETTERS              *
-- 
2.43.0


From fec41d3aabefd44b861247bfbbc399d483090f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:52 +0000
Subject: [PATCH 016/106] fix: matrices read from SDT files belong to the
 caller

---
 src/SFile/SFile_SDT.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/SFile/SFile_SDT.cpp b/src/SFile/SFile_SDT.cpp
index 2acaad7..ef6c7f5 100644
--- a/src/SFile/SFile_SDT.cpp
+++ b/src/SFile/SFile_SDT.cpp
@@ -141,7 +141,11 @@ double **SFile_SDT::GetDoubles(const string& name, sfilesize_t *dims) {
     for (sfilesize_t i = 1; i < dims[0]; i++)
         narr[i] = narr[i-1] + dims[1];
 
-    return it->second.value;
+    for (sfilesize_t i = 0; i < dims[0]; i++)
+        for (sfilesize_t j = 0; j < dims[1]; j++)
+            narr[i][j] = it->second.value[i][j];
+
+    return narr;
 }
 
 /**
-- 
2.43.0


From 16665cefbbd55370ce696906ec505d3ad8c6ba87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:52 +0000
Subject: [PATCH 017/106] fix: column vectors of SDT files are vectors

---
 src/SFile/SFile_SDT.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SFile/SFile_SDT.cpp b/src/SFile/SFile_SDT.cpp
index ef6c7f5..50427b7 100644
--- a/src/SFile/SFile_SDT.cpp
+++ b/src/SFile/SFile_SDT.cpp
@@ -217,7 +217,7 @@ double *SFile_SDT::GetDoubles1D(const string &name, sfilesize_t *dims) {
 
     if (it->second.nrows == 1)
         *dims = it->second.ncols;
-    else if (it->second.ncols != 1)
+    else if (it->second.ncols == 1)
         *dims = it->second.nrows;
     else
         throw SFileException("The requested variable is not a vector: '%s'.", name.c_str());
-- 
2.43.0


From 0096b7d15b1a38dea1892aa605b071d739cdee96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:52 +0000
Subject: [PATCH 018/106] fix: SDT files keep all digits of numbers

---
 src/SFile/SFile_SDT.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/SFile/SFile_SDT.cpp b/src/SFile/SFile_SDT.cpp
index 50427b7..17f1b81 100644
--- a/src/SFile/SFile_SDT.cpp
+++ b/src/SFile/SFile_SDT.cpp
@@ -32,6 +32,7 @@
 #include <cstdlib>
 #include <iostream>
 #include <fstream>
+#include <limits>
 #include <string>
 #include <softlib/SFile.h>
 #include <softlib/SFileException.h>
@@ -63,6 +64,9 @@ void SFile_SDT::Open(const string &filename, enum sfile_mode openmode) {
         default:
             throw SFileException("Unrecognized option for opening the SDT file: %d.", mode);
     }
+
+    // Write numbers so that they are read back exactly
+    sdtfile.precision(numeric_limits<double>::max_digits10);
 }
 
 /**
-- 
2.43.0


From e2488cdfe58f5d12cc1d0ba0b5ab0ed5accf7083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:52 +0000
Subject: [PATCH 019/106] fix: report SDT files that cannot be opened

---
 src/SFile/SFile_SDT.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/SFile/SFile_SDT.cpp b/src/SFile/SFile_SDT.cpp
index 17f1b81..20d3461 100644
--- a/src/SFile/SFile_SDT.cpp
+++ b/src/SFile/SFile_SDT.cpp
@@ -52,14 +52,20 @@ void SFile_SDT::Open(const string &filename, enum sfile_mode openmode) {
     switch (mode) {
         case SFILE_MODE_READ:
             sdtfile.open(filename, ios::in);
+            if (!sdtfile.is_open())
+                throw SFileException("%s: Unable to open SDT file.", filename.c_str());
             Load();
             Close();
             break;
         case SFILE_MODE_UPDATE:
             sdtfile.open(filename, ios::in | ios::out);
+            if (!sdtfile.is_open())
+                throw SFileException("%s: Unable to open SDT file.", filename.c_str());
             break;
         case SFILE_MODE_WRITE:
             sdtfile.open(filename, ios::out | ios::trunc);
+            if (!sdtfile.is_open())
+                throw SFileException("%s: Unable to open SDT file.", filename.c_str());
             break;
         default:
             throw SFileException("Unrecognized option for opening the SDT file: %d.", mode);
-- 
2.43.0


From bd64a4750da866745b810402713b3e3650d13cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:52 +0000
Subject: [PATCH 020/106] fix: updating an SDT file keeps its contents

---
 src/SFile/SFile_SDT.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/SFile/SFile_SDT.cpp b/src/SFile/SFile_SDT.cpp
index 20d3461..083189c 100644
--- a/src/SFile/SFile_SDT.cpp
+++ b/src/SFile/SFile_SDT.cpp
@@ -58,9 +58,17 @@ void SFile_SDT::Open(const string &filename, enum sfile_mode openmode) {
             Close();
             break;
         case SFILE_MODE_UPDATE:
-            sdtfile.open(filename, ios::in | ios::out);
+            sdtfile.open(filename, ios::in);
+            if (!sdtfile.is_open())
+                throw SFileException("%s: Unable to open SDT file.", filename.c_str());
+            Load();
+            Close();
+
+            // Add new variables after the existing ones
+            sdtfile.open(filename, ios::out | ios::app);
             if (!sdtfile.is_open())
                 throw SFileException("%s: Unable to open SDT file.", filename.c_str());
+            sdtfile << endl;
             break;
         case SFILE_MODE_WRITE:
             sdtfile.open(filename, ios::out | ios::trunc);
-- 
2.43.0


From 101e03c0a2a54880e3014e2389913dfed620d82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:52 +0000
Subject: [PATCH 021/106] fix: opening another SDT file forgets the previous
 one

---
 src/SFile/SFile_SDT.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/SFile/SFile_SDT.cpp b/src/SFile/SFile_SDT.cpp
index 083189c..193bb39 100644
--- a/src/SFile/SFile_SDT.cpp
+++ b/src/SFile/SFile_SDT.cpp
@@ -49,6 +49,12 @@ using namespace std;
 void SFile_SDT::Open(const string &filename, enum sfile_mode openmode) {
     mode = openmode;
 
+    // Forget about any file opened previously
+    Close();
+    matrices.clear();
+    strings.clear();
+    this->filename = filename;
+
     switch (mode) {
         case SFILE_MODE_READ:
             sdtfile.open(filename, ios::in);
@@ -87,7 +93,8 @@ void SFile_SDT::Open(const string &filename, enum sfile_mode openmode) {
  * Closes the SDT file.
  */
 void SFile_SDT::Close() {
-    sdtfile.close();
+    if (sdtfile.is_open())
+        sdtfile.close();
 }
 
 /**
-- 
2.43.0


From fe661bbc2d1106587c4b5e42016484a58bbebf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:52 +0000
Subject: [PATCH 022/106] fix: blank lines in SDT files separate variables

---
 src/SFile/SFile_SDT.load.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SFile/SFile_SDT.load.cpp b/src/SFile/SFile_SDT.load.cpp
index 928dff5..f1f39bc 100644
--- a/src/SFile/SFile_SDT.load.cpp
+++ b/src/SFile/SFile_SDT.load.cpp
@@ -21,7 +21,8 @@ void SFile_SDT::Load() {
             continue;
 
         stringstream ss(line);
-        ss >> type;
+        if (!(ss >> type))  // Line contains only whitespace
+            continue;
 
         if (type == "@matrix") {
             string name;
-- 
2.43.0


From 712bac8b106bd12d29d815d4e8100be621010dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:52 +0000
Subject: [PATCH 023/106] fix: the last definition of an SDT variable counts

---
 src/SFile/SFile_SDT.load.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/SFile/SFile_SDT.load.cpp b/src/SFile/SFile_SDT.load.cpp
index f1f39bc..0fbe8fb 100644
--- a/src/SFile/SFile_SDT.load.cpp
+++ b/src/SFile/SFile_SDT.load.cpp
@@ -84,7 +84,8 @@ void SFile_SDT::LoadMatrix(const string &name, const sfilesize_t nrows, const sf
     mat.nrows = nrows;
     mat.ncols = ncols;
 
-    matrices.emplace(name, mat);
+    strings.erase(name);
+    matrices[name] = mat;
 }
 
 /**
@@ -109,6 +110,7 @@ void SFile_SDT::LoadString(const string &name, const sfilesize_t) {
     str.name = name;
     str.value = value;
 
-    strings.emplace(name, str);
+    matrices.erase(name);
+    strings[name] = str;
 }
 
-- 
2.43.0


From cf5040b50677f756a797ef273c64261ea2d2ad98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:52 +0000
Subject: [PATCH 024/106] fix: SDT files may contain nan and inf

---
 src/SFile/SFile_SDT.load.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/SFile/SFile_SDT.load.cpp b/src/SFile/SFile_SDT.load.cpp
index 0fbe8fb..46e5542 100644
--- a/src/SFile/SFile_SDT.load.cpp
+++ b/src/SFile/SFile_SDT.load.cpp
@@ -2,6 +2,7 @@
  * Routines for loading/reading SDT files.
  */
 
+#include <cstdlib>
 #include <fstream>
 #include <sstream>
 #include <string>
@@ -72,7 +73,10 @@ void SFile_SDT::LoadMatrix(const string &name, const sfilesize_t nrows, const sf
             vals[i] = vals[i-1] + ncols;
 
         for (sfilesize_t j = 0; j < ncols; j++) {
-            if (!(ss >> vals[i][j]))
+            // (the stream operator does not understand 'nan' and 'inf')
+            string token;
+            char *end;
+            if (!(ss >> token) || (vals[i][j] = strtod(token.c_str(), &end), *end != 0))
                 throw SFileException("Invalid format of matrix '%s' at index (%u, %u).", name.c_str(), i, j);
         }
     }
-- 
2.43.0


From bbff62dc4b5fb62125edd94e5e82148847470dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:52 +0000
Subject: [PATCH 025/106] fix: report variables that cannot be written to an
 SDT file

---
 include/softlib/SFile_SDT.h |  1 +
 src/SFile/SFile_SDT.cpp     | 12 ++++++++++++
 2 files changed, 13 insertions(+)

diff --git a/include/softlib/SFile_SDT.h b/include/softlib/SFile_SDT.h
index 771a6dd..c92a8fc 100644
--- a/include/softlib/SFile_SDT.h
+++ b/include/softlib/SFile_SDT.h
@@ -28,6 +28,7 @@ class SFile_SDT : public SFile {
         mat_list_t matrices;
         str_list_t strings;
 
+        void CheckWritten(const std::string&);
         void Load();
         void LoadMatrix(const std::string&, const sfilesize_t, const sfilesize_t);
         void LoadString(const std::string&, const sfilesize_t);
diff --git a/src/SFile/SFile_SDT.cpp b/src/SFile/SFile_SDT.cpp
index 193bb39..50f313f 100644
--- a/src/SFile/SFile_SDT.cpp
+++ b/src/SFile/SFile_SDT.cpp
@@ -366,6 +366,16 @@ void SFile_SDT::WriteNumArray(const string& name, const T *const* arr, sfilesize
     }
 
     sdtfile << endl;
+    CheckWritten(name);
+}
+
+/**
+ * Raises an exception if the variable with the given
+ * name could not be written to the file.
+ */
+void SFile_SDT::CheckWritten(const string& name) {
+    if (!sdtfile)
+        throw SFileException("%s: Unable to write variable '%s' to SDT file.", filename.c_str(), name.c_str());
 }
 
 void SFile_SDT::WriteArray(const string& name, const double *const* arr, sfilesize_t nrows, sfilesize_t ncols) {
@@ -401,6 +411,7 @@ void SFile_SDT::WriteAttribute_scalar(const string& datasetname, const string& n
     string att_name = GetAttributeName(datasetname, name);
 
     sdtfile << "@matrix " << att_name << " 1 1" << endl << val << endl << endl;
+    CheckWritten(att_name);
 }
 void SFile_SDT::WriteAttribute_string(const string& datasetname, const string& name, const string& val) {
     string att_name = GetAttributeName(datasetname, name);
@@ -451,5 +462,6 @@ void SFile_SDT::WriteString(const string& name, const string& val) {
         sdtfile << (int)c << " ";
 
     sdtfile << endl << endl;
+    CheckWritten(name);
 }
 
-- 
2.43.0


From c096be8e829c5bd8ecdbf182f47bedaafb88b833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:40 +0000
Subject: [PATCH 026/106] fix: multidimensional integer arrays in MAT files

---
 src/SFile/SFile_MAT.HDF5.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/SFile/SFile_MAT.HDF5.cpp b/src/SFile/SFile_MAT.HDF5.cpp
index e682640..8621f36 100644
--- a/src/SFile/SFile_MAT.HDF5.cpp
+++ b/src/SFile/SFile_MAT.HDF5.cpp
@@ -299,19 +299,19 @@ void SFile_MAT::WriteMultiArray(const string& name, const double *arr, const sfi
 }
 void SFile_MAT::WriteMultiInt32Array(const string& name, const int32_t *arr, const sfilesize_t ndims, const sfilesize_t *dims) {
     SFile_HDF5::WriteMultiInt32Array(name, arr, ndims, dims);
-    WriteString(name, "int32");
+    WriteMATLAB_class(name, "int32");
 }
 void SFile_MAT::WriteMultiInt64Array(const string& name, const int64_t *arr, const sfilesize_t ndims, const sfilesize_t *dims) {
     SFile_HDF5::WriteMultiInt64Array(name, arr, ndims, dims);
-    WriteString(name, "int64");
+    WriteMATLAB_class(name, "int64");
 }
 void SFile_MAT::WriteMultiUInt32Array(const string& name, const uint32_t *arr, const sfilesize_t ndims, const sfilesize_t *dims) {
     SFile_HDF5::WriteMultiUInt32Array(name, arr, ndims, dims);
-    WriteString(name, "uint32");
+    WriteMATLAB_class(name, "uint32");
 }
 void SFile_MAT::WriteMultiUInt64Array(const string& name, const uint64_t *arr, const sfilesize_t ndims, const sfilesize_t *dims) {
     SFile_HDF5::WriteMultiUInt64Array(name, arr, ndims, dims);
-    WriteString(name, "uint64");
+    WriteMATLAB_class(name, "uint64");
 }
 
 void SFile_MAT::WriteString(const string& name, const string& str) {
-- 
2.43.0


From 67c54df8e4ab675ae2a70a4665ad84115b071602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:40 +0000
Subject: [PATCH 027/106] fix: month in the header of MAT files

---
 src/SFile/SFile_MAT.HDF5.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SFile/SFile_MAT.HDF5.cpp b/src/SFile/SFile_MAT.HDF5.cpp
index 8621f36..1d3f2d3 100644
--- a/src/SFile/SFile_MAT.HDF5.cpp
+++ b/src/SFile/SFile_MAT.HDF5.cpp
@@ -73,7 +73,7 @@ H5File *SFile_MAT::CreateMAT(const string& filename) {
 
     int
         dayw = local_tm.tm_wday,
-        imon = local_tm.tm_mon-1,
+        imon = local_tm.tm_mon,
         iday = local_tm.tm_mday,
         hour = local_tm.tm_hour,
         minute = local_tm.tm_min,
-- 
2.43.0


From f11e3b25ab0a13d7cc6ac3b8592b7af98cc0ebc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:40 +0000
Subject: [PATCH 028/106] fix: read one-dimensional and empty arrays with
 GetMultiArray

---
 src/SFile/SFile.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/SFile/SFile.cpp b/src/SFile/SFile.cpp
index 669d152..2564483 100644
--- a/src/SFile/SFile.cpp
+++ b/src/SFile/SFile.cpp
@@ -100,16 +100,19 @@ void *SFile::GetMultiArray(const string& name, const sfilesize_t nndims, sfilesi
 	if (ptr == nullptr)
 		return nullptr;
 
+	// A 1-D array needs no conversion
+	if (ndims < 2)
+		return (void*)ptr;
+
 	// Convert to multidimensional pointer
-	sfilesize_t nel = 1;
-	for (sfilesize_t i = 0; i < ndims; i++)
-		nel *= dims[i];
 
 	// Yes, this is horrible abuse of pointers...
 	double **arr;
 	for (sfilesize_t i = ndims-2; true; i--) {
 		sfilesize_t n = dims[i+1];
-		nel /= n;
+		sfilesize_t nel = 1;
+		for (sfilesize_t j = 0; j <= i; j++)
+			nel *= dims[j];
 
 		arr = new double*[nel];
 		for (sfilesize_t j = 0; j < nel; j++)
-- 
2.43.0


From e6664b5431526e2dae992a9e1b7b2fc0aa415c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:59 +0000
Subject: [PATCH 029/106] fix: HDF5 and MAT handles can be closed twice and
 opened again

---
 src/SFile/SFile_HDF5.cpp     | 5 +++++
 src/SFile/SFile_MAT.HDF5.cpp | 1 +
 2 files changed, 6 insertions(+)

diff --git a/src/SFile/SFile_HDF5.cpp b/src/SFile/SFile_HDF5.cpp
index 49a994b..89f59e0 100644
--- a/src/SFile/SFile_HDF5.cpp
+++ b/src/SFile/SFile_HDF5.cpp
@@ -17,6 +17,7 @@ using namespace std;
 SFile_HDF5::SFile_HDF5() {
     // Disable HDF5 error messages
     H5::Exception::dontPrint();
+    this->file = nullptr;
 }
 SFile_HDF5::~SFile_HDF5() {
 	if (this->file != nullptr)
@@ -29,6 +30,7 @@ SFile_HDF5::~SFile_HDF5() {
  * openmode: SFile mode to open file in (read, write or update)
  */
 void SFile_HDF5::Open(const string& filename, enum sfile_mode openmode) {
+	Close();
 	mode = openmode;
 
 	try {
@@ -56,6 +58,9 @@ void SFile_HDF5::Open(const string& filename, enum sfile_mode openmode) {
  * Close the currently open HDF5 file.
  */
 void SFile_HDF5::Close(void) {
+    if (this->file == nullptr)
+        return;
+
     this->file->flush(H5F_SCOPE_GLOBAL);
 	this->file->close();
 	delete this->file;
diff --git a/src/SFile/SFile_MAT.HDF5.cpp b/src/SFile/SFile_MAT.HDF5.cpp
index 1d3f2d3..8642bf0 100644
--- a/src/SFile/SFile_MAT.HDF5.cpp
+++ b/src/SFile/SFile_MAT.HDF5.cpp
@@ -27,6 +27,7 @@ using namespace std::chrono;
  * openmode: SFile mode to open file in (read, write or update)
  */
 void SFile_MAT::Open(const string& filename, enum sfile_mode openmode) {
+	Close();
 	mode = openmode;
 
 	try {
-- 
2.43.0


From 801e3babb4b6cf35653540ed4bf903d79121015b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:12 +0000
Subject: [PATCH 030/106] fix: report missing and unsuitable attributes of HDF5
 files

---
 src/SFile/SFile_HDF5.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/SFile/SFile_HDF5.cpp b/src/SFile/SFile_HDF5.cpp
index 89f59e0..3a073d6 100644
--- a/src/SFile/SFile_HDF5.cpp
+++ b/src/SFile/SFile_HDF5.cpp
@@ -133,12 +133,15 @@ double SFile_HDF5::GetAttributeScalar(const string& datasetname, const string& n
         double s;
         DataSet dataset = file->openDataSet(datasetname);
         Attribute attr = dataset.openAttribute(name);
-        DataType type = attr.getDataType();
 
-        attr.read(type, &s);
+        H5T_class_t cls = attr.getTypeClass();
+        if ((cls != H5T_FLOAT && cls != H5T_INTEGER) || attr.getSpace().getSimpleExtentNpoints() != 1)
+            throw SFileException("The attribute '%s' of '%s' is not a scalar.", name.c_str(), datasetname.c_str());
+
+        attr.read(PredType::NATIVE_DOUBLE, &s);
 
         return s;
-    } catch (FileIException &ex) {
+    } catch (H5::Exception &ex) {
         throw SFileException("Unable to read attribute string '%s'. HDF5 error: %s", datasetname.c_str(), ex.getCDetailMsg());
     }
 }
@@ -157,9 +160,12 @@ string SFile_HDF5::GetAttributeString(const string& datasetname, const string& n
         Attribute attr = dataset.openAttribute(name);
         DataType type = attr.getDataType();
 
+        if (type.getClass() != H5T_STRING)
+            throw SFileException("The attribute '%s' of '%s' is not a string.", name.c_str(), datasetname.c_str());
+
         attr.read(type, s);
         return s;
-    } catch (FileIException &ex) {
+    } catch (H5::Exception &ex) {
         throw SFileException("Unable to read attribute string '%s'. HDF5 error: %s", datasetname.c_str(), ex.getCDetailMsg());
     }
 }
-- 
2.43.0


From 44340de56115c700fee183e884bb5bef648bebc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:12 +0000
Subject: [PATCH 031/106] fix: numbers in HDF5 files are not text

---
 src/SFile/SFile_HDF5.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/SFile/SFile_HDF5.cpp b/src/SFile/SFile_HDF5.cpp
index 3a073d6..45e7ffc 100644
--- a/src/SFile/SFile_HDF5.cpp
+++ b/src/SFile/SFile_HDF5.cpp
@@ -187,6 +187,9 @@ string SFile_HDF5::GetString(const string& name) {
     DataType type = dataset.getDataType();
     DataSpace dspace = dataset.getSpace();
 
+    if (type.getClass() != H5T_STRING)
+        throw SFileException("%s: The requested variable is not a string: '%s'.", filename.c_str(), name.c_str());
+
     dataset.read(s, type, dspace);
 
     return s;
-- 
2.43.0


From 5d586d48862ff9552fab0c33e9fab09171cc5172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:12 +0000
Subject: [PATCH 032/106] fix: report HDF5 variables that are not numeric
 arrays of the requested kind

---
 src/SFile/SFile_HDF5.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/SFile/SFile_HDF5.cpp b/src/SFile/SFile_HDF5.cpp
index 45e7ffc..5c83455 100644
--- a/src/SFile/SFile_HDF5.cpp
+++ b/src/SFile/SFile_HDF5.cpp
@@ -221,7 +221,14 @@ T **SFile_HDF5::GetArray2D(const string& name, sfilesize_t *dims, PredType p) {
 	DataSet dset = this->file->openDataSet(name);
 	DataSpace dspace = dset.getSpace();
 
-	ndims = dspace.getSimpleExtentDims(dims);
+	if (dset.getTypeClass() != H5T_FLOAT && dset.getTypeClass() != H5T_INTEGER)
+		throw SFileException("%s: The requested variable is not numeric: '%s'.", filename.c_str(), name.c_str());
+
+	ndims = dspace.getSimpleExtentNdims();
+	if (ndims != 1 && ndims != 2)
+		throw SFileException("%s: The requested variable is not a 1-D or 2-D array: '%s'.", filename.c_str(), name.c_str());
+
+	dspace.getSimpleExtentDims(dims);
 	
 	if (ndims == 1) {
         dims[1] = dims[0];
@@ -284,7 +291,14 @@ T *SFile_HDF5_GetArray1D(SFile_HDF5 *sf, const string& name, sfilesize_t *dims,
 	DataSet dset = sf->__GetFile()->openDataSet(name);
 	DataSpace dspace = dset.getSpace();
 
-	ndims = dspace.getSimpleExtentDims(d);
+	if (dset.getTypeClass() != H5T_FLOAT && dset.getTypeClass() != H5T_INTEGER)
+		throw SFileException("%s: The requested variable is not numeric: '%s'.", sf->filename.c_str(), name.c_str());
+
+	ndims = dspace.getSimpleExtentNdims();
+	if (ndims != 1 && ndims != 2)
+		throw SFileException("%s: The requested variable is not a 1-D or 2-D array: '%s'.", sf->filename.c_str(), name.c_str());
+
+	dspace.getSimpleExtentDims(d);
 	
 	if (ndims == 1) {
         *dims = d[0];
@@ -325,6 +339,9 @@ double *SFile_HDF5::GetMultiArray_linear(const string& name, const sfilesize_t n
 	DataSet dset = file->openDataSet(name);
 	DataSpace dspace = dset.getSpace();
 
+	if (dset.getTypeClass() != H5T_FLOAT && dset.getTypeClass() != H5T_INTEGER)
+		throw SFileException("%s: The requested variable is not numeric: '%s'.", filename.c_str(), name.c_str());
+
 	ndims = dspace.getSimpleExtentNdims();
 	if (ndims > nndims)
 		return nullptr;
-- 
2.43.0


From 76c92c9f4f5ccbfb6e7d89c51ea96f9ff5fcf1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:12 +0000
Subject: [PATCH 033/106] fix: rows of a matrix written to an HDF5 file need
 not be contiguous

---
 src/SFile/SFile_HDF5.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/SFile/SFile_HDF5.cpp b/src/SFile/SFile_HDF5.cpp
index 5c83455..778b07b 100644
--- a/src/SFile/SFile_HDF5.cpp
+++ b/src/SFile/SFile_HDF5.cpp
@@ -407,7 +407,15 @@ void SFile_HDF5::WriteNumArray(
 	hsize_t dims[] = {rows, cols};
 	DataSpace dspace(2, dims);
 	DataSet dset = file->createDataSet(name, op, dspace);
-	dset.write(arr[0], ip);
+
+	// The rows need not be stored next to each other
+	T *data = new T[rows*cols];
+	for (sfilesize_t i = 0; i < rows; i++)
+		for (sfilesize_t j = 0; j < cols; j++)
+			data[i*cols + j] = arr[i][j];
+
+	dset.write(data, ip);
+	delete [] data;
 	dset.close();
 }
 
-- 
2.43.0


From 0706fa78bb3d07d799f34dff13c027b77e45556e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:22 +0000
Subject: [PATCH 034/106] fix: asking for a multidimensional array of a MAT
 file as text

---
 src/SFile/SFile_MAT.HDF5.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SFile/SFile_MAT.HDF5.cpp b/src/SFile/SFile_MAT.HDF5.cpp
index 8642bf0..463b7a3 100644
--- a/src/SFile/SFile_MAT.HDF5.cpp
+++ b/src/SFile/SFile_MAT.HDF5.cpp
@@ -195,9 +195,10 @@ string SFile_MAT::GetString(const string& name) {
     DataSpace dspace = dataset.getSpace();
 
     sfilesize_t dims[2]={0,0};
-    sfilesize_t n = dspace.getSimpleExtentDims(dims);
+    sfilesize_t n = dspace.getSimpleExtentNdims();
     if (n != 1 && n != 2)
         throw SFileException("Invalid number of dimensions (%llu) for string: %s.", n, name.c_str());
+    dspace.getSimpleExtentDims(dims);
     
     if (type == PredType::STD_U16LE) {
         sfilesize_t len;
-- 
2.43.0


From b10ba397926b7ed3d117cbd92b8b7f959fe81189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:48 +0000
Subject: [PATCH 035/106] fix: reading matrices without rows

---
 src/SFile/SFile.cpp          | 2 +-
 src/SFile/SFile_HDF5.cpp     | 3 ++-
 src/SFile/SFile_SDT.cpp      | 4 ++--
 src/SFile/SFile_SDT.load.cpp | 2 +-
 4 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/SFile/SFile.cpp b/src/SFile/SFile.cpp
index 2564483..b076ed3 100644
--- a/src/SFile/SFile.cpp
+++ b/src/SFile/SFile.cpp
@@ -179,7 +179,7 @@ template<typename Tout, typename Tin>
 Tout **SFile::__Get2DAs(const string& name, sfilesize_t *dims, Tin** (SFile::*f)(const string&, sfilesize_t*), SFile *sf) {
     Tin **a = (sf->*f)(name, dims);
 
-    Tout **b = new Tout*[dims[0]];
+    Tout **b = new Tout*[dims[0] > 0 ? dims[0] : 1];
     b[0] = new Tout[dims[0]*dims[1]];
     for (sfilesize_t i = 1; i < dims[0]; i++)
         b[i] = b[i-1] + dims[1];
diff --git a/src/SFile/SFile_HDF5.cpp b/src/SFile/SFile_HDF5.cpp
index 778b07b..7784d31 100644
--- a/src/SFile/SFile_HDF5.cpp
+++ b/src/SFile/SFile_HDF5.cpp
@@ -238,7 +238,8 @@ T **SFile_HDF5::GetArray2D(const string& name, sfilesize_t *dims, PredType p) {
 		pointers[0] = data;
 	} else {
 		data = new T[dims[0]*dims[1]];
-		pointers = new T*[dims[0]];
+		pointers = new T*[dims[0] > 0 ? dims[0] : 1];
+		pointers[0] = data;
 		for (i = 0; i < dims[0]; i++) {
 			pointers[i] = data + (i*dims[1]);
 		}
diff --git a/src/SFile/SFile_SDT.cpp b/src/SFile/SFile_SDT.cpp
index 50f313f..bf04973 100644
--- a/src/SFile/SFile_SDT.cpp
+++ b/src/SFile/SFile_SDT.cpp
@@ -161,7 +161,7 @@ double **SFile_SDT::GetDoubles(const string& name, sfilesize_t *dims) {
     dims[0] = it->second.nrows;
     dims[1] = it->second.ncols;
 
-    double **narr = new double*[dims[0]];
+    double **narr = new double*[dims[0] > 0 ? dims[0] : 1];
     narr[0] = new double[dims[0]*dims[1]];
     for (sfilesize_t i = 1; i < dims[0]; i++)
         narr[i] = narr[i-1] + dims[1];
@@ -186,7 +186,7 @@ T **SFile_SDT_Get_IntArray2D(SFile_SDT *s, const string& name, sfilesize_t *dims
     double **l = s->GetDoubles(name, dims);
 
     // Allocate new array
-    T **a = new T*[dims[0]];
+    T **a = new T*[dims[0] > 0 ? dims[0] : 1];
     a[0] = new T[dims[0]*dims[1]];
     for (sfilesize_t i = 1; i < dims[0]; i++)
         a[i] = a[i-1] + dims[1];
diff --git a/src/SFile/SFile_SDT.load.cpp b/src/SFile/SFile_SDT.load.cpp
index 46e5542..df496ee 100644
--- a/src/SFile/SFile_SDT.load.cpp
+++ b/src/SFile/SFile_SDT.load.cpp
@@ -61,7 +61,7 @@ void SFile_SDT::Load() {
  * ncols: Number of columns of matrix.
  */
 void SFile_SDT::LoadMatrix(const string &name, const sfilesize_t nrows, const sfilesize_t ncols) {
-    slibreal_t **vals = new slibreal_t*[nrows];
+    slibreal_t **vals = new slibreal_t*[nrows > 0 ? nrows : 1];
     vals[0] = new slibreal_t[nrows*ncols];
 
     for (sfilesize_t i = 0; i < nrows; i++) {
-- 
2.43.0


From be993d3f9f4d2e60cccf0a9387359ba994e28354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:19 +0000
Subject: [PATCH 036/106] fix: a segment parallel to an edge of the domain does
 not cross it

---
 src/MagneticField/MagneticField2D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MagneticField/MagneticField2D.cpp b/src/MagneticField/MagneticField2D.cpp
index 3b83b87..fabfa32 100644
--- a/src/MagneticField/MagneticField2D.cpp
+++ b/src/MagneticField/MagneticField2D.cpp
@@ -60,7 +60,7 @@ bool MagneticField2D::CrossesDomain(
         
         /* Compute determinant and check if zero */
         det = x11*y01 - x01*y11;
-        if (det == 0) return true;
+        if (det == 0) continue;     // Parallel to this edge
 
         s = (1/det) * ((x00-x10)*y01 - (y00-y10)*x01);
         t =-(1/det) * ((y00-y10)*x11 - (x00-x10)*y11);
-- 
2.43.0


From 63a4499113df18ca66bed8263082a64bb8f68289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:19 +0000
Subject: [PATCH 037/106] fix: the domain is closed between its last and first
 points

---
 src/MagneticField/MagneticField2D.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/MagneticField/MagneticField2D.cpp b/src/MagneticField/MagneticField2D.cpp
index fabfa32..18ce669 100644
--- a/src/MagneticField/MagneticField2D.cpp
+++ b/src/MagneticField/MagneticField2D.cpp
@@ -49,11 +49,12 @@ bool MagneticField2D::CrossesDomain(
         x10, y10, x11, y11, s, t, det;
 
     unsigned int i;
-    for (i = 0; i < ndomain-1; i++) {
+    for (i = 0; i < ndomain; i++) {
+        unsigned int ip = (i+1 < ndomain ? i+1 : 0);    // (the domain is closed)
         x10 = rdomain[i];
-        x11 = rdomain[i+1] - x10;
+        x11 = rdomain[ip] - x10;
         y10 = zdomain[i];
-        y11 = zdomain[i+1] - y10;
+        y11 = zdomain[ip] - y10;
 
         /* Check if matrix is zero */
         if (x00-x10 == 0 && y00-y10 == 0) continue;
-- 
2.43.0


From 344bbeacfa34fd9477b27cdc8cc523ef0ecb102b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:19 +0000
Subject: [PATCH 038/106] fix: all edges of the domain count when finding its
 extent

---
 src/MagneticField/MagneticField2D.cpp | 78 +++++++--------------------
 1 file changed, 20 insertions(+), 58 deletions(-)

diff --git a/src/MagneticField/MagneticField2D.cpp b/src/MagneticField/MagneticField2D.cpp
index 18ce669..ba23e9c 100644
--- a/src/MagneticField/MagneticField2D.cpp
+++ b/src/MagneticField/MagneticField2D.cpp
@@ -209,42 +209,7 @@ slibreal_t MagneticField2D::FindMinRadius() {
  * magnetic axis.
  */
 slibreal_t MagneticField2D::FindMaxRadius(unsigned int n, slibreal_t *r, slibreal_t *z) {
-	#define MAGFIELD2D_MAXRPOINTS 2
-	unsigned int i, ir;
-	slibreal_t za = this->GetMagneticAxisZ();
-	slibreal_t rpoints[MAGFIELD2D_MAXRPOINTS];
-
-	for (i = ir = 0; i < n-1 && ir < MAGFIELD2D_MAXRPOINTS; i++) {
-		if ((z[i] >= za && z[i+1] <= za) ||
-			(z[i] <= za && z[i+1] >= za)) {
-			if (z[i+1] == z[i])
-				rpoints[ir++] = max(r[i], r[i+1]);
-			else
-				rpoints[ir++] = r[i] + (r[i+1]-r[i]) * (za-z[i])/(z[i+1]-z[i]);
-		}
-	}
-
-	// Handle last/first point
-	if ((z[n-1] >= za && z[0] <= za) ||
-		(z[n-1] <= za && z[0] >= za)) {
-		if (z[0] == z[n-1])
-			rpoints[ir++] = max(r[i], r[i+1]);
-		else
-			rpoints[ir++] = r[i] + (r[i+1]-r[i]) * (za-z[i])/(z[i+1]-z[i]);
-	}
-
-	if (ir == 0)
-		throw SOFTLibException("Unable to find maximum allowed drop radius. Magnetic axis not within domain.");
-
-	// Find max & min radii
-	this->maxradius = rpoints[0];
-	this->minradius = rpoints[0];
-	for (i = 1; i < ir; i++) {
-		if (rpoints[i] > this->maxradius)
-			this->maxradius = rpoints[i];
-		else if (rpoints[i] < this->minradius)
-			this->minradius = rpoints[i];
-	}
+	FindMaxMin(n, r, z, this->GetMagneticAxisZ(), this->minradius, this->maxradius);
 
 	return this->maxradius;
 }
@@ -295,32 +260,29 @@ void MagneticField2D::FindMaxMin(
     unsigned int n, const slibreal_t *x, const slibreal_t *y,
     const slibreal_t a, slibreal_t &mn, slibreal_t &mx
 ) {
-	#define MAGFIELD2D_MAXXPOINTS 2
-	unsigned int i, ix;
-	slibreal_t xpoints[MAGFIELD2D_MAXXPOINTS];
-
-	for (i = ix = 0; i < n-1 && ix < MAGFIELD2D_MAXRPOINTS; i++) {
-		if ((y[i] >= a && y[i+1] <= a) ||
-			(y[i] <= a && y[i+1] >= a)) {
-			if (y[i+1] == y[i])
-				xpoints[ix++] = max(x[i], x[i+1]);
-			else
-				xpoints[ix++] = x[i] + (x[i+1]-x[i]) * (a-y[i])/(y[i+1]-y[i]);
+	bool found = false;
+
+	for (unsigned int i = 0; i < n; i++) {
+		unsigned int ip = (i+1 < n ? i+1 : 0);	// (the domain is closed)
+
+		if ((y[i] >= a && y[ip] <= a) ||
+			(y[i] <= a && y[ip] >= a)) {
+			slibreal_t x1 = x[i], x2 = x[ip];
+
+			if (y[ip] != y[i])
+				x1 = x2 = x[i] + (x[ip]-x[i]) * (a-y[i])/(y[ip]-y[i]);
+
+			if (!found || max(x1, x2) > mx)
+				mx = max(x1, x2);
+			if (!found || min(x1, x2) < mn)
+				mn = min(x1, x2);
+
+			found = true;
 		}
 	}
 
-	if (ix == 0)
+	if (!found)
 		throw SOFTLibException("Unable to find maximum point. Requested point is not within the domain.");
-
-	// Find max & min radii
-	mx = xpoints[0];
-	mn = xpoints[0];
-	for (i = 1; i < ix; i++) {
-		if (xpoints[i] > mx)
-			mx = xpoints[i];
-		else if (xpoints[i] < mn)
-			mn = xpoints[i];
-	}
 }
 
 /**
-- 
2.43.0


From 20c6543d68dc9e406aeecd031327372cd302e26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:19 +0000
Subject: [PATCH 039/106] fix: bounds of the domain after it is replaced

---
 src/MagneticField/MagneticField2D.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MagneticField/MagneticField2D.cpp b/src/MagneticField/MagneticField2D.cpp
index ba23e9c..a00e995 100644
--- a/src/MagneticField/MagneticField2D.cpp
+++ b/src/MagneticField/MagneticField2D.cpp
@@ -424,6 +424,7 @@ void MagneticField2D::SetDomain(slibreal_t *rd, slibreal_t *zd, unsigned int nd)
     this->zdomain = zd;
     this->ndomain = nd;
 
+	this->bounds_set = false;
 	this->FindMaxRadius();
 }
 
-- 
2.43.0


From aecadb7bde8c757361718216c4730c38478c71f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:19 +0000
Subject: [PATCH 040/106] fix: origin of the line of sight given as a vector

---
 src/MagneticField/MagneticField2D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MagneticField/MagneticField2D.cpp b/src/MagneticField/MagneticField2D.cpp
index a00e995..bbda1e3 100644
--- a/src/MagneticField/MagneticField2D.cpp
+++ b/src/MagneticField/MagneticField2D.cpp
@@ -322,7 +322,7 @@ slibreal_t  MagneticField2D::GetMagneticAxisZ() { return this->magnetic_axis[1];
  */
 bool MagneticField2D::IntersectsDomain3D(slibreal_t *xyz0, slibreal_t *xyz1, bool has_outer_wall) {
     return IntersectsDomain3D(
-        xyz0[0], xyz0[1], xyz0[1],
+        xyz0[0], xyz0[1], xyz0[2],
         xyz1[0], xyz1[1], xyz1[2],
         has_outer_wall
     );
-- 
2.43.0


From 3131b45f7041d40e6e67a1744e77fce0b8037739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:19 +0000
Subject: [PATCH 041/106] fix: lines of sight hit only the part of the surface
 that is there

---
 src/MagneticField/MagneticField2D.cpp | 30 +++++++++++++--------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/MagneticField/MagneticField2D.cpp b/src/MagneticField/MagneticField2D.cpp
index bbda1e3..99e2c7b 100644
--- a/src/MagneticField/MagneticField2D.cpp
+++ b/src/MagneticField/MagneticField2D.cpp
@@ -373,24 +373,23 @@ bool MagneticField2D::__IntersectsDomain3D(
 ) {
     slibreal_t t1=0, t2=0, s1=0, s2=0,
         ic, term1, term2, square, sqr,
-        izn, kz, mz, a, b, c, m, abc, iabc, term, q;
+        izn, kz, mz, a, b, c, m, abc, term, q;
 
     if (znp == zn) {
         /* Equation becomes singular => line if sight does not intersect domain */
         if (zc == zp) return false;
 
         t1 = t2 = (zn-zp)/(zc-zp);
+        if (t1 < 0 || t1 > 1) return false;
+
         ic = 1/(xn-xnp);
         term1 = xp + (xc-xp)*t1, term2 = yp + (yc-yp)*t1;
         square = term1*term1 + term2*term2;
         sqr = sqrt(square);
 
-        s1 = ic * (xn + sqr);
-        s2 = ic * (xn + sqr);
+        s1 = ic * (xn - sqr);
 
-        if ((s1 >= 0 && s1 <= 1) || (s2 >= 0 && s2 <= 1))
-            return true;
-        else return false;
+        return (s1 >= 0 && s1 <= 1);
     } else {
         izn = 1 / (znp-zn);
         kz = (zc-zp)*izn;
@@ -398,21 +397,22 @@ bool MagneticField2D::__IntersectsDomain3D(
         a=xc-xp, b=yc-yp, c=(xnp-xn)*kz;
         m = xn+mz*(xnp-xn);
 
+        /* Solve  abc*t^2 + 2*term*t + q = 0  (without cancellation,
+         * so that 'abc' may be arbitrarily close to zero) */
         abc = a*a + b*b - c*c;
-        if (abc == 0) return true;
-        iabc = 1/abc;
-
-        term = (c*m - a*xp - b*yp) * iabc;
-        q = (m*m - xp*xp - yp*yp)*iabc;
-        square = term*term + q;
+        term = a*xp + b*yp - c*m;
+        q = xp*xp + yp*yp - m*m;
+        square = term*term - abc*q;
 
         if (square < 0) return false;
 
         sqr = sqrt(square);
-        t1 = term + sqr, t2 = term - sqr;
-        s1 = kz*t1,      s2 = kz*t2;
+        term = (term < 0 ? sqr-term : -sqr-term);
+        t1 = term/abc, t2 = q/term;
+        s1 = mz + kz*t1, s2 = mz + kz*t2;
 
-        if ((t1 >= 0 && t1 <= 1) || (t2 >= 0 && t2 <= 1))
+        if ((t1 >= 0 && t1 <= 1 && s1 >= 0 && s1 <= 1) ||
+            (t2 >= 0 && t2 <= 1 && s2 >= 0 && s2 <= 1))
             return true;
     }
 
-- 
2.43.0


From bd47eccfd634002a7cbea9e72f95c3c682327d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:34 +0000
Subject: [PATCH 042/106] fix: progress marks printed twice or out of order by
 several threads

---
 src/General/ProgressTracker.cpp | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/General/ProgressTracker.cpp b/src/General/ProgressTracker.cpp
index 0e67b6e..d3325ef 100644
--- a/src/General/ProgressTracker.cpp
+++ b/src/General/ProgressTracker.cpp
@@ -76,28 +76,22 @@ void ProgressTracker::UpdateNext() {
  * Print progress (if necessary).
  */
 void ProgressTracker::PrintProgress(const long long int i) {
-    const long long int index = this->nextindex;
-    bool returnImmediately = false;
-
 #ifdef _OPENMP
     #pragma omp critical (ProgressTracker_Print)
     {
 #endif
-        if (i < this->next)
-            returnImmediately = true;
-        else
+        if (i >= this->next) {
+            const long long int index = this->nextindex;
             this->UpdateNext();
+
+            if (this->type == PROGRESS_LINES)
+                PrintProgressLines(index);
+
+            this->last->Reset();
+        }
 #ifdef _OPENMP
     }
 #endif
-
-    if (returnImmediately)
-        return;
-
-    if (this->type == PROGRESS_LINES)
-        PrintProgressLines(index);
-
-    this->last->Reset();
 }
 
 /**
-- 
2.43.0


From 903dd09525a1634460870141ebb8bad1a56512dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:34 +0000
Subject: [PATCH 043/106] fix: progress trackers without any marks to print

---
 src/General/ProgressTracker.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/General/ProgressTracker.cpp b/src/General/ProgressTracker.cpp
index d3325ef..7a29541 100644
--- a/src/General/ProgressTracker.cpp
+++ b/src/General/ProgressTracker.cpp
@@ -41,8 +41,13 @@ ProgressTracker::ProgressTracker(
     this->colors = colors;
     this->estimate_remaining = estimate;
 
-    this->dprint = n / nprint;
-    this->modlevel = (n % nprint) * (this->dprint+1);
+    if (nprint > 0) {
+        this->dprint = n / nprint;
+        this->modlevel = (n % nprint) * (this->dprint+1);
+    } else {    // Never print
+        this->dprint = n+1;
+        this->modlevel = 0;
+    }
 
     this->start = new Timer();
     this->last = new Timer();
-- 
2.43.0


From 79b6c788ea83e0ba6b4bf579667effbfc77429a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:34 +0000
Subject: [PATCH 044/106] fix: times of a day and more split into their parts

---
 src/General/Timer.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/General/Timer.cpp b/src/General/Timer.cpp
index 960a171..53a3b30 100644
--- a/src/General/Timer.cpp
+++ b/src/General/Timer.cpp
@@ -71,11 +71,12 @@ struct Timer::time Timer::GetTimeStruct() const {
     t.tp = duration_cast<microseconds>(toc-tic+offset);
 
     t.days         = duration_cast<hours>(toc-tic+offset) / 24;
-    t.hours        = duration_cast<hours>((toc-t.days)-tic+offset);
-    t.minutes      = duration_cast<minutes>((toc-t.days-t.hours)-tic+offset);
-    t.seconds      = duration_cast<seconds>((toc-t.days-t.hours-t.minutes)-tic+offset);
-    t.milliseconds = duration_cast<milliseconds>((toc-t.days-t.hours-t.minutes-t.seconds)-tic+offset);
-    t.microseconds = duration_cast<microseconds>((toc-t.days-t.hours-t.minutes-t.seconds-t.milliseconds)-tic+offset);
+    const hours d  = 24*t.days;     // ('days' counts days, not hours)
+    t.hours        = duration_cast<hours>((toc-d)-tic+offset);
+    t.minutes      = duration_cast<minutes>((toc-d-t.hours)-tic+offset);
+    t.seconds      = duration_cast<seconds>((toc-d-t.hours-t.minutes)-tic+offset);
+    t.milliseconds = duration_cast<milliseconds>((toc-d-t.hours-t.minutes-t.seconds)-tic+offset);
+    t.microseconds = duration_cast<microseconds>((toc-d-t.hours-t.minutes-t.seconds-t.milliseconds)-tic+offset);
 
     return t;
 }
-- 
2.43.0


From 83aeb7db5dc9e9b906a8db20933e852029a52944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:34 +0000
Subject: [PATCH 045/106] fix: total number of seconds of a timer

---
 src/General/Timer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/General/Timer.cpp b/src/General/Timer.cpp
index 53a3b30..ddceed2 100644
--- a/src/General/Timer.cpp
+++ b/src/General/Timer.cpp
@@ -69,6 +69,7 @@ struct Timer::time Timer::GetTimeStruct() const {
     //unsigned long long seconds  = useconds / 1e6;
 
     t.tp = duration_cast<microseconds>(toc-tic+offset);
+    t.total_sec = duration_cast<seconds>(toc-tic+offset);
 
     t.days         = duration_cast<hours>(toc-tic+offset) / 24;
     const hours d  = 24*t.days;     // ('days' counts days, not hours)
-- 
2.43.0


From 68e33e1852849236111c93fb970365995bb7cb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:34 +0000
Subject: [PATCH 046/106] fix: stopping a stopped timer adds no time

---
 src/General/Timer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/General/Timer.cpp b/src/General/Timer.cpp
index ddceed2..69bf190 100644
--- a/src/General/Timer.cpp
+++ b/src/General/Timer.cpp
@@ -108,6 +108,8 @@ void Timer::Reset() {
  * Stop the timer.
  */
 void Timer::Stop() {
+	if (this->stopped) return;
+
 	toc = high_resolution_clock::now();
 	this->stopped = true;
 }
-- 
2.43.0


From aaa5716a99440ab3724f92d804a145109837926d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:37 +0000
Subject: [PATCH 047/106] fix: last character of long error messages

---
 include/softlib/SOFTLibException.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/softlib/SOFTLibException.h b/include/softlib/SOFTLibException.h
index 4620bca..4d44a80 100644
--- a/include/softlib/SOFTLibException.h
+++ b/include/softlib/SOFTLibException.h
@@ -30,9 +30,11 @@ class SOFTLibException : public std::exception {
 				this->errormsg = msg;
 			} else if (n >= SOFTLIBEXCEPTION_BUFFER_SIZE) {
 				buffer = (char*)realloc(buffer, sizeof(char)*(n+1));
-				n = snprintf(buffer, n, msg.c_str(), std::forward<Args>(args) ...);
+				n = snprintf(buffer, n+1, msg.c_str(), std::forward<Args>(args) ...);
 				this->errormsg = buffer;
 			} else this->errormsg = buffer;
+
+			free(buffer);
         }
 
 		virtual const char* what() const throw();
-- 
2.43.0


From 91e2d4d262c9e080b97bf32f775caa843470ab09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:37 +0000
Subject: [PATCH 048/106] fix: color maps that do not start at zero

---
 include/softlib/ImageGenerator/ImageColormap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/softlib/ImageGenerator/ImageColormap.h b/include/softlib/ImageGenerator/ImageColormap.h
index 55b8e2a..dc47f86 100644
--- a/include/softlib/ImageGenerator/ImageColormap.h
+++ b/include/softlib/ImageGenerator/ImageColormap.h
@@ -35,7 +35,7 @@ public:
         int l;
         slibreal_t i, f;
 
-        i = ((v-vmin)/vmax * (ncolors-1));
+        i = ((v-vmin)/(vmax-vmin) * (ncolors-1));
         l = floor(i);
 
         scolor_t clr;
-- 
2.43.0


From c9251b883fb4d7d8d1a8564df369c0129600569b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:37 +0000
Subject: [PATCH 049/106] fix: colors of values far outside the range of the
 color map

---
 include/softlib/ImageGenerator/ImageColormap.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/softlib/ImageGenerator/ImageColormap.h b/include/softlib/ImageGenerator/ImageColormap.h
index dc47f86..efdf461 100644
--- a/include/softlib/ImageGenerator/ImageColormap.h
+++ b/include/softlib/ImageGenerator/ImageColormap.h
@@ -36,18 +36,18 @@ public:
         slibreal_t i, f;
 
         i = ((v-vmin)/(vmax-vmin) * (ncolors-1));
-        l = floor(i);
 
         scolor_t clr;
-        if (l >= ((int)ncolors)-1) {
+        if (i >= ncolors-1) {
             clr.red   = colors[ncolors-1].red;
             clr.green = colors[ncolors-1].green;
             clr.blue  = colors[ncolors-1].blue;
-        } else if (l < 0) {
+        } else if (!(i >= 0)) {     // (also not-a-number)
             clr.red   = colors[0].red;
             clr.green = colors[0].green;
             clr.blue  = colors[0].blue;
         } else {
+            l = floor(i);
             f = i - (slibreal_t)l;
 
             // Linearly interpolate in colors
-- 
2.43.0


From b389189ee97ed8943b7958cd52bf09fbeab001a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:37 +0000
Subject: [PATCH 050/106] fix: images generated without naming a color map

---
 src/ImageGenerator/ImageGenerator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ImageGenerator/ImageGenerator.cpp b/src/ImageGenerator/ImageGenerator.cpp
index b92871d..286f9b0 100644
--- a/src/ImageGenerator/ImageGenerator.cpp
+++ b/src/ImageGenerator/ImageGenerator.cpp
@@ -35,6 +35,9 @@ void ImageGenerator::gen(
     const unsigned int nrows, const unsigned int ncols, ImageColormap *colormap
 ) {
     ImageGenerator *igen = GetImageGenerator(type);
+    if (colormap == nullptr)
+        colormap = igen->cmap_gerimap;
+
     igen->SaveImage(name, img, nrows, ncols, colormap);
     delete igen;
 }
-- 
2.43.0


From d5fe7b8562f7ee91a0f1325e1738209e6d383407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:37 +0000
Subject: [PATCH 051/106] fix: report PPM images that cannot be written

---
 src/ImageGenerator/ImageGeneratorPPM.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ImageGenerator/ImageGeneratorPPM.cpp b/src/ImageGenerator/ImageGeneratorPPM.cpp
index c993506..261c9d3 100644
--- a/src/ImageGenerator/ImageGeneratorPPM.cpp
+++ b/src/ImageGenerator/ImageGeneratorPPM.cpp
@@ -19,6 +19,8 @@ void ImageGeneratorPPM::SaveImage(
 ) {
     ofstream file;
     file.open(name);
+    if (!file.is_open())
+        throw SOFTLibException("Unable to create PPM file.");
 
     /********************
      * Write PPM header *
@@ -45,4 +47,6 @@ void ImageGeneratorPPM::SaveImage(
     }
 
     file.close();
+    if (file.fail())
+        throw SOFTLibException("Unable to write PPM.");
 }
-- 
2.43.0


From 02634bfa97c37cc73dffd898269177bd4939c5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:01 +0000
Subject: [PATCH 052/106] fix: report PNG images that cannot be written

---
 src/ImageGenerator/ImageGeneratorPNG.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ImageGenerator/ImageGeneratorPNG.cpp b/src/ImageGenerator/ImageGeneratorPNG.cpp
index ba59e96..53e024a 100644
--- a/src/ImageGenerator/ImageGeneratorPNG.cpp
+++ b/src/ImageGenerator/ImageGeneratorPNG.cpp
@@ -82,6 +82,7 @@ void ImageGeneratorPNG::SaveImage(
     png_free(png_ptr, row_pointers);
 
     png_destroy_write_struct(&png_ptr, &info_ptr);
-    fclose(f);
+    if (fclose(f) != 0)
+        throw SOFTLibException("Unable to write PNG.");
 }
 
-- 
2.43.0


From 999b919683794d2f981b0a31c010fff069cb678b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:09 +0000
Subject: [PATCH 053/106] fix: vectors modified by one of their own elements

---
 include/softlib/General/Vector.tcc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/softlib/General/Vector.tcc b/include/softlib/General/Vector.tcc
index a819e18..31b1fb7 100644
--- a/include/softlib/General/Vector.tcc
+++ b/include/softlib/General/Vector.tcc
@@ -102,8 +102,9 @@ Vector<N,T>& Vector<N,T>::operator+=(const Vector<N,T>& v) {
 }
 template<unsigned int N, class T>
 Vector<N,T>& Vector<N,T>::operator+=(const T& s) {
+	const T c = s;	// ('s' may be one of our elements)
 	for (unsigned int i = 0; i < N; i++)
-		elems[i] += s;
+		elems[i] += c;
 
 	return *this;
 }
@@ -124,8 +125,9 @@ Vector<N,T>& Vector<N,T>::operator-=(const Vector<N,T>& v) {
 }
 template<unsigned int N, class T>
 Vector<N,T>& Vector<N,T>::operator-=(const T& s) {
+	const T c = s;	// ('s' may be one of our elements)
 	for (unsigned int i = 0; i < N; i++)
-		elems[i] -= s;
+		elems[i] -= c;
 
 	return *this;
 }
@@ -137,8 +139,9 @@ Vector<N,T>& Vector<N,T>::operator-=(const T& s) {
  */
 template<unsigned int N, class T>
 Vector<N,T>& Vector<N,T>::operator*=(const T& s) {
+	const T c = s;	// ('s' may be one of our elements)
 	for (unsigned int i = 0; i < N; i++)
-		elems[i] *= s;
+		elems[i] *= c;
 
 	return *this;
 }
-- 
2.43.0


From 0c84db1f4e4185a50ed48afe504484f97f2f3e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:09 +0000
Subject: [PATCH 054/106] fix: cross product stored in one of its factors

---
 include/softlib/General/Vector.tcc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/softlib/General/Vector.tcc b/include/softlib/General/Vector.tcc
index 31b1fb7..2965635 100644
--- a/include/softlib/General/Vector.tcc
+++ b/include/softlib/General/Vector.tcc
@@ -309,9 +309,14 @@ Vector<N,T> &Vector<N,T>::Cross(const Vector<N,T> &a, const Vector<N,T> &b, Vect
     if (N != 3)
         throw SOFTLibException("Cross products are only defined for 3-vectors.");
     else {
-        c[0] = a[1]*b[2] - a[2]*b[1];
-        c[1] = a[2]*b[0] - a[0]*b[2];
-        c[2] = a[0]*b[1] - a[1]*b[0];
+        // (c may be the same vector as a or b)
+        const T c0 = a[1]*b[2] - a[2]*b[1];
+        const T c1 = a[2]*b[0] - a[0]*b[2];
+        const T c2 = a[0]*b[1] - a[1]*b[0];
+
+        c[0] = c0;
+        c[1] = c1;
+        c[2] = c2;
 
         return c;
     }
-- 
2.43.0


From 72cdc4a977145e069d6f203d584b1ea41c7f2eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:09 +0000
Subject: [PATCH 055/106] fix: exact division of vectors

---
 include/softlib/General/Vector.tcc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/softlib/General/Vector.tcc b/include/softlib/General/Vector.tcc
index 2965635..8749351 100644
--- a/include/softlib/General/Vector.tcc
+++ b/include/softlib/General/Vector.tcc
@@ -153,7 +153,10 @@ Vector<N,T>& Vector<N,T>::operator*=(const T& s) {
  */
 template<unsigned int N, class T>
 Vector<N,T>& Vector<N,T>::operator/=(const T& s) {
-	(*this) *= (1.0/s);
+	const T c = s;	// ('s' may be one of our elements)
+	for (unsigned int i = 0; i < N; i++)
+		elems[i] /= c;
+
 	return *this;
 }
 
-- 
2.43.0


From b93aec80e7b995f2ad9f164a94bb5f3017c0643c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:09 +0000
Subject: [PATCH 056/106] fix: negating a constant vector

---
 include/softlib/General/Vector.tcc | 2 +-
 include/softlib/Vector.h           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/softlib/General/Vector.tcc b/include/softlib/General/Vector.tcc
index 8749351..1b892da 100644
--- a/include/softlib/General/Vector.tcc
+++ b/include/softlib/General/Vector.tcc
@@ -164,7 +164,7 @@ Vector<N,T>& Vector<N,T>::operator/=(const T& s) {
  * Negate all elements.
  */
 template<unsigned int N, class T>
-Vector<N,T> Vector<N,T>::operator-() {
+Vector<N,T> Vector<N,T>::operator-() const {
     Vector<N,T> v;
     for (unsigned int i = 0; i < N; i++)
         v[i] = -elems[i];
diff --git a/include/softlib/Vector.h b/include/softlib/Vector.h
index bbf82fd..e267df4 100644
--- a/include/softlib/Vector.h
+++ b/include/softlib/Vector.h
@@ -28,7 +28,7 @@ class Vector {
 		Vector<N,T>& operator-=(const T&);
 		Vector<N,T>& operator*=(const T&);
 		Vector<N,T>& operator/=(const T&);
-        Vector<N,T>  operator-();
+        Vector<N,T>  operator-() const;
 		T Dot(const Vector<N,T>&) const;
 
 		/* Useful operations */
-- 
2.43.0


From 50347995e6827c0538d388a80a5968586f7953aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:09 +0000
Subject: [PATCH 057/106] fix: assigning and adding matrices

---
 include/softlib/General/Matrix.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/softlib/General/Matrix.tcc b/include/softlib/General/Matrix.tcc
index 0bcff02..e993b18 100644
--- a/include/softlib/General/Matrix.tcc
+++ b/include/softlib/General/Matrix.tcc
@@ -124,7 +124,7 @@ unsigned int Matrix<M,N,T>::Cols() const { return N; }
 template<unsigned int M, unsigned int N, class T>
 Matrix<M,N,T>& Matrix<M,N,T>::operator=(const Matrix<M,N,T>& mat) {
     for (unsigned int i = 0; i < M*N; i++)
-        elems[i] = mat[i];
+        elems[i] = mat(i);
 
     return *this;
 }
@@ -137,7 +137,7 @@ Matrix<M,N,T>& Matrix<M,N,T>::operator=(const Matrix<M,N,T>& mat) {
 template<unsigned int M, unsigned int N, class T>
 Matrix<M,N,T>& Matrix<M,N,T>::operator+=(const Matrix<M,N,T>& mat) {
     for (unsigned int i = 0; i < M*N; i++)
-        elems[i] += mat[i];
+        elems[i] += mat(i);
 
     return *this;
 }
-- 
2.43.0


From 71f31dea3e4349c8d0bb6360d3686fee86a1d6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:09 +0000
Subject: [PATCH 058/106] fix: subtracting a matrix from a scalar

---
 include/softlib/General/Matrix.tcc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/softlib/General/Matrix.tcc b/include/softlib/General/Matrix.tcc
index e993b18..e2f791e 100644
--- a/include/softlib/General/Matrix.tcc
+++ b/include/softlib/General/Matrix.tcc
@@ -280,8 +280,9 @@ Matrix<M,N,T> operator-(const Matrix<M,N,T>& lhs, const T rhs) {
 }
 template<unsigned int M, unsigned int N, class T>
 Matrix<M,N,T> operator-(const T lhs, const Matrix<M,N,T>& rhs) {
-    Matrix<M,N,T> C(rhs);
-    C -= lhs;
+    Matrix<M,N,T> C;
+    C += lhs;
+    C -= rhs;
     return C;
 }
 
-- 
2.43.0


From 8f81af001882658cdd502b504731669c2ea37e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:09 +0000
Subject: [PATCH 059/106] fix: multiplying a matrix by a scalar

---
 include/softlib/General/Matrix.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/softlib/General/Matrix.tcc b/include/softlib/General/Matrix.tcc
index e2f791e..4e0ed99 100644
--- a/include/softlib/General/Matrix.tcc
+++ b/include/softlib/General/Matrix.tcc
@@ -312,13 +312,13 @@ Matrix<M,K,T> operator*(const Matrix<M,N,T>& l, const Matrix<N,K,T>& r) {
 template<unsigned int M, unsigned int N, class T>
 Matrix<M,N,T> operator*(const Matrix<M,N,T>& l, const T r) {
     Matrix<M,N,T> C(l);
-    C += r;
+    C *= r;
     return C;
 }
 template<unsigned int M, unsigned int N, class T>
 Matrix<M,N,T> operator*(const T l, const Matrix<M,N,T>& r) {
     Matrix<M,N,T> C(r);
-    C += l;
+    C *= l;
     return C;
 }
 
-- 
2.43.0


From 3cdbc4a901a8216bfc42436565e9000626f491a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:09 +0000
Subject: [PATCH 060/106] fix: multiplying a matrix from the left by a vector

---
 include/softlib/General/Matrix.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/softlib/General/Matrix.tcc b/include/softlib/General/Matrix.tcc
index 4e0ed99..029e060 100644
--- a/include/softlib/General/Matrix.tcc
+++ b/include/softlib/General/Matrix.tcc
@@ -352,7 +352,7 @@ Vector<N,T> operator*(const Vector<M,T>& l, const Matrix<M,N,T>& r) {
     for (unsigned int i = 0; i < N; i++) {
         T sum = 0;
         for (unsigned int j = 0; j < M; j++)
-            sum += l(j,i) * r[j];
+            sum += l[j] * r(j,i);
 
         vec[i] = sum;
     }
-- 
2.43.0


From d67f93b25bab2f250124037acbee4be8383d7436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:09 +0000
Subject: [PATCH 061/106] fix: multiplying a matrix in place

---
 include/softlib/General/Matrix.tcc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/softlib/General/Matrix.tcc b/include/softlib/General/Matrix.tcc
index 029e060..0c97245 100644
--- a/include/softlib/General/Matrix.tcc
+++ b/include/softlib/General/Matrix.tcc
@@ -192,11 +192,14 @@ Matrix<M,N,T>& Matrix<M,N,T>::operator-=(const T s) {
  */
 template<unsigned int M, unsigned int N, class T>
 Matrix<M,N,T>& Matrix<M,N,T>::operator*=(const Matrix<N,M,T>& mat) {
+    const Matrix<M,N,T> l(*this);
+    const Matrix<N,M,T> r(mat);     // ('mat' may be this matrix)
+
     for (unsigned int i = 0; i < M; i++) {
         for (unsigned int j = 0; j < M; j++) {
             T sum = 0;
             for (unsigned k = 0; k < N; k++)
-                sum += elems[i*N+k] * mat(k,j);
+                sum += l(i,k) * r(k,j);
 
             elems[i*N+j] = sum;
         }
-- 
2.43.0


From 2280a9eafed77d62482426178cd4504a77f993f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:09 +0000
Subject: [PATCH 062/106] fix: negating a matrix leaves it as it is

---
 include/softlib/General/Matrix.tcc | 10 ++++++----
 include/softlib/Matrix.h           |  2 +-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/softlib/General/Matrix.tcc b/include/softlib/General/Matrix.tcc
index 0c97245..0984e4b 100644
--- a/include/softlib/General/Matrix.tcc
+++ b/include/softlib/General/Matrix.tcc
@@ -222,14 +222,16 @@ Matrix<M,N,T>& Matrix<M,N,T>::operator*=(const T s) {
 }
 
 /**
- * Negate all elements of this matrix.
+ * Returns a matrix with all elements of
+ * this matrix negated.
  */
 template<unsigned int M, unsigned int N, class T>
-Matrix<M,N,T>& Matrix<M,N,T>::operator-() {
+Matrix<M,N,T> Matrix<M,N,T>::operator-() const {
+    Matrix<M,N,T> C;
     for (unsigned int i = 0; i < M*N; i++)
-        elems[i] = -elems[i];
+        C(i) = -elems[i];
 
-    return *this;
+    return C;
 }
 
 
diff --git a/include/softlib/Matrix.h b/include/softlib/Matrix.h
index a5b346f..2da9003 100644
--- a/include/softlib/Matrix.h
+++ b/include/softlib/Matrix.h
@@ -34,7 +34,7 @@ class Matrix {
         Matrix<M,N,T>& operator-=(const T);
         Matrix<M,N,T>& operator*=(const Matrix<N,M,T>&);
         Matrix<M,N,T>& operator*=(const T);
-        Matrix<M,N,T>& operator-();
+        Matrix<M,N,T>  operator-() const;
 
         unsigned int Rows() const;
         unsigned int Cols() const;
-- 
2.43.0


From a78c5af12d690acf2c1723ac75fa6312bacab193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:00 +0000
Subject: [PATCH 063/106] fix: refuse momentum grids that cannot be
 interpolated in

A grid that is not strictly increasing, or has too few points, made GSL abort the program.
---
 ...NumericMomentumSpaceDistributionFunction.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp b/src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp
index 9cd74d7..08bdc87 100644
--- a/src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp
@@ -76,11 +76,18 @@ void NumericMomentumSpaceDistributionFunction::Initialize(
     this->ximin = xi[0];
     this->ximax = xi[nxi-1];
 
-    if (this->pmin > this->pmax)
-        throw SOFTLibException("The p-grid must be strictly increasing.");
-
-    if (this->ximin > this->ximax)
-        throw SOFTLibException("The xi-grid must be strictly increasing.");
+    for (unsigned int i = 1; i < np; i++)
+        if (!(p[i-1] < p[i]))
+            throw SOFTLibException("The p-grid must be strictly increasing.");
+
+    for (unsigned int i = 1; i < nxi; i++)
+        if (!(xi[i-1] < xi[i]))
+            throw SOFTLibException("The xi-grid must be strictly increasing.");
+
+    const gsl_interp2d_type *itype = (interp == NumericMomentumSpaceDistributionFunction::INTERPOLATION_LINEAR)
+        ? gsl_interp2d_bilinear : gsl_interp2d_bicubic;
+    if (np < gsl_interp2d_type_min_size(itype) || nxi < gsl_interp2d_type_min_size(itype))
+        throw SOFTLibException("Too few points in the momentum grid for interpolation: %u x %u.", np, nxi);
 
     // Initialize interpolation
     pa = gsl_interp_accel_alloc();
-- 
2.43.0


From 8f9c187af1aeb4e8dbd3f9bbded85c8f0140a77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:00 +0000
Subject: [PATCH 064/106] fix: clones of logarithmic distributions are
 logarithmic

The clone returned the logarithm of the distribution.
---
 .../NumericMomentumSpaceDistributionFunction.cpp                 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp b/src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp
index 08bdc87..0e42692 100644
--- a/src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp
@@ -145,6 +145,7 @@ NumericMomentumSpaceDistributionFunction *NumericMomentumSpaceDistributionFuncti
 
     df->Initialize(this->np, this->nxi, this->p, this->xi, this->f, this->interptype);
     df->FlipPitchSign(this->flipPitchSign);
+    df->SetLogarithmic(this->logarithmic);
     return df;
 }
 
-- 
2.43.0


From fe0f214fde32cd6075540db0cb389fdb6a814235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:00 +0000
Subject: [PATCH 065/106] fix: keep the first radius of an initialized
 distribution

The radial grid lacked the first radius, so every momentum distribution was
used at the radius after its own. Two decreasing radii were refused.
---
 src/DistributionFunction/NumericDistributionFunction.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/DistributionFunction/NumericDistributionFunction.cpp b/src/DistributionFunction/NumericDistributionFunction.cpp
index 1b4ee2a..f876b72 100644
--- a/src/DistributionFunction/NumericDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericDistributionFunction.cpp
@@ -135,11 +135,11 @@ void NumericDistributionFunction::Initialize(
     bool ascnd = true;
 
     // Ensure that the radial grid is monotonically increasing or decreasing
-    if (nr > 2)
+    if (nr > 1)
         ascnd = (r[1] >= r[0]);
 
-    for (unsigned int i = 1; i < nr; i++) {
-        if ((ascnd && r[i-1] >= r[i]) || (!ascnd && r[i-1] <= r[i]))
+    for (unsigned int i = 0; i < nr; i++) {
+        if (i > 0 && ((ascnd && r[i-1] >= r[i]) || (!ascnd && r[i-1] <= r[i])))
             throw SOFTLibException("Numerical distribution function: The radial grid must be monotonically increasing or decreasing.");
 
         // Copy radius to radial grid
-- 
2.43.0


From c195973a0d24f8bc0404fc0e59898a5ad483c9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:00 +0000
Subject: [PATCH 066/106] fix: insert momentum distributions at their radius

A radius below all others was put last while its distribution was put first,
the second radius was always put last, and decreasing grids were searched
as if increasing.
---
 .../NumericDistributionFunction.cpp               | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/DistributionFunction/NumericDistributionFunction.cpp b/src/DistributionFunction/NumericDistributionFunction.cpp
index f876b72..d10ec76 100644
--- a/src/DistributionFunction/NumericDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericDistributionFunction.cpp
@@ -86,7 +86,7 @@ int NumericDistributionFunction::__FindNearestR(const slibreal_t r) {
     int il, im, iu, nnr = (int)this->r.size();
 
     if (nnr == 0) return -1;
-    else if (nnr == 1) return 0;
+    else if (nnr == 1) return (r < this->r[0] ? -1 : 0);
     ascnd = (this->r[1] > this->r[0]);
     
     il = 0;
@@ -99,11 +99,9 @@ int NumericDistributionFunction::__FindNearestR(const slibreal_t r) {
             iu = im;
     }
 
-    if (il > nnr-1)
-        return nnr-1;
-    else if (r < this->r[0])
+    if (ascnd ? (r < this->r[0]) : (r > this->r[0]))
         return -1;
-    else if (r > this->r[nnr-1])
+    else if (ascnd ? (r > this->r[nnr-1]) : (r < this->r[nnr-1]))
         return nnr-1;
     else
         return il;
@@ -232,10 +230,7 @@ int NumericDistributionFunction::InsertMomentumSpaceDistribution(
     slibreal_t r, NumericMomentumSpaceDistributionFunction *msdf
 ) {
     int ir = __FindNearestR(r);
-    if (ir == -1)
-        this->r.push_back(r);
-    else
-        this->r.insert(this->r.begin() + ir+1, r);
+    this->r.insert(this->r.begin() + (ir+1), r);
 
     // Set radial grid limits
     if (this->r.size() == 1)
@@ -246,7 +241,7 @@ int NumericDistributionFunction::InsertMomentumSpaceDistribution(
         this->rmin = r;
 
     // Initialize momentum space distributions
-    this->msdf.insert(this->msdf.begin() + ir+1, msdf);
+    this->msdf.insert(this->msdf.begin() + (ir+1), msdf);
 
     return (ir+1);
 }
-- 
2.43.0


From 06969da9fb0504238c5e8d6915293fba5f203cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:00 +0000
Subject: [PATCH 067/106] fix: radial interpolation at radius zero and beyond
 the last radius

With a radius at zero everything below the second radius, and with a single
radius the value at zero, was NaN. Beyond the last radius the line was
continued towards a point at the wrong radius.
---
 .../NumericDistributionFunction.cpp           | 42 +++++++------------
 1 file changed, 15 insertions(+), 27 deletions(-)

diff --git a/src/DistributionFunction/NumericDistributionFunction.cpp b/src/DistributionFunction/NumericDistributionFunction.cpp
index d10ec76..da40ce2 100644
--- a/src/DistributionFunction/NumericDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericDistributionFunction.cpp
@@ -40,33 +40,21 @@ slibreal_t NumericDistributionFunction::Eval(
     int ir = __FindNearestR(rho);
     slibreal_t r0, r1;
 
-    if (nr == 1) {
-        r0 = rho;
-        r1 = 0;
-
-        f0 = this->msdf[0]->Eval(p, xi);
-        f1 = 0;
-    } else if (ir <= 0) {
-        r0 = 0;
-        r1 = this->r[0];
-        slibreal_t r2 = this->r[1], f2;
-
-        f1 = this->msdf[0]->Eval(p, xi);
-        f2 = this->msdf[1]->Eval(p, xi);
-        f0 = (r2*f1 - r1*f2) / (r2-r1);
-    } else if ((size_t)ir >= nr-1) {
-        r0 = this->r[nr-1];
-        r1 = r0 + (2*r0 - this->r[nr-2]);
-
-        f0 = this->msdf[nr-1]->Eval(p, xi);
-        f1 = 2*f0 - this->msdf[nr-2]->Eval(p, xi);
-    } else {
-        r0 = this->r[ir];
-        r1 = this->r[ir+1];
-
-        f0 = this->msdf[ir]->Eval(p, xi);
-        f1 = this->msdf[ir+1]->Eval(p, xi);
-    }
+    if (nr == 1)
+        return this->msdf[0]->Eval(p, xi);
+
+    // Beyond the ends of the grid, continue
+    // the line of the outermost interval
+    if (ir < 0)
+        ir = 0;
+    else if ((size_t)ir >= nr-1)
+        ir = (int)nr-2;
+
+    r0 = this->r[ir];
+    r1 = this->r[ir+1];
+
+    f0 = this->msdf[ir]->Eval(p, xi);
+    f1 = this->msdf[ir+1]->Eval(p, xi);
 
     return ((r1-rho)*f0 + (rho-r0)*f1)/(r1-r0);
 }
-- 
2.43.0


From 235c18142072d3e28f9669a625b37020537193ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:00 +0000
Subject: [PATCH 068/106] fix: insert the logarithm when it is stored in a new
 array

The table itself was inserted and taken to be its logarithm.
---
 src/DistributionFunction/NumericDistributionFunction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DistributionFunction/NumericDistributionFunction.cpp b/src/DistributionFunction/NumericDistributionFunction.cpp
index da40ce2..cc22424 100644
--- a/src/DistributionFunction/NumericDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericDistributionFunction.cpp
@@ -276,7 +276,7 @@ int NumericDistributionFunction::InsertMomentumSpaceDistributionLog(
     }
 
     int idx = this->InsertMomentumSpaceDistribution(
-        np, nxi, r, p, xi, f, interptype
+        np, nxi, r, p, xi, tf, interptype
     );
 
     this->msdf[idx]->SetLogarithmic(true);
-- 
2.43.0


From 21b2e3edbb434c0421c9228012cd63dd3da7273b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:00 +0000
Subject: [PATCH 069/106] fix: clones of radial distributions keep the
 extrapolation permission

---
 src/DistributionFunction/NumericDistributionFunction.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/DistributionFunction/NumericDistributionFunction.cpp b/src/DistributionFunction/NumericDistributionFunction.cpp
index cc22424..c1f4be8 100644
--- a/src/DistributionFunction/NumericDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericDistributionFunction.cpp
@@ -297,6 +297,9 @@ NumericDistributionFunction *NumericDistributionFunction::MinClone() {
         );
     }
 
+    df->SetExtrapolationPermission(this->allowExtrapolation);
+    df->SetLogarithmic(this->logarithmic);
+
     return df;
 }
 
-- 
2.43.0


From 40f30bce10bac94dca98110dae42f8cf57f90d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:00 +0000
Subject: [PATCH 070/106] fix: room for the Legendre modes of CODE
 distributions

One mode, or more modes than momenta, wrote outside of the arrays.
---
 src/DistributionFunction/CODEDistributionFunction.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DistributionFunction/CODEDistributionFunction.cpp b/src/DistributionFunction/CODEDistributionFunction.cpp
index 1b6883d..c323a1b 100644
--- a/src/DistributionFunction/CODEDistributionFunction.cpp
+++ b/src/DistributionFunction/CODEDistributionFunction.cpp
@@ -188,7 +188,7 @@ void CODEDistributionFunction::ComputeLegendrePolynomials(
     slibreal_t n;
 
     legmodes[0] = 1.0;
-    if (Nleg >= 1)
+    if (Nleg >= 2)
         legmodes[1] = xi;
 
     for (i = 0; i < Nleg-2; i++) {
@@ -304,7 +304,7 @@ void CODEDistributionFunction::InitInterpolation(int interptype) {
     this->interptype = interptype;
 
     this->interp_accel = gsl_interp_accel_alloc();
-    this->interp = new gsl_interp*[this->np];
+    this->interp = new gsl_interp*[this->nleg];
     for (i = 0; i < this->nleg; i++) {
         switch (interptype) {
             case INTERPOLATION_LINEAR:
-- 
2.43.0


From c81c84a44e4fe79892bf4f34e0333712468dc69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:00 +0000
Subject: [PATCH 071/106] fix: free the rows of a SOFT distribution as they
 were allocated

---
 src/DistributionFunction/SOFTDistributionFunction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DistributionFunction/SOFTDistributionFunction.cpp b/src/DistributionFunction/SOFTDistributionFunction.cpp
index 3622d84..f7b2b5c 100644
--- a/src/DistributionFunction/SOFTDistributionFunction.cpp
+++ b/src/DistributionFunction/SOFTDistributionFunction.cpp
@@ -227,7 +227,7 @@ void SOFTDistributionFunction::__LoadRadius(
     // Distribution function
     double **ttf = sf->GetDoubles(groupname+"f", fsize);
 	double *tf = ttf[0];
-    delete ttf;
+    delete [] ttf;
 
     if (fsize[0] != nnxi || fsize[1] != nnp)
         throw SOFTLibException("Invalid size of SOFT distribution function '%sf' vector: %llu x %llu. Must have size nxi-by-np (%llu x %llu).", groupname.c_str(), fsize[0], fsize[1], nnxi, nnp);
-- 
2.43.0


From 292290582615e1b2acd611e5d7de509b0dec535c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:00 +0000
Subject: [PATCH 072/106] fix: radial interpolation of GO+CODE distributions

Below the first radius the last one was used, a single radius read past the
end of the grid, a radius at zero gave NaN, and beyond the last radius the
line was continued towards a point at the wrong radius.
---
 .../GOCODEDistributionFunction.cpp            | 38 ++++++++-----------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/src/DistributionFunction/GOCODEDistributionFunction.cpp b/src/DistributionFunction/GOCODEDistributionFunction.cpp
index 668dc36..17e9f68 100644
--- a/src/DistributionFunction/GOCODEDistributionFunction.cpp
+++ b/src/DistributionFunction/GOCODEDistributionFunction.cpp
@@ -43,30 +43,24 @@ slibreal_t GOCODEDistributionFunction::Eval(
             throw SOFTLibException("GOCODEDistributionFunction: No data avilable for particle position. rho = %e, (shifted by %e from r = %e).", rho, drift_shift, r);
     }
 
-    unsigned int ir = (unsigned int)__FindNearestR(rho);
+    if (this->nr == 1)
+        return this->code[0]->Eval(p, xi);
+
+    int ir = __FindNearestR(rho);
     slibreal_t r0, r1;
 
-    if (ir == 0) {
-        r0 = 0;
-        r1 = this->rho[0];
-        slibreal_t r2 = this->rho[1], f2;
-
-        f1 = this->code[0]->Eval(p, xi);
-        f2 = this->code[1]->Eval(p, xi);
-        f0 = (r2*f1 - r1*f2) / (r2-r1);
-    } else if (ir >= this->nr-1) {
-        r0 = this->rho[this->nr-1];
-        r1 = r0 + (2*r0 - this->rho[nr-2]);
-
-        f0 = this->code[this->nr-1]->Eval(p, xi);
-        f1 = 2*f0 - this->code[this->nr-2]->Eval(p, xi);
-    } else {
-        r0 = this->rho[ir];
-        r1 = this->rho[ir+1];
-
-        f0 = this->code[ir]->Eval(p, xi);
-        f1 = this->code[ir+1]->Eval(p, xi);
-    }
+    // Beyond the ends of the grid, continue
+    // the line of the outermost interval
+    if (ir < 0)
+        ir = 0;
+    else if (ir >= (int)this->nr-1)
+        ir = (int)this->nr-2;
+
+    r0 = this->rho[ir];
+    r1 = this->rho[ir+1];
+
+    f0 = this->code[ir]->Eval(p, xi);
+    f1 = this->code[ir+1]->Eval(p, xi);
 
     return ((r1-rho)*f0 + (rho-r0)*f1)/(r1-r0);
 }
-- 
2.43.0


From 57630ead9b332b5133e1820aa36a72ab0d2973e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:00 +0000
Subject: [PATCH 073/106] fix: refuse time steps that a DREAM file does not
 have

The step after the last one was read from beyond the end of the data.
---
 .../DREAMDistributionFunction.cpp                    | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/DistributionFunction/DREAMDistributionFunction.cpp b/src/DistributionFunction/DREAMDistributionFunction.cpp
index f8f7087..dd6eb9a 100644
--- a/src/DistributionFunction/DREAMDistributionFunction.cpp
+++ b/src/DistributionFunction/DREAMDistributionFunction.cpp
@@ -128,25 +128,25 @@ struct DREAMDistributionFunction::dreamdf_data *DREAMDistributionFunction::__Loa
     double *tp = sf->GetDoubles1D(momgridname + "/p1", &np);
     double *tx = sf->GetDoubles1D(momgridname + "/p2", &nxi);
     
-    if (ndims != 4 || fsize[1] != nr || fsize[2] != nxi || fsize[3] != np)
+    if (ndims != 4 || fsize[0] != nt || fsize[1] != nr || fsize[2] != nxi || fsize[3] != np)
         throw SOFTLibException(
             "DREAMDistributionFunction: Invalid dimensions of distribution functions (%llu). The grid has size %llux%llux%llu, but f has size %llux%llux%llu.",
             ndims, nr, nxi, np, fsize[1], fsize[2], fsize[3]
         );
 
-    sfilesize_t TIMEINDEX;
+    // Negative time steps are relative to the end
     if (timestep < 0)
-        TIMEINDEX = (nt+timestep)*nr*np*nxi;
-    else
-        TIMEINDEX = timestep * nr*np*nxi;
+        timestep += (int)nt;
 
     // Bounds check
-    if (TIMEINDEX > nt*nr*np*nxi)
+    if (timestep < 0 || (sfilesize_t)timestep >= nt)
         throw SOFTLibException(
             "DREAMDistributionFunction: Invalid time step specified. The distribution contains %llu time steps.",
             nt
         );
 
+    sfilesize_t TIMEINDEX = timestep * nr*np*nxi;
+
     dat->nr  = nr;
     dat->np  = np;
     dat->nxi = nxi;
-- 
2.43.0


From 0c43245f8303a4e59f80378f28dfae1f6bb8ebf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:12 +0000
Subject: [PATCH 074/106] fix: destroying DREAM distributions loaded at a later
 time step

The pointer freed pointed into the middle of the allocated array.
---
 src/DistributionFunction/DREAMDistributionFunction.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/DistributionFunction/DREAMDistributionFunction.cpp b/src/DistributionFunction/DREAMDistributionFunction.cpp
index dd6eb9a..f3cd1fe 100644
--- a/src/DistributionFunction/DREAMDistributionFunction.cpp
+++ b/src/DistributionFunction/DREAMDistributionFunction.cpp
@@ -153,7 +153,13 @@ struct DREAMDistributionFunction::dreamdf_data *DREAMDistributionFunction::__Loa
 
     // Convert to slibreal_t (if necessary)
     if (std::is_same<slibreal_t, double>::value) {
-        dat->f  = tf + TIMEINDEX;
+        // Keep only the selected time step (so that 'f' can
+        // be freed together with this object)
+        dat->f  = new slibreal_t[nr*nxi*np];
+        for (sfilesize_t i = 0; i < nr*nxi*np; i++)
+            dat->f[i] = tf[TIMEINDEX+i];
+        delete [] tf;
+
         dat->r  = tr;
         dat->p  = tp;
         dat->xi = tx;
-- 
2.43.0


From a465a37c40d0510deec469c3973291b3ee72099e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:52 +0000
Subject: [PATCH 075/106] fix: refuse CODE momentum grids that cannot be
 interpolated in

A grid that is not strictly increasing made GSL abort the program.
---
 src/DistributionFunction/CODEDistributionFunction.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/DistributionFunction/CODEDistributionFunction.cpp b/src/DistributionFunction/CODEDistributionFunction.cpp
index c323a1b..120a45e 100644
--- a/src/DistributionFunction/CODEDistributionFunction.cpp
+++ b/src/DistributionFunction/CODEDistributionFunction.cpp
@@ -301,6 +301,12 @@ void CODEDistributionFunction::InitInterpolation(int interptype) {
     if (this->f == nullptr || this->p == nullptr)
         throw SOFTLibException("CODE distribution function: f and p have not been initialized yet.");
 
+    if (this->np < 2)
+        throw SOFTLibException("CODE distribution function: Too few points in the momentum grid: %u.", this->np);
+    for (i = 1; i < this->np; i++)
+        if (!(this->p[i-1] < this->p[i]))
+            throw SOFTLibException("CODE distribution function: The momentum grid must be strictly increasing.");
+
     this->interptype = interptype;
 
     this->interp_accel = gsl_interp_accel_alloc();
-- 
2.43.0


From 543698f345c763dd8e78b04d5ef5191e344895c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:13 +0000
Subject: [PATCH 076/106] fix: evaluating a CODE distribution after converting
 it to a grid

The conversion left other polynomials than those of the remembered pitch.
---
 src/DistributionFunction/CODEDistributionFunction.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/DistributionFunction/CODEDistributionFunction.cpp b/src/DistributionFunction/CODEDistributionFunction.cpp
index 120a45e..9dcf615 100644
--- a/src/DistributionFunction/CODEDistributionFunction.cpp
+++ b/src/DistributionFunction/CODEDistributionFunction.cpp
@@ -386,6 +386,7 @@ NumericMomentumSpaceDistributionFunction *CODEDistributionFunction::ToMomentumSp
     ff = new slibreal_t[nnxi*np];
     for (i = 0; i < nnxi; i++) {
         ComputeLegendrePolynomials(this->legendre, txi[i], this->nleg);
+        this->xileg = txi[i];
 
         for (j = 0; j < np; j++) {
             elindex = i*np + j;
-- 
2.43.0


From e980d32c352264591937d7eca444422b3452c115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:23 +0000
Subject: [PATCH 077/106] fix: refuse magnetic field grids that cannot be
 interpolated in

---
 src/MagneticField/MagneticFieldNumeric2D.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/MagneticField/MagneticFieldNumeric2D.cpp b/src/MagneticField/MagneticFieldNumeric2D.cpp
index 0eaba73..2b04848 100644
--- a/src/MagneticField/MagneticFieldNumeric2D.cpp
+++ b/src/MagneticField/MagneticFieldNumeric2D.cpp
@@ -265,6 +265,16 @@ void MagneticFieldNumeric2D::InitInterpolation() {
 #	error "SPLINTER support has not been implemented yet."
 #else
 	/* Use GSL for interpolation */
+	if (nr < gsl_interp2d_type_min_size(gsl_interp2d_bicubic) ||
+		nz < gsl_interp2d_type_min_size(gsl_interp2d_bicubic))
+		throw SOFTLibException("The magnetic field grid has too few points (%u x %u) to interpolate in.", nr, nz);
+	for (unsigned int i = 1; i < nr; i++)
+		if (!(R[i] > R[i-1]))
+			throw SOFTLibException("The radial grid of the magnetic field is not strictly increasing.");
+	for (unsigned int i = 1; i < nz; i++)
+		if (!(Z[i] > Z[i-1]))
+			throw SOFTLibException("The vertical grid of the magnetic field is not strictly increasing.");
+
 	ra = gsl_interp_accel_alloc();
 	za = gsl_interp_accel_alloc();
 
-- 
2.43.0


From a8c357936efbf576d424b85054d2d2a25e7470b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:23 +0000
Subject: [PATCH 078/106] fix: direction of the magnetic field outside of its
 grid

---
 src/MagneticField/MagneticFieldNumeric2D.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/MagneticField/MagneticFieldNumeric2D.cpp b/src/MagneticField/MagneticFieldNumeric2D.cpp
index 2b04848..6af6428 100644
--- a/src/MagneticField/MagneticFieldNumeric2D.cpp
+++ b/src/MagneticField/MagneticFieldNumeric2D.cpp
@@ -310,6 +310,9 @@ slibreal_t *MagneticFieldNumeric2D::Eval(slibreal_t *xyz) {
 slibreal_t *MagneticFieldNumeric2D::Eval(slibreal_t x, slibreal_t y, slibreal_t z) {
 	slibreal_t r = hypot(x, y), br, bphi, bz, sin0, cos0;
 
+    if (r != 0) { sin0 = y/r, cos0 = x/r; }
+    else { sin0 = 0, cos0 = 1; }
+
 	/* Make sure requested point is within domain */
 		 if (r < rmin) r = rmin;
 	else if (r > rmax) r = rmax;
@@ -321,8 +324,6 @@ slibreal_t *MagneticFieldNumeric2D::Eval(slibreal_t x, slibreal_t y, slibreal_t
     bphi = (slibreal_t)gsl_spline2d_eval(sBphi, r, z, ra, za);
     bz   = (slibreal_t)gsl_spline2d_eval(sBz,   r, z, ra, za);
 
-    if (r != 0) { sin0 = y/r, cos0 = x/r; }
-    else { sin0 = 0, cos0 = 1; }
     interpval[0] = br * cos0 - bphi * sin0;
     interpval[1] = br * sin0 + bphi * cos0;
     interpval[2] = bz;
@@ -347,6 +348,9 @@ slibreal_t **MagneticFieldNumeric2D::__EvalJacobian(slibreal_t x, slibreal_t y,
         dBr_dr, dBr_dz, dB0_dr, dB0_dz, dBz_dr, dBz_dz,
         br, b0, bz;
 
+    if (r != 0) sin0 = y/r, cos0 = x/r;
+    else sin0 = 0, cos0 = 1;
+
          if (r < rmin) r = rmin;
     else if (r > rmax) r = rmax;
          if (z < zmin) z = zmin;
@@ -370,15 +374,14 @@ slibreal_t **MagneticFieldNumeric2D::__EvalJacobian(slibreal_t x, slibreal_t y,
     bz = gsl_spline2d_eval(sBz,   r, z, ra, za);
 
     if (r != 0) {
-        sin0 = y/r, cos0 = x/r;
         sin20 = sin0*sin0, cos20 = cos0*cos0;
         sc0 = sin0*cos0;
 
         dsin0_dx = -sc0/r,  dcos0_dx = sin20/r;
         dsin0_dy = cos20/r, dcos0_dy = -sc0/r;
     } else {
-        sin0 = sin20 = sc0 = 0;
-        cos0 = cos20 = 1;
+        sin20 = sc0 = 0;
+        cos20 = 1;
 
         dsin0_dx = 0, dcos0_dx = 0;
         dsin0_dy = 0, dcos0_dy = 0;
-- 
2.43.0


From 0a1421cb0902cad9ef0ded685fa6d84f6f2b7897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:23 +0000
Subject: [PATCH 079/106] fix: magnetic flux outside of its grid

---
 src/MagneticField/MagneticFieldNumeric2D.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/MagneticField/MagneticFieldNumeric2D.cpp b/src/MagneticField/MagneticFieldNumeric2D.cpp
index 6af6428..3fac06b 100644
--- a/src/MagneticField/MagneticFieldNumeric2D.cpp
+++ b/src/MagneticField/MagneticFieldNumeric2D.cpp
@@ -456,6 +456,12 @@ slibreal_t MagneticFieldNumeric2D::EvalFlux(
         throw SOFTLibException("Trying to evaluate magnetic flux coordinates which have not been defined.");
 
     slibreal_t r = hypot(x, y);
+
+         if (r < rmin) r = rmin;
+    else if (r > rmax) r = rmax;
+         if (z < zmin) z = zmin;
+    else if (z > zmax) z = zmax;
+
     return (slibreal_t)gsl_spline2d_eval(sPsi, r, z, ra, za);
 }
 
@@ -481,6 +487,11 @@ struct flux_diff *MagneticFieldNumeric2D::EvalFluxDerivatives(
 
     slibreal_t r = hypot(x, y);
 
+         if (r < rmin) r = rmin;
+    else if (r > rmax) r = rmax;
+         if (z < zmin) z = zmin;
+    else if (z > zmax) z = zmax;
+
     flux_data.psi     = (slibreal_t)gsl_spline2d_eval(sPsi, r, z, ra, za);
     flux_data.dpsi_dR = (slibreal_t)gsl_spline2d_eval_deriv_x(sPsi, r, z, ra, za);
     flux_data.dpsi_dZ = (slibreal_t)gsl_spline2d_eval_deriv_y(sPsi, r, z, ra, za);
-- 
2.43.0


From 16e72d8d53c9097eed927987553e9e07cefea023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:23 +0000
Subject: [PATCH 080/106] fix: clones of magnetic fields without wall or
 separatrix

---
 src/MagneticField/MagneticFieldNumeric2D.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/MagneticField/MagneticFieldNumeric2D.cpp b/src/MagneticField/MagneticFieldNumeric2D.cpp
index 3fac06b..2b978ca 100644
--- a/src/MagneticField/MagneticFieldNumeric2D.cpp
+++ b/src/MagneticField/MagneticFieldNumeric2D.cpp
@@ -115,7 +115,7 @@ MagneticFieldNumeric2D::MagneticFieldNumeric2D(
 MagneticFieldNumeric2D *MagneticFieldNumeric2D::Clone() {
     unsigned int i, nB;
     slibreal_t *nR, *nZ, *nBr, *nBphi, *nBz, *nPsi=nullptr,
-        *nrsep, *nzsep, *nrwall, *nzwall;
+        *nrsep=nullptr, *nzsep=nullptr, *nrwall=nullptr, *nzwall=nullptr;
 
     nB     = this->nr*this->nz;
     nR     = new slibreal_t[this->nr];
@@ -123,10 +123,14 @@ MagneticFieldNumeric2D *MagneticFieldNumeric2D::Clone() {
     nBr    = new slibreal_t[nB];
     nBphi  = new slibreal_t[nB];
     nBz    = new slibreal_t[nB];
-    nrsep  = new slibreal_t[this->nsep];
-    nzsep  = new slibreal_t[this->nsep];
-    nrwall = new slibreal_t[this->nwall];
-    nzwall = new slibreal_t[this->nwall];
+    if (this->nsep > 0) {
+        nrsep  = new slibreal_t[this->nsep];
+        nzsep  = new slibreal_t[this->nsep];
+    }
+    if (this->nwall > 0) {
+        nrwall = new slibreal_t[this->nwall];
+        nzwall = new slibreal_t[this->nwall];
+    }
 
     for (i = 0; i < this->nr; i++)
         nR[i] = this->R[i];
-- 
2.43.0


From 45e7356a5565ac6fd5c29ff34fcfd3657970f77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:23 +0000
Subject: [PATCH 081/106] fix: save magnetic fields without magnetic flux

---
 src/MagneticField/MagneticFieldNumeric2D.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MagneticField/MagneticFieldNumeric2D.cpp b/src/MagneticField/MagneticFieldNumeric2D.cpp
index 2b978ca..048b79f 100644
--- a/src/MagneticField/MagneticFieldNumeric2D.cpp
+++ b/src/MagneticField/MagneticFieldNumeric2D.cpp
@@ -775,7 +775,8 @@ void MagneticFieldNumeric2D::Save(const string& filename, enum sfile_type ftype)
 
 	sf->WriteList("maxis", this->magnetic_axis, 2);
 
-	sf->WriteMultiArray("Psi", this->Psi, 2, dims);
+	if (this->Psi != nullptr)
+		sf->WriteMultiArray("Psi", this->Psi, 2, dims);
 
 	sf->WriteList("r", this->R, this->nr);
 	sf->WriteList("z", this->Z, this->nz);
-- 
2.43.0


From d6452bf4615d39da94e99d97e62de425a3db509f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:23 +0000
Subject: [PATCH 082/106] fix: save magnetic fields to text files

---
 src/MagneticField/MagneticFieldNumeric2D.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/MagneticField/MagneticFieldNumeric2D.cpp b/src/MagneticField/MagneticFieldNumeric2D.cpp
index 048b79f..ac0a79c 100644
--- a/src/MagneticField/MagneticFieldNumeric2D.cpp
+++ b/src/MagneticField/MagneticFieldNumeric2D.cpp
@@ -764,11 +764,18 @@ void MagneticFieldNumeric2D::Save(const string& filename) {
 }
 void MagneticFieldNumeric2D::Save(const string& filename, enum sfile_type ftype) {
 	SFile *sf = SFile::Create(filename, SFILE_MODE_WRITE, ftype);
-	sfilesize_t dims[2] = {this->nz, this->nr};
+	auto writeMatrix = [this, sf](const string& n, const slibreal_t *a) {
+		const slibreal_t **rows = new const slibreal_t*[this->nz];
+		for (unsigned int i = 0; i < this->nz; i++)
+			rows[i] = a + i*this->nr;
 
-	sf->WriteMultiArray("Bphi", this->Bphi, 2, dims);
-	sf->WriteMultiArray("Br",   this->Br,   2, dims);
-	sf->WriteMultiArray("Bz",   this->Bz,   2, dims);
+		sf->WriteArray(n, rows, this->nz, this->nr);
+		delete [] rows;
+	};
+
+	writeMatrix("Bphi", this->Bphi);
+	writeMatrix("Br",   this->Br);
+	writeMatrix("Bz",   this->Bz);
 
 	sf->WriteString("desc", this->description);
 	sf->WriteString("name", this->name);
@@ -776,7 +783,7 @@ void MagneticFieldNumeric2D::Save(const string& filename, enum sfile_type ftype)
 	sf->WriteList("maxis", this->magnetic_axis, 2);
 
 	if (this->Psi != nullptr)
-		sf->WriteMultiArray("Psi", this->Psi, 2, dims);
+		writeMatrix("Psi", this->Psi);
 
 	sf->WriteList("r", this->R, this->nr);
 	sf->WriteList("z", this->Z, this->nz);
-- 
2.43.0


From e6842e601f5f2b825423ba7bd68df05248b9f8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:23 +0000
Subject: [PATCH 083/106] fix: refuse magnetic field files of mismatching
 dimensions

---
 src/MagneticField/MagneticFieldNumeric2D.cpp | 33 +++++++++++---------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/MagneticField/MagneticFieldNumeric2D.cpp b/src/MagneticField/MagneticFieldNumeric2D.cpp
index ac0a79c..312729a 100644
--- a/src/MagneticField/MagneticFieldNumeric2D.cpp
+++ b/src/MagneticField/MagneticFieldNumeric2D.cpp
@@ -535,22 +535,27 @@ void MagneticFieldNumeric2D::Load(const string& filename, enum sfile_type ftype)
 	_Zgrid = sf->GetList("z", fs);
 	this->nz = fs[0];
 
-	_Br = sf->GetDoubles("Br", fs);
-	if (fs[0] != (sfilesize_t)this->nz)
-		_Br = Transpose(_Br, fs[0], fs[1]);
-	_Bphi = sf->GetDoubles("Bphi", fs);
-	if (fs[0] != (sfilesize_t)this->nz)
-		_Bphi = Transpose(_Bphi, fs[0] ,fs[1]);
-	_Bz = sf->GetDoubles("Bz", fs);
-	if (fs[0] != (sfilesize_t)this->nz)
-		_Bz = Transpose(_Bz, fs[0], fs[1]);
+	/* Load an nz-by-nr matrix (which may be stored transposed) */
+	auto getMatrix = [&](const string& matname) -> double** {
+		double **m = sf->GetDoubles(matname, fs);
+		if (fs[0] == (sfilesize_t)this->nz && fs[1] == (sfilesize_t)this->nr)
+			return m;
+		if (fs[0] == (sfilesize_t)this->nr && fs[1] == (sfilesize_t)this->nz)
+			return Transpose(m, fs[0], fs[1]);
+
+		throw SFileException(
+			"%s: The matrix '%s' does not have the dimensions of the grid.",
+			filename.c_str(), matname.c_str()
+		);
+	};
+
+	_Br   = getMatrix("Br");
+	_Bphi = getMatrix("Bphi");
+	_Bz   = getMatrix("Bz");
 
     /* Load magnetic flux */
-    try {
-        _Psi = sf->GetDoubles("Psi", fs);
-        if (fs[0] != (sfilesize_t)this->nz)
-            _Psi = Transpose(_Psi, fs[0], fs[1]);
-    } catch (SFileException& ex) {}
+    if (sf->HasVariable("Psi"))
+        _Psi = getMatrix("Psi");
 
     /* Load verification vectors (if present) */
     try {
-- 
2.43.0


From ec06a8c119732a7c15676b41cc03777bf96076f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:44 +0000
Subject: [PATCH 084/106] fix: refuse walls and separatrices that do not
 consist of points

---
 src/MagneticField/MagneticFieldNumeric2D.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/MagneticField/MagneticFieldNumeric2D.cpp b/src/MagneticField/MagneticFieldNumeric2D.cpp
index 312729a..d74f2a5 100644
--- a/src/MagneticField/MagneticFieldNumeric2D.cpp
+++ b/src/MagneticField/MagneticFieldNumeric2D.cpp
@@ -597,14 +597,14 @@ void MagneticFieldNumeric2D::Load(const string& filename, enum sfile_type ftype)
     delete [] _verBphi;
     delete [] _verBz;
 
-	try {
+	if (sf->HasVariable("wall")) {
 		_temp = sf->GetDoubles("wall", fs);
         if (fs[0] == 2) {
             _rwall = _temp[0];
             _zwall = _temp[1];
             this->nwall = fs[1];
             delete [] _temp;
-        } else {
+        } else if (fs[1] == 2) {
             this->nwall = fs[0];
             _rwall = new slibreal_t[this->nwall];
             _zwall = new slibreal_t[this->nwall];
@@ -616,21 +616,22 @@ void MagneticFieldNumeric2D::Load(const string& filename, enum sfile_type ftype)
 
             delete [] _temp[0];
             delete [] _temp;
-        }
-	} catch (SFileException& ex) {
+        } else
+            throw SFileException("%s: The 'wall' must consist of points with two coordinates.", filename.c_str());
+	} else {
 		this->nwall = 0;
 		this->rwall = nullptr;
 		this->zwall = nullptr;
 	}
 
-	try {
+	if (sf->HasVariable("separatrix")) {
 		_temp = sf->GetDoubles("separatrix", fs);
         if (fs[0] == 2) {
             _rsep = _temp[0];
             _zsep = _temp[1];
             this->nsep = fs[1];
             delete [] _temp;
-        } else {
+        } else if (fs[1] == 2) {
             this->nsep = fs[0];
             _rsep = new slibreal_t[this->nsep];
             _zsep = new slibreal_t[this->nsep];
@@ -642,8 +643,9 @@ void MagneticFieldNumeric2D::Load(const string& filename, enum sfile_type ftype)
 
             delete [] _temp[0];
             delete [] _temp;
-        }
-	} catch (SFileException& ex) {
+        } else
+            throw SFileException("%s: The 'separatrix' must consist of points with two coordinates.", filename.c_str());
+	} else {
 		this->nsep = 0;
 		this->rsep = nullptr;
 		this->zsep = nullptr;
-- 
2.43.0


From fb1ed05f8aa1206096844534498104d1968134ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:44 +0000
Subject: [PATCH 085/106] fix: file names in the error messages of magnetic
 fields

---
 src/MagneticField/MagneticFieldNumeric2D.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/MagneticField/MagneticFieldNumeric2D.cpp b/src/MagneticField/MagneticFieldNumeric2D.cpp
index d74f2a5..f1debf0 100644
--- a/src/MagneticField/MagneticFieldNumeric2D.cpp
+++ b/src/MagneticField/MagneticFieldNumeric2D.cpp
@@ -528,7 +528,7 @@ void MagneticFieldNumeric2D::Load(const string& filename, enum sfile_type ftype)
 
 	_maxis = sf->GetList("maxis", fs);
 	if (fs[0] != 2)
-		throw SFileException(filename+": The magnetic axis must be given as a point with two coordinates.");
+		throw SFileException("%s: The magnetic axis must be given as a point with two coordinates.", filename.c_str());
 	
 	_Rgrid = sf->GetList("r", fs);
 	this->nr = fs[0];
@@ -573,24 +573,24 @@ void MagneticFieldNumeric2D::Load(const string& filename, enum sfile_type ftype)
 
     /* Verify magnetic fields (check along R dimension) */
     if (nverBr > this->nr)
-        throw SFileException(filename+": Verification vector 'verBr' has more than nr (= %u) elements.", this->nr);
+        throw SFileException("%s: Verification vector 'verBr' has more than nr (= %u) elements.", filename.c_str(), this->nr);
     for (i = 0; i < nverBr; i++) {
         if (_Br[0][i] != _verBr[i])
-            throw SFileException(filename+": Magnetic field component 'Br' did not match its verification vector.");
+            throw SFileException("%s: Magnetic field component 'Br' did not match its verification vector.", filename.c_str());
     }
 
     if (nverBphi > this->nr)
-        throw SFileException(filename+": Verification vector 'verBphi' has more than nr (= %u) elements.", this->nr);
+        throw SFileException("%s: Verification vector 'verBphi' has more than nr (= %u) elements.", filename.c_str(), this->nr);
     for (i = 0; i < nverBphi; i++) {
         if (_Bphi[0][i] != _verBphi[i])
-            throw SFileException(filename+": Magnetic field component 'Bphi' did not match its verification vector.");
+            throw SFileException("%s: Magnetic field component 'Bphi' did not match its verification vector.", filename.c_str());
     }
 
     if (nverBz > this->nr)
-        throw SFileException(filename+": Verification vector 'verBz' has more than nr (= %u) elements.", this->nr);
+        throw SFileException("%s: Verification vector 'verBz' has more than nr (= %u) elements.", filename.c_str(), this->nr);
     for (i = 0; i < nverBz; i++) {
         if (_Bz[0][i] != _verBz[i])
-            throw SFileException(filename+": Magnetic field component 'Bz' did not match its verification vector.");
+            throw SFileException("%s: Magnetic field component 'Bz' did not match its verification vector.", filename.c_str());
     }
 
     delete [] _verBr;
@@ -699,7 +699,7 @@ void MagneticFieldNumeric2D::Load(const string& filename, enum sfile_type ftype)
 	delete [] _Br, delete [] _Bphi, delete [] _Bz;
 
 	if (_rwall == nullptr && _zsep == nullptr)
-		throw SOFTLibException(filename+": At least one of 'wall' and 'separatrix' must be provided in the magnetic equilibrium file.");
+		throw SOFTLibException("%s: At least one of 'wall' and 'separatrix' must be provided in the magnetic equilibrium file.", filename.c_str());
 
 	if (_rwall != nullptr) {
 		this->rwall = new slibreal_t[this->nwall];
-- 
2.43.0


From 6b1868edc1f95ed12cdd75de02cf475abc2c1e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:44 +0000
Subject: [PATCH 086/106] fix: close magnetic field files that are refused

---
 src/MagneticField/MagneticFieldNumeric2D.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MagneticField/MagneticFieldNumeric2D.cpp b/src/MagneticField/MagneticFieldNumeric2D.cpp
index f1debf0..1857c56 100644
--- a/src/MagneticField/MagneticFieldNumeric2D.cpp
+++ b/src/MagneticField/MagneticFieldNumeric2D.cpp
@@ -4,6 +4,7 @@
  */
 
 #include <cmath>
+#include <memory>
 #include <string>
 using namespace std;
 
@@ -520,7 +521,7 @@ void MagneticFieldNumeric2D::Load(const string& filename, enum sfile_type ftype)
         *_verBr=nullptr, *_verBphi=nullptr, *_verBz=nullptr;
 	sfilesize_t fs[2], i, j, nverBr=0, nverBphi=0, nverBz=0;
 
-	SFile *sf = SFile::Create(filename, SFILE_MODE_READ, ftype);
+	unique_ptr<SFile> sf(SFile::Create(filename, SFILE_MODE_READ, ftype));	// (closed when leaving)
 
 	/* Load all variables (to native types) */
 	name = sf->GetString("name");
-- 
2.43.0


From ac3374093efb1cbe4b4a8cc6d92d4f8e8979a0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:44 +0000
Subject: [PATCH 087/106] fix: reload a magnetic field without magnetic flux

---
 src/MagneticField/MagneticFieldNumeric2D.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/MagneticField/MagneticFieldNumeric2D.cpp b/src/MagneticField/MagneticFieldNumeric2D.cpp
index 1857c56..f18950e 100644
--- a/src/MagneticField/MagneticFieldNumeric2D.cpp
+++ b/src/MagneticField/MagneticFieldNumeric2D.cpp
@@ -691,8 +691,10 @@ void MagneticFieldNumeric2D::Load(const string& filename, enum sfile_type ftype)
                 this->Psi[i + j*this->nr] = (slibreal_t)_Psi[j][i];
         
         this->hasFluxCoordinates = true;
-    } else
+    } else {
         this->Psi = nullptr;
+        this->hasFluxCoordinates = false;
+    }
 	
 	delete [] _maxis;
 	delete [] _Rgrid, delete [] _Zgrid;
-- 
2.43.0


From 4b4b3753ed2bca860d82899bde33b1b6fb7ee1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:25 +0000
Subject: [PATCH 088/106] fix: gradient of the analytical magnetic field with a
 varying safety factor

---
 src/MagneticField/MagneticFieldAnalytical2D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MagneticField/MagneticFieldAnalytical2D.cpp b/src/MagneticField/MagneticFieldAnalytical2D.cpp
index 446b2c3..0fff682 100644
--- a/src/MagneticField/MagneticFieldAnalytical2D.cpp
+++ b/src/MagneticField/MagneticFieldAnalytical2D.cpp
@@ -159,7 +159,7 @@ struct magnetic_field_data& MagneticFieldAnalytical2D::EvalDerivatives(
 	r_qRm = r / (Rm * q);
 	sqr = sqrt(r_qRm*r_qRm + 1);
 
-	DBr = B0*Rm * iR * (r_qRm/(Rm * q)*(1 - rdq_dr)/sqr + costheta * iR * sqr);
+	DBr = B0*Rm * iR * (r_qRm/(Rm * q)*(1 - rdq_dr/q)/sqr + costheta * iR * sqr);
 	DB0 =-B0*Rm*sintheta * iR*iR * sqr;
 	ddr_rB0 = sigmaI * B0 * iR / q * (Rm*iR + 1 - rdq_dr/q);
 
-- 
2.43.0


From 6e67c3169f6ac744a3253229fd1d966a2d0e92d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:25 +0000
Subject: [PATCH 089/106] fix: gradient of the analytical magnetic field on the
 magnetic axis

---
 src/MagneticField/MagneticFieldAnalytical2D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MagneticField/MagneticFieldAnalytical2D.cpp b/src/MagneticField/MagneticFieldAnalytical2D.cpp
index 0fff682..2a6cc47 100644
--- a/src/MagneticField/MagneticFieldAnalytical2D.cpp
+++ b/src/MagneticField/MagneticFieldAnalytical2D.cpp
@@ -151,7 +151,7 @@ struct magnetic_field_data& MagneticFieldAnalytical2D::EvalDerivatives(
 		DBr, DB0, ddr_rB0, iR = 1.0 / R;
 	
 	if (r != 0) sintheta = Z / r, costheta = (Rm-R) / r;
-	else sintheta = 0, costheta = 0;
+	else sintheta = 0, costheta = 1;
 
 	sinphi = y * iR, cosphi = x * iR;
 	q = __GetSafetyFactor(r);
-- 
2.43.0


From a238935f142b9026965766fd3772339259f53435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:25 +0000
Subject: [PATCH 090/106] fix: magnetic flux of analytical fields converted to
 numeric fields

---
 src/MagneticField/MagneticFieldAnalytical2D.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MagneticField/MagneticFieldAnalytical2D.cpp b/src/MagneticField/MagneticFieldAnalytical2D.cpp
index 2a6cc47..ae13af6 100644
--- a/src/MagneticField/MagneticFieldAnalytical2D.cpp
+++ b/src/MagneticField/MagneticFieldAnalytical2D.cpp
@@ -290,6 +290,7 @@ MagneticFieldNumeric2D *MagneticFieldAnalytical2D::ToNumeric2D(const unsigned in
             Br  [i + j*nr] = B[0];
             Bphi[i + j*nr] = B[1];
             Bz  [i + j*nr] = B[2];
+            Psi [i + j*nr] = EvalFlux(R[i], 0.0, Z[j]);
         }
     }
 
-- 
2.43.0


From ea8cd3d0c89cdf88f2d93d24e6b0ff3960763997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:30 +0000
Subject: [PATCH 091/106] fix: stepping an integrator without initial value

---
 include/softlib/Integrator/RungeKutta.tcc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/softlib/Integrator/RungeKutta.tcc b/include/softlib/Integrator/RungeKutta.tcc
index dce4ea0..86b3f46 100644
--- a/include/softlib/Integrator/RungeKutta.tcc
+++ b/include/softlib/Integrator/RungeKutta.tcc
@@ -85,6 +85,10 @@ void RungeKutta<N>::InitialValue(const Vector<N>& y0) {
 template<unsigned int N>
 slibreal_t RungeKutta<N>::Step() {
 	slibreal_t T, Tnew, err;
+
+	if (this->ntimesteps == 0)
+		throw SOFTLibException("No initial value has been set in Runge-Kutta integrator.");
+
 	y = this->LastSolution();
 	dydx = this->LastDerivative();
 
-- 
2.43.0


From a6f015ec828573a2d36018c2dad6b38a96ec2887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:30 +0000
Subject: [PATCH 092/106] fix: a new initial value resets the step-size control
 of the integrator

---
 include/softlib/Integrator/RungeKutta.tcc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/softlib/Integrator/RungeKutta.tcc b/include/softlib/Integrator/RungeKutta.tcc
index 86b3f46..49a9620 100644
--- a/include/softlib/Integrator/RungeKutta.tcc
+++ b/include/softlib/Integrator/RungeKutta.tcc
@@ -74,6 +74,11 @@ void RungeKutta<N>::InitialValue(const Vector<N>& y0) {
 
     this->ntimesteps = 0;
 
+	// Forget the step-size history
+	this->errold = 1.0e-4;
+	this->optimal_step = 1.0;
+	this->previous_step_rejected = false;
+
 	StoreSolution(0.0, y0, yp0);
 }
 
-- 
2.43.0


From 4a400fa0a8b72c4a8f7f42f8b412d79bbfc23d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:30 +0000
Subject: [PATCH 093/106] fix: integrator steps too small to advance time are
 never taken

---
 include/softlib/Integrator/RungeKutta.tcc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/softlib/Integrator/RungeKutta.tcc b/include/softlib/Integrator/RungeKutta.tcc
index 49a9620..b8636cd 100644
--- a/include/softlib/Integrator/RungeKutta.tcc
+++ b/include/softlib/Integrator/RungeKutta.tcc
@@ -101,13 +101,14 @@ slibreal_t RungeKutta<N>::Step() {
 	T = this->LastTime();
 
 	while (true) {
+		if (fabs(h) <= fabs(T)*REAL_EPSILON)
+			throw SOFTLibException("Step-size underflow in Runge-Kutta integrator.");
+
 		yout = InnerStep(T, h, y, dydx);
 		err = EstimateError(y, yout);
 		if (this->UpdateTimestep(err)) break;
 
 		h = optimal_step;
-		if (fabs(h) <= fabs(T)*REAL_EPSILON)
-			throw SOFTLibException("Step-size underflow in Runge-Kutta integrator.");
 	}
 
 	yold = y;
-- 
2.43.0


From 33ad207480adf176d24c0fceda1340dfe16047ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:30 +0000
Subject: [PATCH 094/106] fix: dense output in points given in any order

---
 include/softlib/Integrator/RKDP45.tcc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/softlib/Integrator/RKDP45.tcc b/include/softlib/Integrator/RKDP45.tcc
index 6496e0c..c4309f9 100644
--- a/include/softlib/Integrator/RKDP45.tcc
+++ b/include/softlib/Integrator/RKDP45.tcc
@@ -99,6 +99,8 @@ void RKDP45<N>::OutputDense(const unsigned int nt, slibreal_t *time, slibreal_t
         T = time[i];
 
 		/* Find next time */
+		if (it > 0 && T < this->time[it])
+			it = 0;
 		while (it+2 < this->ntimesteps && this->time[it+1] < T)
 			it++;
 
-- 
2.43.0


From 9d70e3fa96a0e7091f86f2aef67017a71cb3f76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:30 +0000
Subject: [PATCH 095/106] fix: dense output before the first point requires
 extrapolation

---
 include/softlib/Integrator/RKDP45.tcc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/softlib/Integrator/RKDP45.tcc b/include/softlib/Integrator/RKDP45.tcc
index c4309f9..161af31 100644
--- a/include/softlib/Integrator/RKDP45.tcc
+++ b/include/softlib/Integrator/RKDP45.tcc
@@ -110,6 +110,12 @@ void RKDP45<N>::OutputDense(const unsigned int nt, slibreal_t *time, slibreal_t
                 T, this->time[it+1], this->ntimesteps, it+1
             );
 
+		if (T < this->time[it])
+			throw SOFTLibException(
+                "The requested tmin requires extrapolation. T = %e, tmin = %e",
+                T, this->time[it]
+            );
+
 		stepsize = this->time[it+1]-this->time[it];
 		
 		s = (T-this->time[it]) / stepsize;
-- 
2.43.0


From 8edba5e4927273638189731791794a3baeb5fb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:30 +0000
Subject: [PATCH 096/106] fix: dense output before any step has been taken

---
 include/softlib/Integrator/RKDP45.tcc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/softlib/Integrator/RKDP45.tcc b/include/softlib/Integrator/RKDP45.tcc
index 161af31..41b37fa 100644
--- a/include/softlib/Integrator/RKDP45.tcc
+++ b/include/softlib/Integrator/RKDP45.tcc
@@ -95,6 +95,9 @@ void RKDP45<N>::OutputDense(const unsigned int nt, slibreal_t *time, slibreal_t
 	unsigned int it = 0, i, j, indx;
 	slibreal_t T, s, s1, stepsize;
 
+	if (this->ntimesteps < 2)
+		throw SOFTLibException("Dense output was requested before any step had been taken.");
+
 	for (i = 0; i < nt; i++) {
         T = time[i];
 
-- 
2.43.0


From 60f70c1c0dcedee642e4815188d25e77ae2d5c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:30 +0000
Subject: [PATCH 097/106] fix: dense output when the coefficients were not
 stored for every step

---
 include/softlib/Integrator/RKDP45.tcc     |  2 ++
 include/softlib/Integrator/RungeKutta.tcc | 17 +++++++++++++++--
 include/softlib/RungeKutta.h              |  4 +++-
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/include/softlib/Integrator/RKDP45.tcc b/include/softlib/Integrator/RKDP45.tcc
index 41b37fa..5051f22 100644
--- a/include/softlib/Integrator/RKDP45.tcc
+++ b/include/softlib/Integrator/RKDP45.tcc
@@ -97,6 +97,8 @@ void RKDP45<N>::OutputDense(const unsigned int nt, slibreal_t *time, slibreal_t
 
 	if (this->ntimesteps < 2)
 		throw SOFTLibException("Dense output was requested before any step had been taken.");
+	if (!this->HasAllDenseCoefficients())
+		throw SOFTLibException("Dense output was requested but was not enabled for every step taken.");
 
 	for (i = 0; i < nt; i++) {
         T = time[i];
diff --git a/include/softlib/Integrator/RungeKutta.tcc b/include/softlib/Integrator/RungeKutta.tcc
index b8636cd..449c089 100644
--- a/include/softlib/Integrator/RungeKutta.tcc
+++ b/include/softlib/Integrator/RungeKutta.tcc
@@ -54,6 +54,14 @@ slibreal_t RungeKutta<N>::EstimateError(const Vector<N> &y1, const Vector<N> &y2
 template<unsigned int N>
 bool RungeKutta<N>::HasDenseOutput() { return store_dense_coeffs; }
 
+/**
+ * Returns true if coefficients for dense
+ * output have been stored for every step
+ * taken since the initial value was set.
+ */
+template<unsigned int N>
+bool RungeKutta<N>::HasAllDenseCoefficients() { return dense_complete; }
+
 /**
  * Sets the initial value of the
  * integrator. If the integrator already
@@ -78,6 +86,7 @@ void RungeKutta<N>::InitialValue(const Vector<N>& y0) {
 	this->errold = 1.0e-4;
 	this->optimal_step = 1.0;
 	this->previous_step_rejected = false;
+	this->dense_complete = true;
 
 	StoreSolution(0.0, y0, yp0);
 }
@@ -138,8 +147,12 @@ void RungeKutta<N>::StoreSolution(const slibreal_t t, const Vector<N>& y, const
 	/* Dense output coefficients should only be stored
 	 * when requested, and only after the first timestep
 	 * has been taken. */
-	if (HasDenseOutput() && this->ntimesteps > 1)
-		PrepareDense(this->timestep, yold, y, dydxold, yp);
+	if (this->ntimesteps > 1) {
+		if (HasDenseOutput())
+			PrepareDense(this->timestep, yold, y, dydxold, yp);
+		else
+			dense_complete = false;
+	}
 }
 
 /**
diff --git a/include/softlib/RungeKutta.h b/include/softlib/RungeKutta.h
index aa12654..9f69775 100644
--- a/include/softlib/RungeKutta.h
+++ b/include/softlib/RungeKutta.h
@@ -9,7 +9,8 @@ class RungeKutta : public Integrator<N> {
 	private:
 		slibreal_t errold;
 		bool previous_step_rejected = false,
-			 store_dense_coeffs = true;
+			 store_dense_coeffs = true,
+			 dense_complete = true;
 	protected:
 		/* Vectors in which we store the output
 		   from the 'InnerStep' routine. */
@@ -42,6 +43,7 @@ class RungeKutta : public Integrator<N> {
 		virtual void PrepareDense(const slibreal_t, const Vector<N>&, const Vector<N>&, const Vector<N>&, const Vector<N>&) = 0;
 
 		bool HasDenseOutput();
+		bool HasAllDenseCoefficients();
 
 		/* Setters */
 		void SetExponentAlpha(const slibreal_t);
-- 
2.43.0


From c4994f4fd5f80b0f5a718971aa7b925c6ff25a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:18 +0000
Subject: [PATCH 098/106] fix: peaked integration counts no samples outside the
 limits

---
 src/Integration/PeakedIntegration.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Integration/PeakedIntegration.cpp b/src/Integration/PeakedIntegration.cpp
index 1044351..261f3e4 100644
--- a/src/Integration/PeakedIntegration.cpp
+++ b/src/Integration/PeakedIntegration.cpp
@@ -52,8 +52,8 @@ slibreal_t PeakedIntegration::Evaluate(
         throw SOFTLibException("PeakedIntegral: The fall-off must be non-zero.");
     
     delta = falloff;
-    fpval = f(maximum+delta);
-    fmval = f(maximum-delta);
+    fpval = (maximum+delta < b) ? f(maximum+delta) : 0;
+    fmval = (maximum-delta > a) ? f(maximum-delta) : 0;
 
     while (max(fpval, fmval) > cf) {
         if (fpval > fmax)
-- 
2.43.0


From c88bfff25380db91600f3550ea61babfce2ab9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:18 +0000
Subject: [PATCH 099/106] fix: the maximum of a peaked function lies in the
 better half of the bracket

---
 src/Integration/PeakedIntegration.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Integration/PeakedIntegration.cpp b/src/Integration/PeakedIntegration.cpp
index 261f3e4..c4c5f04 100644
--- a/src/Integration/PeakedIntegration.cpp
+++ b/src/Integration/PeakedIntegration.cpp
@@ -129,8 +129,8 @@ slibreal_t PeakedIntegration::FindMaximum(
     }
 
     if (yc < yd)
-        return 0.5*(a+d);
-    else
         return 0.5*(b+c);
+    else
+        return 0.5*(a+d);
 }
 
-- 
2.43.0


From 57abe428782e8704bd0b385af9be7c474f91c108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:46 +0000
Subject: [PATCH 100/106] fix: close LUKE equilibrium files that are refused

---
 src/MagneticField/MagneticFieldLUKE.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MagneticField/MagneticFieldLUKE.cpp b/src/MagneticField/MagneticFieldLUKE.cpp
index cfc1963..2b7323c 100644
--- a/src/MagneticField/MagneticFieldLUKE.cpp
+++ b/src/MagneticField/MagneticFieldLUKE.cpp
@@ -41,6 +41,7 @@
  * xypsin array to get the corresponding poloidal flux value.
  */
 
+#include <memory>
 #include <string>
 #include <softlib/MagneticField/MagneticFieldLUKE.h>
 #include <softlib/SFileException.h>
@@ -95,7 +96,7 @@ void MagneticFieldLUKE::Load(const string& name, enum sfile_type type, const str
 void MagneticFieldLUKE::Load(const string& name, enum sfile_type type, const string& wallname, enum sfile_type walltype) {
 	sfilesize_t fs[2];
 
-	SFile *sf = SFile::Create(name, SFILE_MODE_READ, type);
+	unique_ptr<SFile> sf(SFile::Create(name, SFILE_MODE_READ, type));	// (closed when leaving)
 	
 	this->name = sf->GetString("equil/id");
 	this->description = this->name;
-- 
2.43.0


From 3747ba168dbccef1c19e828c587d4ea068c6ea03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:46 +0000
Subject: [PATCH 101/106] fix: close the wall file of a LUKE equilibrium

---
 src/MagneticField/MagneticFieldLUKE.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MagneticField/MagneticFieldLUKE.cpp b/src/MagneticField/MagneticFieldLUKE.cpp
index 2b7323c..f746d70 100644
--- a/src/MagneticField/MagneticFieldLUKE.cpp
+++ b/src/MagneticField/MagneticFieldLUKE.cpp
@@ -302,7 +302,7 @@ void MagneticFieldLUKE::LoadWall(const string& wallname, enum sfile_type walltyp
 	this->zwall = nullptr;
 
 	if (!wallname.empty()) {
-		SFile *sf = SFile::Create(wallname, SFILE_MODE_READ, walltype);
+		unique_ptr<SFile> sf(SFile::Create(wallname, SFILE_MODE_READ, walltype));	// (closed when leaving)
 		sfilesize_t fs[2];
 		
 		double **_wall = sf->GetDoubles("wall", fs);
-- 
2.43.0


From d7fa459c380ab8c24ba065a64e9c18333f6cff23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:46 +0000
Subject: [PATCH 102/106] fix: refuse LUKE equilibria with grids that cannot be
 interpolated in

---
 src/MagneticField/MagneticFieldLUKE.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/MagneticField/MagneticFieldLUKE.cpp b/src/MagneticField/MagneticFieldLUKE.cpp
index f746d70..f17cffc 100644
--- a/src/MagneticField/MagneticFieldLUKE.cpp
+++ b/src/MagneticField/MagneticFieldLUKE.cpp
@@ -188,6 +188,15 @@ void MagneticFieldLUKE::Load(const string& name, enum sfile_type type, const str
 			name.c_str(), fs[0], fs[1], ntsig, npsig
 		);
 	
+	if (npsig < 2 || ntsig < 2)
+		throw SFileException("%s: The magnetic field is given in too few points (%zu x %zu).", name.c_str(), ntsig, npsig);
+	for (sfilesize_t i = 1; i < npsig; i++)
+		if (!(_psig[i] > _psig[i-1]))
+			throw SFileException("%s: The flux surfaces are not in order.", name.c_str());
+	for (sfilesize_t i = 1; i < ntsig; i++)
+		if (!(_tsig[i] > _tsig[i-1]))
+			throw SFileException("%s: The poloidal angle grid is not strictly increasing.", name.c_str());
+
 	// Setup interpolation
 	// Bicubic interpolation seems to become unstable for these types of
 	// magnetic fields, and so we are required to use bilinear interpolation instead.
-- 
2.43.0


From 1845e3be31e191a0112f0070acd8cc98db17040d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:31 +0000
Subject: [PATCH 103/106] fix: distribution files can be loaded without a
 magnetic field

---
 src/DistributionFunction/DREAMDistributionFunction.cpp | 3 ++-
 src/DistributionFunction/SOFTDistributionFunction.cpp  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/DistributionFunction/DREAMDistributionFunction.cpp b/src/DistributionFunction/DREAMDistributionFunction.cpp
index f3cd1fe..b635bca 100644
--- a/src/DistributionFunction/DREAMDistributionFunction.cpp
+++ b/src/DistributionFunction/DREAMDistributionFunction.cpp
@@ -188,7 +188,8 @@ struct DREAMDistributionFunction::dreamdf_data *DREAMDistributionFunction::__Loa
 
     // Shift radial grid (convert from normalized minor radius -> major radius)
     for (sfilesize_t i = 0; i < nr; i++) {
-        dat->r[i] += mf->GetMagneticAxisR();
+        if (mf != nullptr)
+            dat->r[i] += mf->GetMagneticAxisR();
 
         if (i > 0 && dat->r[i] <= dat->r[i-1])
             throw SOFTLibException("DREAMDistributionFunction: The radial grid in the DREAM distribution function is not strictly increasing.");
diff --git a/src/DistributionFunction/SOFTDistributionFunction.cpp b/src/DistributionFunction/SOFTDistributionFunction.cpp
index f7b2b5c..0c75b30 100644
--- a/src/DistributionFunction/SOFTDistributionFunction.cpp
+++ b/src/DistributionFunction/SOFTDistributionFunction.cpp
@@ -187,7 +187,8 @@ struct SOFTDistributionFunction::softdf_data *SOFTDistributionFunction::__Load(c
 
     // Shift radial grid (convert from normalized minor radius -> major radius)
     for (unsigned int i = 0; i < nnr; i++) {
-        dat->r[i] += mf->GetMagneticAxisR();
+        if (mf != nullptr)
+            dat->r[i] += mf->GetMagneticAxisR();
 
         if (i > 0 && dat->r[i] <= dat->r[i-1])
             throw SOFTLibException("The radial grid in the SOFT distribution function is not strictly increasing.");
-- 
2.43.0


From 89a9d25177f6642189f521c43001a0273de56000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:15 +0000
Subject: [PATCH 104/106] fix: count lines of configuration scripts by the
 characters read

Line breaks in quoted text were not counted, and the last word of a line
was attributed to the line after it.
---
 src/Configuration/Script/Lexer.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/Configuration/Script/Lexer.cpp b/src/Configuration/Script/Lexer.cpp
index e973b0b..3ba989b 100644
--- a/src/Configuration/Script/Lexer.cpp
+++ b/src/Configuration/Script/Lexer.cpp
@@ -35,6 +35,12 @@ char ConfigurationScript::nextc() {
 	if (this->cnfbufferpos >= this->cnfbufferlength) return 0;
 
 	do {
+		// The character after a newline is the first one of a new line
+		if (this->cnfbufferpos > 0 && this->cnfbuffer[this->cnfbufferpos-1] == '\n') {
+			this->linecounter++;
+			this->charpos = 1;
+		}
+
 		c = this->cnfbuffer[this->cnfbufferpos++];
 		this->charpos++;
 
@@ -50,10 +56,6 @@ char ConfigurationScript::nextc() {
 
 				break;
 			case '\n':
-				this->linecounter++;
-				this->charpos = 1;
-                // Intended fall-through
-                [[fallthrough]];
 			case ' ':
 			case '\t':
 				if (this->prevws) break;
-- 
2.43.0


From 66ee9681db253fcba334cb564e46f6bc9706fadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:15 +0000
Subject: [PATCH 105/106] fix: name the included file in errors that are found
 in it

Tokens and lexical errors carry 'file', which include_file() left at the name
of the including script ('filename' is only set when loading from a file).
---
 src/Configuration/Script/Lexer.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Configuration/Script/Lexer.cpp b/src/Configuration/Script/Lexer.cpp
index 3ba989b..e6c71a2 100644
--- a/src/Configuration/Script/Lexer.cpp
+++ b/src/Configuration/Script/Lexer.cpp
@@ -139,7 +139,7 @@ vector<ConfigToken*> ConfigurationScript::include_file(const string& name) {
     for (const string& s : this->includes) {
         if (s == name)
             throw ConfigurationException(
-                this->linecounter, this->charpos, this->filename,
+                this->linecounter, this->charpos, this->file,
                 "The configuration file '%s' includes itself.",
                 name.c_str()
             );
@@ -147,14 +147,14 @@ vector<ConfigToken*> ConfigurationScript::include_file(const string& name) {
 
     if (!cfile.is_open())
         throw ConfigurationException(
-            this->linecounter, this->charpos, this->filename,
+            this->linecounter, this->charpos, this->file,
             "Unable to open included configuration file '%s'.",
             name.c_str()
         );
 
     // Save current state
-    oldname = this->filename;
-    this->filename = name;
+    oldname = this->file;
+    this->file = name;
     this->includes.push_back(name);
     
     oldbuf = this->cnfbuffer;
@@ -180,7 +180,7 @@ vector<ConfigToken*> ConfigurationScript::include_file(const string& name) {
     this->cnfbufferlength = buflen;
     this->cnfbufferpos = bufpos;
     this->cnfbuffer = oldbuf;
-    this->filename = oldname;
+    this->file = oldname;
     this->includes.pop_back();
 
     return tkns;
-- 
2.43.0


From 49daed1b196a921cfd302610441515d93413e009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:50 +0000
Subject: [PATCH 106/106] fix: refuse CODE distributions with too few momentum
 points for the interpolation method

gsl_interp_alloc() aborts the process when given fewer points than the
method needs.
---
 .../CODEDistributionFunction.cpp              | 56 ++++++++++---------
 1 file changed, 29 insertions(+), 27 deletions(-)

diff --git a/src/DistributionFunction/CODEDistributionFunction.cpp b/src/DistributionFunction/CODEDistributionFunction.cpp
index 9dcf615..ff33ee0 100644
--- a/src/DistributionFunction/CODEDistributionFunction.cpp
+++ b/src/DistributionFunction/CODEDistributionFunction.cpp
@@ -301,7 +301,34 @@ void CODEDistributionFunction::InitInterpolation(int interptype) {
     if (this->f == nullptr || this->p == nullptr)
         throw SOFTLibException("CODE distribution function: f and p have not been initialized yet.");
 
-    if (this->np < 2)
+    const gsl_interp_type *type;
+    switch (interptype) {
+        case INTERPOLATION_LINEAR:
+            type = gsl_interp_linear;
+            break;
+        case INTERPOLATION_POLYNOMIAL:
+            type = gsl_interp_polynomial;
+            break;
+        case INTERPOLATION_CSPLINE:
+            type = gsl_interp_cspline;
+            break;
+        case INTERPOLATION_CSPLINE_PERIODIC:
+            type = gsl_interp_cspline_periodic;
+            break;
+        case INTERPOLATION_AKIMA:
+            type = gsl_interp_akima;
+            break;
+        case INTERPOLATION_AKIMA_PERIODIC:
+            type = gsl_interp_akima_periodic;
+            break;
+        case INTERPOLATION_STEFFEN:
+            type = gsl_interp_steffen;
+            break;
+        default:
+            throw SOFTLibException("CODE distribution function: Unrecognized interpolation method requested: %d.", interptype);
+    }
+
+    if (this->np < 2 || this->np < gsl_interp_type_min_size(type))
         throw SOFTLibException("CODE distribution function: Too few points in the momentum grid: %u.", this->np);
     for (i = 1; i < this->np; i++)
         if (!(this->p[i-1] < this->p[i]))
@@ -312,32 +339,7 @@ void CODEDistributionFunction::InitInterpolation(int interptype) {
     this->interp_accel = gsl_interp_accel_alloc();
     this->interp = new gsl_interp*[this->nleg];
     for (i = 0; i < this->nleg; i++) {
-        switch (interptype) {
-            case INTERPOLATION_LINEAR:
-                this->interp[i] = gsl_interp_alloc(gsl_interp_linear, this->np);
-                break;
-            case INTERPOLATION_POLYNOMIAL:
-                this->interp[i] = gsl_interp_alloc(gsl_interp_polynomial, this->np);
-                break;
-            case INTERPOLATION_CSPLINE:
-                this->interp[i] = gsl_interp_alloc(gsl_interp_cspline, this->np);
-                break;
-            case INTERPOLATION_CSPLINE_PERIODIC:
-                this->interp[i] = gsl_interp_alloc(gsl_interp_cspline_periodic, this->np);
-                break;
-            case INTERPOLATION_AKIMA:
-                this->interp[i] = gsl_interp_alloc(gsl_interp_akima, this->np);
-                break;
-            case INTERPOLATION_AKIMA_PERIODIC:
-                this->interp[i] = gsl_interp_alloc(gsl_interp_akima_periodic, this->np);
-                break;
-            case INTERPOLATION_STEFFEN:
-                this->interp[i] = gsl_interp_alloc(gsl_interp_steffen, this->np);
-                break;
-            default:
-                throw SOFTLibException("CODE distribution function: Unrecognized interpolation method requested: %d.", interptype);
-        }
-
+        this->interp[i] = gsl_interp_alloc(type, this->np);
         gsl_interp_init(this->interp[i], this->p, this->f+(i*this->np), this->np);
     }
 }
-- 
2.43.0

