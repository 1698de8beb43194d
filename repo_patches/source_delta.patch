From ac18a6ad7ab391cde52491be2e16b3f5b44c5158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 001/115] fix: pretransfer must treat escaped characters in a
 lexical unit as text

---
 apertium/pretransfer.cc | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/apertium/pretransfer.cc b/apertium/pretransfer.cc
index deb1be7..484004f 100644
--- a/apertium/pretransfer.cc
+++ b/apertium/pretransfer.cc
@@ -91,6 +91,23 @@ void procWord(InputFile& input, UFILE* output, bool surface_forms, bool compound
       exit(EXIT_FAILURE);
     }
 
+    if(mychar == '\\')
+    {
+      // an escaped character is always literal text
+      int escaped = input.get();
+      if(buffer_mode)
+      {
+        buffer += mychar;
+        buffer += escaped;
+      }
+      else
+      {
+        u_fputc(mychar, output);
+        u_fputc(escaped, output);
+      }
+      continue;
+    }
+
     switch(mychar)
     {
     case '<':
-- 
2.43.0


From c4d1bc11e7edd0059a39d9c534cf782587749173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 002/115] fix: pretransfer must keep ~ when it is not a
 compound separator

---
 apertium/pretransfer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apertium/pretransfer.cc b/apertium/pretransfer.cc
index 484004f..08c4c0f 100644
--- a/apertium/pretransfer.cc
+++ b/apertium/pretransfer.cc
@@ -134,7 +134,7 @@ void procWord(InputFile& input, UFILE* output, bool surface_forms, bool compound
     if(buffer_mode)
     {
       if((mychar != '+' || (mychar == '+' && in_tag == true)) &&
-         (mychar != '~' || (mychar == '~' && in_tag == true)))
+         (mychar != '~' || in_tag == true || compound_sep == false))
       {
         buffer += mychar;
       }
-- 
2.43.0


From c838d9cc748f86cc91eae5eb58ec5094105960b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:06 +0000
Subject: [PATCH 003/115] fix: wblank-attach must keep escapes inside
 word-bound blanks

---
 apertium/wblank-attach.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apertium/wblank-attach.cc b/apertium/wblank-attach.cc
index e379ad9..9614da6 100644
--- a/apertium/wblank-attach.cc
+++ b/apertium/wblank-attach.cc
@@ -152,7 +152,7 @@ int main(int argc, char* argv[]) {
 				}
 			}
 			else if (blank[0] == '[' && blank[1] == '[') {
-				blank.assign(unesc.begin() + 2, unesc.end() - 2);
+				blank = blank.substr(2, blank.size() - 4);
 				wb_stack.push_back(0);
 				size_t b = 0;
 				while (b < blank.size()) {
-- 
2.43.0


From f0633344f324e4f17e1c7cb0d586b0100fa36be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:06 +0000
Subject: [PATCH 004/115] fix: wblank-attach must not carry open spans over a
 null flush

---
 apertium/wblank-attach.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apertium/wblank-attach.cc b/apertium/wblank-attach.cc
index 9614da6..3091729 100644
--- a/apertium/wblank-attach.cc
+++ b/apertium/wblank-attach.cc
@@ -78,7 +78,8 @@ int main(int argc, char* argv[]) {
 		}
 
 		if (c == '\0') {
-			in_token = in_blank = false;
+			in_token = in_blank = in_wblank = false;
+			wb_stack.clear();
 			if (!wbs.empty()) {
 				std::cerr << "tf-apertium-spread warning: Null-flush found, but had open word-bound blanks on line " << line << ":";
 				for (auto& wb : wbs) {
-- 
2.43.0


From 7b9e53e0ea0c392f2a6106ef5f1d46f39e0d9a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:06 +0000
Subject: [PATCH 005/115] fix: transfer mlu must leave lu state and not read
 words in npar=0 macros

---
 apertium/transfer.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/apertium/transfer.cc b/apertium/transfer.cc
index 3b8a585..e49a15a 100644
--- a/apertium/transfer.cc
+++ b/apertium/transfer.cc
@@ -362,7 +362,10 @@ Transfer::processMlu(xmlNode* element)
 	value.append(myword);
   }
 
-  if(last_lword == 1) {
+  in_lu = false;
+
+  // as in processLu(), word is null inside an npar=0 macro
+  if(last_lword == 1 && word != nullptr) {
     out_wblank = word[0]->getWblank();
   }
 
-- 
2.43.0


From b796703c16c44e1cb4a739427fd2e81854bea28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:06 +0000
Subject: [PATCH 006/115] fix: rejecting a rule after a shifting reject must
 not skip words

---
 apertium/interchunk.cc | 1 +
 apertium/postchunk.cc  | 1 +
 apertium/transfer.cc   | 1 +
 3 files changed, 3 insertions(+)

diff --git a/apertium/interchunk.cc b/apertium/interchunk.cc
index dcc1bba..4a918a6 100644
--- a/apertium/interchunk.cc
+++ b/apertium/interchunk.cc
@@ -501,6 +501,7 @@ Interchunk::interchunk(InputFile& in, UFILE* out)
               num_consumed_words++;
             }
           }
+          last = input_buffer.getPos();
         }
         else
         {
diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index 5189c7b..8b9c777 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -596,6 +596,7 @@ Postchunk::postchunk(InputFile& in, UFILE* out)
               num_consumed_words++;
             }
           }
+          last = input_buffer.getPos();
         }
         else
         {
diff --git a/apertium/transfer.cc b/apertium/transfer.cc
index e49a15a..a96dd8d 100644
--- a/apertium/transfer.cc
+++ b/apertium/transfer.cc
@@ -1025,6 +1025,7 @@ Transfer::transfer(InputFile& in, UFILE* out)
               num_consumed_words++;
             }
           }
+          last = input_buffer.getPos();
         }
         else
         {
-- 
2.43.0


From 49530f9bb368bea067f4e26031aded665940e641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:23 +0000
Subject: [PATCH 007/115] fix: a rejected rule must not output blanks that are
 read again

---
 apertium/interchunk.h     |  1 -
 apertium/transfer.h       |  1 -
 apertium/transfer_base.cc | 12 +++++++++++-
 apertium/transfer_base.h  |  1 +
 4 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/apertium/interchunk.h b/apertium/interchunk.h
index 49e8102..fa1f585 100644
--- a/apertium/interchunk.h
+++ b/apertium/interchunk.h
@@ -28,7 +28,6 @@ class Interchunk : public TransferBase
 {
 private:
   InterchunkWord **word = nullptr;
-  int last_lword = 0;
 
   bool inword = false;
 
diff --git a/apertium/transfer.h b/apertium/transfer.h
index 7cc90d8..1743aa1 100644
--- a/apertium/transfer.h
+++ b/apertium/transfer.h
@@ -30,7 +30,6 @@ class Transfer : public TransferBase
 private:
 
   TransferWord **word = nullptr;
-  int last_lword = 0;
   bool in_lu = false;
   bool in_wblank = false;
   UString out_wblank;
diff --git a/apertium/transfer_base.cc b/apertium/transfer_base.cc
index a5403ef..ac7604d 100644
--- a/apertium/transfer_base.cc
+++ b/apertium/transfer_base.cc
@@ -262,13 +262,23 @@ TransferBase::processRule(xmlNode* localroot)
       break;
     }
   }
+  // blanks after the words consumed by a rejected rule will be read again
+  size_t reread = 0;
+  if (words_to_consume == 0) {
+    reread = blank_queue.size();
+  } else if (words_to_consume > 0 && last_lword > words_to_consume) {
+    reread = last_lword - words_to_consume;
+  }
   // flush remaining non-space blanks
-  while (!blank_queue.empty()) {
+  while (blank_queue.size() > reread) {
     if (blank_queue.front() != " "_u) {
       write(blank_queue.front(), output);
     }
     blank_queue.pop();
   }
+  while (!blank_queue.empty()) {
+    blank_queue.pop();
+  }
   return words_to_consume;
 }
 
diff --git a/apertium/transfer_base.h b/apertium/transfer_base.h
index d0a55a9..47df8c2 100644
--- a/apertium/transfer_base.h
+++ b/apertium/transfer_base.h
@@ -40,6 +40,7 @@ protected:
   xmlNode* root_element = nullptr;
 
   queue<UString> blank_queue;
+  int last_lword = 0; // words matched by the rule (not used by postchunk)
   Buffer<TransferToken> input_buffer;
   int lword = 0;
   vector<UString*> tmpword;
-- 
2.43.0


From 184f160ee569ab605995f0b256a0fff6e41c092a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 008/115] fix: caseless tests in transfer must handle empty
 strings

---
 apertium/transfer_base.cc | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/apertium/transfer_base.cc b/apertium/transfer_base.cc
index ac7604d..23e975f 100644
--- a/apertium/transfer_base.cc
+++ b/apertium/transfer_base.cc
@@ -6,6 +6,13 @@
 
 using namespace std;
 
+// StringUtils::tolower() returns garbage for an empty string
+static UString
+lowercase(const UString& str)
+{
+  return str.empty() ? str : StringUtils::tolower(str);
+}
+
 TransferBase::TransferBase()
 {}
 
@@ -103,7 +110,7 @@ TransferBase::read(const char* transferfile, const char* datafile)
     {
       UString const cad_v = Compression::string_read(in);
       lists[cad_k].insert(cad_v);
-      listslow[cad_k].insert(StringUtils::tolower(cad_v));
+      listslow[cad_k].insert(lowercase(cad_v));
     }
   }
 }
@@ -192,7 +199,7 @@ TransferBase::copycase(const UString& src, const UString& dest)
       if (u_isupper(cs[1])) {
         ret += StringUtils::toupper(dest.substr(loc2+1));
       } else {
-        ret += StringUtils::tolower(dest.substr(loc2+1));
+        ret += lowercase(dest.substr(loc2+1));
       }
     }
     return ret;
@@ -520,8 +527,8 @@ TransferBase::processBeginsWith(xmlNode* localroot)
 {
   auto ch = twoChildren(localroot);
   if (getattr(localroot, "caseless") == "yes"_u) {
-    return beginsWith(StringUtils::tolower(evalString(ch.first)),
-                      StringUtils::tolower(evalString(ch.second)));
+    return beginsWith(lowercase(evalString(ch.first)),
+                      lowercase(evalString(ch.second)));
   } else {
     return beginsWith(evalString(ch.first), evalString(ch.second));
   }
@@ -535,7 +542,7 @@ TransferBase::processBeginsWithList(xmlNode* localroot)
   UString idlist = getattr(ch.second, "n");
   bool caseless = (getattr(localroot, "caseless") == "yes"_u);
   if (caseless) {
-    needle = StringUtils::tolower(needle);
+    needle = lowercase(needle);
   }
   for (auto it : (caseless ? listslow[idlist] : lists[idlist])) {
     if (beginsWith(needle, it)) {
@@ -550,8 +557,8 @@ TransferBase::processEndsWith(xmlNode* localroot)
 {
   auto ch = twoChildren(localroot);
   if (getattr(localroot, "caseless") == "yes"_u) {
-    return endsWith(StringUtils::tolower(evalString(ch.first)),
-                    StringUtils::tolower(evalString(ch.second)));
+    return endsWith(lowercase(evalString(ch.first)),
+                    lowercase(evalString(ch.second)));
   } else {
     return endsWith(evalString(ch.first), evalString(ch.second));
   }
@@ -565,7 +572,7 @@ TransferBase::processEndsWithList(xmlNode* localroot)
   UString idlist = getattr(ch.second, "n");
   bool caseless = (getattr(localroot, "caseless") == "yes"_u);
   if (caseless) {
-    needle = StringUtils::tolower(needle);
+    needle = lowercase(needle);
   }
   for (auto it : (caseless ? listslow[idlist] : lists[idlist])) {
     if (endsWith(needle, it)) {
@@ -580,7 +587,7 @@ TransferBase::processContainsSubstring(xmlNode* localroot)
 {
   auto ch = twoChildren(localroot);
   if (getattr(localroot, "caseless") == "yes"_u) {
-    return StringUtils::tolower(evalString(ch.first)).find(StringUtils::tolower(evalString(ch.second))) != UString::npos;
+    return lowercase(evalString(ch.first)).find(lowercase(evalString(ch.second))) != UString::npos;
   } else {
     return evalString(ch.first).find(evalString(ch.second)) != UString::npos;
   }
@@ -591,7 +598,7 @@ TransferBase::processEqual(xmlNode* localroot)
 {
   auto ch = twoChildren(localroot);
   if (getattr(localroot, "caseless") == "yes"_u) {
-    return StringUtils::tolower(evalString(ch.first)) == StringUtils::tolower(evalString(ch.second));
+    return lowercase(evalString(ch.first)) == lowercase(evalString(ch.second));
   } else {
     return evalString(ch.first) == evalString(ch.second);
   }
@@ -605,7 +612,7 @@ TransferBase::processIn(xmlNode* localroot)
   UString idlist = getattr(ch.second, "n");
   if (getattr(localroot, "caseless") == "yes"_u) {
     set<UString>& myset = listslow[idlist];
-    return (myset.find(StringUtils::tolower(sval)) != myset.end());
+    return (myset.find(lowercase(sval)) != myset.end());
   } else {
     set<UString>& myset = lists[idlist];
     return (myset.find(sval) != myset.end());
-- 
2.43.0


From 80e5b2861153b39eaeb13cedc0e1f149c76973b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:36 +0000
Subject: [PATCH 009/115] fix: postchunk must not lose or move blanks at the
 edges of a chunk

---
 apertium/postchunk.cc | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index 8b9c777..ac78f9d 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -684,7 +684,8 @@ Postchunk::applyRule()
 {
   UString const chunk = *tmpword[0];
   tmpword.clear();
-  splitWordsAndBlanks(chunk, tmpword, tmpblank);
+  vector<UString *> blanks; // before the first word, between words, after the last
+  splitWordsAndBlanks(chunk, tmpword, blanks);
 
   word = new InterchunkWord *[tmpword.size()+1];
   lword = tmpword.size();
@@ -692,12 +693,24 @@ Postchunk::applyRule()
 
   for(unsigned int i = 1, limit = tmpword.size()+1; i != limit; i++)
   {
-    if(i != 1) {
-      blank_queue.push(*tmpblank[i-1]);
+    if(i == 2) {
+      blank_queue.push(*blanks[0] + *blanks[1]);
+    } else if(i > 2) {
+      blank_queue.push(*blanks[i-1]);
     }
 
     word[i] = new InterchunkWord(*tmpword[i-1]);
   }
+  UString outer;
+  if (tmpword.size() < 2) {
+    outer += *blanks[0];
+  }
+  if (!tmpword.empty() && blanks.size() > tmpword.size()) {
+    outer += *blanks.back();
+  }
+  if (!outer.empty()) {
+    blank_queue.push(outer);
+  }
 
   int words_to_consume = processRule(lastrule);
   lastrule = NULL;
@@ -714,12 +727,12 @@ Postchunk::applyRule()
 
   for(unsigned int i = 0, limit = tmpword.size(); i != limit; i++)
   {
-    if(i != 0)
-    {
-      delete tmpblank[i];
-    }
     delete tmpword[i];
   }
+  for(auto b : blanks)
+  {
+    delete b;
+  }
   tmpword.clear();
   tmpblank.clear();
   ms.init(me->getInitial());
@@ -821,7 +834,7 @@ Postchunk::beginChunk(UString const &chunk)
 int
 Postchunk::endChunk(UString const &chunk)
 {
-  return chunk.size()-2;
+  return chunk.size()-1;
 }
 
 UString
@@ -970,6 +983,8 @@ Postchunk::splitWordsAndBlanks(UString const &chunk, vector<UString *> &words,
   bool uppercase_first = false;
   bool lastblank = true;
 
+  blanks.push_back(new UString());
+
   if(case_info == "AA"_u)
   {
     uppercase_all = true;
-- 
2.43.0


From 2c0474c65d25591e0ed82654957698306e63ab33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:38 +0000
Subject: [PATCH 010/115] fix: postchunk -w must also apply to chunks matched
 by a rule

---
 apertium/postchunk.cc | 4 ++--
 apertium/postchunk.h  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index ac78f9d..9b76b29 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -985,11 +985,11 @@ Postchunk::splitWordsAndBlanks(UString const &chunk, vector<UString *> &words,
 
   blanks.push_back(new UString());
 
-  if(case_info == "AA"_u)
+  if(!dictionary_case && case_info == "AA"_u)
   {
     uppercase_all = true;
   }
-  else if(case_info == "Aa"_u)
+  else if(!dictionary_case && case_info == "Aa"_u)
   {
     uppercase_first = true;
   }
diff --git a/apertium/postchunk.h b/apertium/postchunk.h
index 3dda423..01ae8ad 100644
--- a/apertium/postchunk.h
+++ b/apertium/postchunk.h
@@ -62,7 +62,7 @@ private:
   static vector<UString> getVecTags(UString const &chunk);
   static int beginChunk(UString const &chunk);
   static int endChunk(UString const &chunk);
-  static void splitWordsAndBlanks(UString const &chunk,
+  void splitWordsAndBlanks(UString const &chunk,
 				  vector<UString *> &words,
 				  vector<UString *> &blanks);
   static UString pseudolemma(UString const &chunk);
-- 
2.43.0


From 5b197de747889e5480f3596262937a34341da600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:38 +0000
Subject: [PATCH 011/115] fix: check word positions in let, modify-case and
 macro calls

---
 apertium/interchunk.cc | 18 +++++++++++++++++-
 apertium/postchunk.cc  | 16 +++++++++++++++-
 apertium/transfer.cc   |  7 ++++++-
 3 files changed, 38 insertions(+), 3 deletions(-)

diff --git a/apertium/interchunk.cc b/apertium/interchunk.cc
index 4a918a6..71d1e6d 100644
--- a/apertium/interchunk.cc
+++ b/apertium/interchunk.cc
@@ -220,6 +220,9 @@ Interchunk::processLet(xmlNode *localroot)
 
       case ti_clip_tl:
       {
+        if (!checkIndex(leftSide, ti.getPos(), lword)) {
+          return;
+        }
         bool match = word[ti.getPos()]->setChunkPart(attr_items[ti.getContent()], evalString(rightSide));
         if(!match && trace)
         {
@@ -256,6 +259,9 @@ Interchunk::processLet(xmlNode *localroot)
     }
 
 
+    if (!checkIndex(leftSide, pos, lword)) {
+      return;
+    }
     bool match = word[pos]->setChunkPart(attr_items[part],
 					 evalString(rightSide));
     if(!match && trace)
@@ -300,6 +306,9 @@ Interchunk::processModifyCase(xmlNode *localroot)
       }
     }
 
+    if (!checkIndex(leftSide, pos, lword)) {
+      return;
+    }
     UString const result = StringUtils::copycase(evalString(rightSide),
 				   word[pos]->chunkPart(attr_items[part]));
     bool match = word[pos]->setChunkPart(attr_items[part], result);
@@ -339,9 +348,16 @@ Interchunk::processCallMacro(xmlNode *localroot)
   if(npar > 0)
   {
     myword = new InterchunkWord *[npar];
+    std::fill(myword, myword+npar, (InterchunkWord *)(0));
     for (auto i : children(localroot)) {
+      if (idx >= npar) {
+        cerr << "Error: processCallMacro() number of arguments >= npar at line " << i->line << endl;
+        break;
+      }
       int pos = atoi((const char *) i->properties->children->content)-1;
-      myword[idx] = word[pos];
+      if (checkIndex(i, pos, lword)) {
+        myword[idx] = word[pos];
+      }
       idx++;
     }
   }
diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index 9b76b29..680e98c 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -291,6 +291,9 @@ Postchunk::processLet(xmlNode *localroot)
 
       case ti_clip_tl:
       {
+        if (!checkIndex(leftSide, ti.getPos(), lword)) {
+          return;
+        }
         bool match = word[ti.getPos()]->setChunkPart(attr_items[ti.getContent()], evalString(rightSide));
         if(!match && trace)
         {
@@ -335,6 +338,9 @@ Postchunk::processLet(xmlNode *localroot)
     }
 
 
+    if (!checkIndex(leftSide, pos, lword)) {
+      return;
+    }
     bool match = word[pos]->setChunkPart(attr_items[part],
 					 evalString(rightSide));
     if(!match && trace)
@@ -377,6 +383,9 @@ Postchunk::processModifyCase(xmlNode *localroot)
       }
     }
 
+    if (!checkIndex(leftSide, pos, lword)) {
+      return;
+    }
     UString const result = StringUtils::copycase(evalString(rightSide),
 				   word[pos]->chunkPart(attr_items[part]));
     bool match = word[pos]->setChunkPart(attr_items[part], result);
@@ -419,6 +428,7 @@ Postchunk::processCallMacro(xmlNode *localroot)
   if(npar > 0)
   {
     myword = new InterchunkWord *[npar+1];
+    std::fill(myword, myword+npar+1, (InterchunkWord *)(0));
   }
 
   myword[0] = word[0];
@@ -426,10 +436,14 @@ Postchunk::processCallMacro(xmlNode *localroot)
   bool indexesOK = true;
   int idx = 1;
   for (auto i : children(localroot)) {
+    if (idx > npar) {
+      cerr << "Error: processCallMacro() number of arguments >= npar at line " << i->line << endl;
+      break;
+    }
     int pos = atoi((const char *) i->properties->children->content);
     if(!checkIndex(localroot, pos, lword)) {
       indexesOK = false;      // avoid segfaulting on empty chunks, e.g. ^x<x>{}$
-      pos = 1;
+      pos = 0;
     }
     myword[idx] = word[pos];
     idx++;
diff --git a/apertium/transfer.cc b/apertium/transfer.cc
index a96dd8d..4250245 100644
--- a/apertium/transfer.cc
+++ b/apertium/transfer.cc
@@ -702,6 +702,9 @@ Transfer::processModifyCase(xmlNode *localroot)
         (void)as; // ToDo, remove "as" and the whole else?
       }
     }
+    if (!checkIndex(leftSide, pos, lword)) {
+      return;
+    }
     if(!xmlStrcmp(side, (const xmlChar *) "sl"))
     {
       UString const result = StringUtils::copycase(evalString(rightSide),
@@ -771,7 +774,9 @@ Transfer::processCallMacro(xmlNode *localroot)
         return;
       }
       int pos = atoi((const char *) i->properties->children->content)-1;
-      myword[idx] = word[pos];
+      if (checkIndex(i, pos, lword)) {
+        myword[idx] = word[pos];
+      }
 
       idx++;
     }
-- 
2.43.0


From 8292a681a35649d2bb5b7fd9aaa5ff9f7f5eca00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:21 +0000
Subject: [PATCH 012/115] fix: transfer and postchunk must not carry state over
 a null flush

---
 apertium/postchunk.cc | 2 ++
 apertium/transfer.cc  | 1 +
 2 files changed, 3 insertions(+)

diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index 680e98c..9eaf760 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -553,6 +553,7 @@ Postchunk::postchunk_wrapper_null_flush(InputFile& in, UFILE* out)
     u_fputc('\0', out);
     u_fflush(out);
     variables = variable_defaults;
+    var_out_wblank.clear();
   }
 
   internal_null_flush = false;
@@ -682,6 +683,7 @@ Postchunk::postchunk(InputFile& in, UFILE* out)
       }
       else {
         write(current.getContent(), output);
+        tmpblank.clear();
         return;
       }
       break;
diff --git a/apertium/transfer.cc b/apertium/transfer.cc
index 4250245..bce8fc4 100644
--- a/apertium/transfer.cc
+++ b/apertium/transfer.cc
@@ -916,6 +916,7 @@ Transfer::tmp_clear()
   tmpblank.clear();
   tmpword.clear();
   variables = variable_defaults;
+  var_out_wblank.clear();
 }
 
 void
-- 
2.43.0


From c3e8122400adca1ec0b57afdd370a9098b5b674b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:27 +0000
Subject: [PATCH 013/115] fix: the transfer stages must stop at end of input
 inside blanks and chunks

---
 apertium/interchunk.cc | 8 ++++++--
 apertium/postchunk.cc  | 8 ++++++--
 apertium/transfer.cc   | 7 ++++++-
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/apertium/interchunk.cc b/apertium/interchunk.cc
index 71d1e6d..b127d3e 100644
--- a/apertium/interchunk.cc
+++ b/apertium/interchunk.cc
@@ -402,7 +402,9 @@ Interchunk::readToken(InputFile& in)
       while(true)
       {
         UChar32 val2 = in.get();
-        if(val2 == '\\') {
+        if(in.eof()) {
+          break;
+        } else if(val2 == '\\') {
           content += '\\';
           content += in.get();
         } else if(val2 == ']') {
@@ -417,7 +419,9 @@ Interchunk::readToken(InputFile& in)
       content += '{';
       while(true) {
         UChar32 val2 = in.get();
-        if(val2 == '\\') {
+        if(in.eof()) {
+          break;
+        } else if(val2 == '\\') {
           content += '\\';
           content += in.get();
         } else if(val2 == '}') {
diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index 9eaf760..657ade6 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -494,7 +494,9 @@ Postchunk::readToken(InputFile& in)
       while(true)
       {
         UChar32 val2 = in.get();
-        if(val2 == '\\') {
+        if(in.eof()) {
+          break;
+        } else if(val2 == '\\') {
           content += '\\';
           content += in.get();
         } else if(val2 == ']') {
@@ -510,7 +512,9 @@ Postchunk::readToken(InputFile& in)
       content += '{';
       while(true) {
         UChar32 val2 = in.get();
-        if(val2 == '\\') {
+        if(in.eof()) {
+          break;
+        } else if(val2 == '\\') {
           content += '\\';
           content += in.get();
         } else if(val2 == '}') {
diff --git a/apertium/transfer.cc b/apertium/transfer.cc
index bce8fc4..0cdb875 100644
--- a/apertium/transfer.cc
+++ b/apertium/transfer.cc
@@ -820,7 +820,12 @@ Transfer::readToken(InputFile& in)
       while(true)
       {
         UChar32 val3 = in.get();
-        if(val3 == '\\')
+        if(in.eof())
+        {
+          in_wblank = false;
+          return input_buffer.add(TransferToken(content, tt_eof));
+        }
+        else if(val3 == '\\')
         {
           content += '\\';
           content += in.get();
-- 
2.43.0


From 73b0fae13da652bb8a8dc71271aa1fdb2ceecdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:37 +0000
Subject: [PATCH 014/115] fix: pretransfer must stop at end of input and keep
 text after ] in a blank

---
 apertium/pretransfer.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/apertium/pretransfer.cc b/apertium/pretransfer.cc
index 08c4c0f..2a36bd7 100644
--- a/apertium/pretransfer.cc
+++ b/apertium/pretransfer.cc
@@ -41,6 +41,7 @@ UString storeAndWriteWblank(InputFile& input, UFILE* output)
         u_fputc(mychar, output);
         break;
       }
+      input.unget(mychar);
     }
   }
 
@@ -79,6 +80,11 @@ void procWord(InputFile& input, UFILE* output, bool surface_forms, bool compound
   if(surface_forms)
   {
     while((mychar = input.get()) != '/') {
+      if(input.eof())
+      {
+        std::cerr << "ERROR: Unexpected EOF" << std::endl;
+        exit(EXIT_FAILURE);
+      }
       if (mychar == '\\') input.get();
     }
   }
-- 
2.43.0


From 64416aa3ec6cc44e070116d0d56f6b5a6748b85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:07 +0000
Subject: [PATCH 015/115] fix: a }$ inside a blank must not end a chunk

---
 apertium/interchunk.cc | 9 ++++++++-
 apertium/postchunk.cc  | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/apertium/interchunk.cc b/apertium/interchunk.cc
index b127d3e..6f872d3 100644
--- a/apertium/interchunk.cc
+++ b/apertium/interchunk.cc
@@ -417,6 +417,7 @@ Interchunk::readToken(InputFile& in)
     }
     else if(inword && val == '{') {
       content += '{';
+      bool in_blank = false;
       while(true) {
         UChar32 val2 = in.get();
         if(in.eof()) {
@@ -424,7 +425,13 @@ Interchunk::readToken(InputFile& in)
         } else if(val2 == '\\') {
           content += '\\';
           content += in.get();
-        } else if(val2 == '}') {
+        } else if(val2 == '[') {
+          in_blank = true;
+          content += val2;
+        } else if(val2 == ']') {
+          in_blank = false;
+          content += val2;
+        } else if(val2 == '}' && !in_blank) {
           UChar32 val3 = in.peek();
 
           content += '}';
diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index 657ade6..081b288 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -510,6 +510,7 @@ Postchunk::readToken(InputFile& in)
     else if(inword && val == '{')
     {
       content += '{';
+      bool in_blank = false;
       while(true) {
         UChar32 val2 = in.get();
         if(in.eof()) {
@@ -517,7 +518,13 @@ Postchunk::readToken(InputFile& in)
         } else if(val2 == '\\') {
           content += '\\';
           content += in.get();
-        } else if(val2 == '}') {
+        } else if(val2 == '[') {
+          in_blank = true;
+          content += val2;
+        } else if(val2 == ']') {
+          in_blank = false;
+          content += val2;
+        } else if(val2 == '}' && !in_blank) {
           UChar32 val3 = in.peek();
           content += '}';
           if(val3 == '$') {
-- 
2.43.0


From 9682ae71f62e582528246c9b7aea62246e5ee752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:57 +0000
Subject: [PATCH 016/115] fix: attribute values are literal text, not regular
 expressions

---
 apertium/transfer_regex.cc | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/apertium/transfer_regex.cc b/apertium/transfer_regex.cc
index 6698254..b1c1bfb 100644
--- a/apertium/transfer_regex.cc
+++ b/apertium/transfer_regex.cc
@@ -1,5 +1,7 @@
 #include <transfer_regex.h>
 
+#include <cctype>
+
 struct TrieNode {
   UChar32 c;
   bool end;
@@ -43,6 +45,21 @@ add_entry(TrieNode* root, const std::vector<int32_t>& vec)
   cur->end = true;
 }
 
+// append a character that stands for itself
+void
+append_literal(UString& s, UChar32 c)
+{
+  if (c < 0x80 && ispunct(c) && c != '<' && c != '>' && c != '_') {
+    s += '\\';
+  }
+  if (U_IS_BMP(c)) {
+    s += static_cast<UChar>(c);
+  } else {
+    s += static_cast<UChar>(U16_LEAD(c));
+    s += static_cast<UChar>(U16_TRAIL(c));
+  }
+}
+
 UString
 unbuildTrie(TrieNode* root)
 {
@@ -52,10 +69,7 @@ unbuildTrie(TrieNode* root)
   int single_count = 0;
   for (auto it : root->next) {
     if (it->end && it->next.empty()) {
-      if (it->c == '+' || it->c == '*' || it->c == '?' || it->c == '.') {
-        single += '\\';
-      }
-      single += it->c;
+      append_literal(single, it->c);
       single_count++;
     } else {
       groups.push_back(unbuildTrie(it));
@@ -70,14 +84,11 @@ unbuildTrie(TrieNode* root)
     }
   }
   UString ret;
-  if (root->c == '+' || root->c == '*' || root->c == '?' || root->c == '.') {
-    ret += '\\';
-  }
-  ret += root->c;
+  append_literal(ret, root->c);
   if (groups.empty()) {
     return ret;
   } else if (groups.size() == 1) {
-    if (root->end && groups[0].size() > 1 && groups[0][0] != '(') {
+    if (root->end && groups[0].size() > 1) {
       ret += '('; ret += '?'; ret += ':';
       ret += groups[0];
       ret += ')';
-- 
2.43.0


From c7f39eab07f779829a9047c2ee2bc32a4b2a2a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:57 +0000
Subject: [PATCH 017/115] fix: queue="no" must handle words shorter than their
 queue

An assignment can leave a word shorter than the queue its translation had:
the unsigned subtraction then read the whole word, or threw in an assignment.
---
 apertium/transfer_word.cc | 29 ++++++++++++++++++++---------
 apertium/transfer_word.h  |  6 ++++++
 2 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/apertium/transfer_word.cc b/apertium/transfer_word.cc
index a3ce8c7..a37ddaf 100644
--- a/apertium/transfer_word.cc
+++ b/apertium/transfer_word.cc
@@ -75,6 +75,14 @@ TransferWord::init(UString const &src, UString const &tgt, UString const &ref, U
   wb_str = wblank;
 }
 
+size_t
+TransferWord::beforeQueue(UString const &str) const
+{
+  // an assignment can leave the word shorter than its queue was
+  size_t const queue = queue_length;
+  return str.size() > queue ? str.size() - queue : 0;
+}
+
 UString
 TransferWord::source(ApertiumRE const &part, bool with_queue)
 {
@@ -84,7 +92,7 @@ TransferWord::source(ApertiumRE const &part, bool with_queue)
   }
   else
   {
-    return part.match(s_str.substr(0, s_str.size() - queue_length));
+    return part.match(s_str.substr(0, beforeQueue(s_str)));
   }
 }
 
@@ -97,7 +105,7 @@ TransferWord::target(ApertiumRE const &part, bool with_queue)
   }
   else
   {
-    return part.match(t_str.substr(0, t_str.size() - queue_length));
+    return part.match(t_str.substr(0, beforeQueue(t_str)));
   }
 }
 
@@ -110,7 +118,7 @@ TransferWord::reference(ApertiumRE const &part, bool with_queue)
   }
   else
   {
-    return part.match(r_str.substr(0, r_str.size() - queue_length));
+    return part.match(r_str.substr(0, beforeQueue(r_str)));
   }
 }
 
@@ -130,9 +138,10 @@ TransferWord::setSource(ApertiumRE const &part, UString const &value,
   }
   else
   {
-    UString mystring = s_str.substr(0, s_str.size() - queue_length);
+    size_t const len = beforeQueue(s_str);
+    UString mystring = s_str.substr(0, len);
     bool ret = part.replace(mystring, value);
-    s_str = mystring + s_str.substr(s_str.size() - queue_length);
+    s_str = mystring + s_str.substr(len);
     return ret;
   }
 }
@@ -147,9 +156,10 @@ TransferWord::setTarget(ApertiumRE const &part, UString const &value,
   }
   else
   {
-    UString mystring = t_str.substr(0, t_str.size() - queue_length);
+    size_t const len = beforeQueue(t_str);
+    UString mystring = t_str.substr(0, len);
     bool ret = part.replace(mystring, value);
-    t_str = mystring + t_str.substr(t_str.size() - queue_length);
+    t_str = mystring + t_str.substr(len);
     return ret;
   }
 }
@@ -164,9 +174,10 @@ TransferWord::setReference(ApertiumRE const &part, UString const &value,
   }
   else
   {
-    UString mystring = r_str.substr(0, r_str.size() - queue_length);
+    size_t const len = beforeQueue(r_str);
+    UString mystring = r_str.substr(0, len);
     bool ret = part.replace(mystring, value);
-    r_str = mystring + r_str.substr(r_str.size() - queue_length);
+    r_str = mystring + r_str.substr(len);
     return ret;
   }
 }
diff --git a/apertium/transfer_word.h b/apertium/transfer_word.h
index c286edf..e5169ab 100644
--- a/apertium/transfer_word.h
+++ b/apertium/transfer_word.h
@@ -57,6 +57,12 @@ private:
    */
   int queue_length;
 
+  /**
+   * Length of a word without its queue
+   * @param str typically s_str or t_str or r_str
+   */
+  size_t beforeQueue(UString const &str) const;
+
   /**
    * Copy method
    * @param o the object to be copied
-- 
2.43.0


From 39515e47fce13095c66a51f7a82eed170299d369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:25 +0000
Subject: [PATCH 018/115] fix: restore-caps must keep the word-bound blanks
 after the case marker

---
 apertium/caps_restorer.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/apertium/caps_restorer.cc b/apertium/caps_restorer.cc
index 4b0508f..2f6280b 100644
--- a/apertium/caps_restorer.cc
+++ b/apertium/caps_restorer.cc
@@ -175,11 +175,12 @@ CapsRestorer::read_word(InputFile& input)
   UString src_caps = "aa/aa"_u;
   if (!cur.wblank.empty()) {
     std::vector<UString> new_pieces;
+    bool found = false;
     auto pieces = StringUtils::split(cur.wblank.substr(2, cur.wblank.size()-4), "; "_u);
     for (auto& it : pieces) {
       if (StringUtils::startswith(it, "c:"_u)) {
-        src_caps = it.substr(2);
-        break;
+        if (!found) src_caps = it.substr(2);
+        found = true;
       } else if (delete_wblanks) {
         new_pieces.push_back(it);
       }
-- 
2.43.0


From 3cf0949de9482c5365f36877cca5a8bfdce7e52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:12 +0000
Subject: [PATCH 019/115] fix: restore-caps must not apply a rule again at a
 blank without a word

---
 apertium/caps_restorer.cc | 7 ++++---
 apertium/caps_restorer.h  | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/apertium/caps_restorer.cc b/apertium/caps_restorer.cc
index 2f6280b..7948b59 100644
--- a/apertium/caps_restorer.cc
+++ b/apertium/caps_restorer.cc
@@ -49,7 +49,7 @@ CapsRestorer::process(InputFile& input, UFILE* output)
       u_fflush(output);
       continue;
     }
-    read_word(input);
+    if (!read_word(input)) continue;
     current_state.step_optional(word_boundary);
     if (current_state.isFinal(finals)) {
       auto path_set = current_state.filterFinalsLRX(finals, alpha, escaped_chars, false, false, 0);
@@ -144,7 +144,7 @@ CapsRestorer::step(int32_t sym)
   }
 }
 
-void
+bool
 CapsRestorer::read_word(InputFile& input)
 {
   LU cur;
@@ -156,7 +156,7 @@ CapsRestorer::read_word(InputFile& input)
   }
   if (input.peek() != '^') {
     words.push_back(std::move(cur));
-    return;
+    return false;
   }
   input.get();
   read_seg(input, cur.form);
@@ -214,4 +214,5 @@ CapsRestorer::read_word(InputFile& input)
   current_state.step(word_boundary);
 
   words.push_back(std::move(cur));
+  return true;
 }
diff --git a/apertium/caps_restorer.h b/apertium/caps_restorer.h
index 857288f..b3421af 100644
--- a/apertium/caps_restorer.h
+++ b/apertium/caps_restorer.h
@@ -54,7 +54,7 @@ private:
 
   std::vector<LU> words;
 
-  void read_word(InputFile& input);
+  bool read_word(InputFile& input);
   void output_all(UFILE* output);
   void step(int32_t sym);
   void read_seg(InputFile& input, UString& str);
-- 
2.43.0


From cb3be7ca591b6e0e4f6298eb37b5a7e291491e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:42 +0000
Subject: [PATCH 020/115] fix: deformatters must not lose a full stop with -n

---
 apertium/deformat.xsl | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/apertium/deformat.xsl b/apertium/deformat.xsl
index 864ead8..443ac37 100644
--- a/apertium/deformat.xsl
+++ b/apertium/deformat.xsl
@@ -175,6 +175,7 @@ string symbuf;
 bool isDot, isEoh, hasWrite_dot, hasWrite_white;
 bool eosIncond;
 bool noDot;
+bool afterDot;
 bool markEoh;
 UFILE* formatfile;
 string last;
@@ -445,18 +446,24 @@ void printBuffer(int ind=-1, string end_tag="")
   </xsl:when>
   <xsl:otherwise>
 
+void putDot()
+{
+  if(!noDot)
+  {
+    fputs_unlocked(".[]", yyout);
+  }
+  else if(!afterDot)
+  {
+    // a "[]" after a full stop of the text would read as ".[]"
+    fputs_unlocked("[]", yyout);
+  }
+}
+
 void preDot()
 {
   if(eosIncond)
   {
-    if(noDot)
-    {
-      fputs_unlocked("[]", yyout);
-    }
-    else
-    {
-      fputs_unlocked(".[]", yyout);
-    }
+    putDot();
   }
 }
 
@@ -469,14 +476,7 @@ void printBuffer()
   }
   if(isDot &amp;&amp; !eosIncond)
   {
-    if(noDot)
-    {
-      fputs_unlocked("[]", yyout);
-    }
-    else
-    {
-      fputs_unlocked(".[]", yyout);
-    }
+    putDot();
     isDot = false;
   }
   if(buffer.size() &gt; <xsl:value-of select="/format/options/largeblocks/@size"/>)
@@ -521,6 +521,10 @@ void printBuffer()
     put(buffer, yyout);
   }
 
+  if(!buffer.empty())
+  {
+    afterDot = false;
+  }
   buffer.clear();
 }
   </xsl:otherwise>
@@ -608,7 +612,7 @@ void printBuffer()
   <xsl:value-of select="$varname"/>
   <xsl:value-of select="string('.end())&#xA;  {&#xA;    printBuffer();&#xA;    put(')"/>
   <xsl:value-of select="$varname"/>
-  <xsl:value-of select="string('[yytext], yyout);&#xA;    offset+=')"/>
+  <xsl:value-of select="string('[yytext], yyout);&#xA;    afterDot = false;&#xA;    offset+=')"/>
   <xsl:value-of select="$varname"/>
   <xsl:value-of select="string('[yytext].size();&#xA;')"/>
   <xsl:value-of select="string('    hasWrite_dot = hasWrite_white = true;&#xA;  }&#xA;  else&#xA;  {&#xA;')"/>
@@ -630,6 +634,7 @@ void printBuffer()
   const char *mb = yytext;
   UChar32 symbol = utf8::next(mb, mb+4);
   put(UString(1, symbol), yyout);
+  afterDot = false;
   offset++;
   hasWrite_dot = hasWrite_white = true;
 
@@ -645,6 +650,7 @@ void printBuffer()
     put(symbol, yyout);
     offset++;
     hasWrite_dot = hasWrite_white = true;
+    afterDot = (symbol == "."_u);
   }
 }
 
-- 
2.43.0


From f990fdccde8827db1832805f4ad5a1ff468969c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:23 +0000
Subject: [PATCH 021/115] fix: xpresstag style tags must not swallow text up to
 a later = or :

---
 apertium/xpresstag-format.xml | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/apertium/xpresstag-format.xml b/apertium/xpresstag-format.xml
index 042d55b..2f0642c 100644
--- a/apertium/xpresstag-format.xml
+++ b/apertium/xpresstag-format.xml
@@ -20,15 +20,15 @@
     </format-rule>
 
     <format-rule type="empty" eos="yes" priority="3">
-      <tag regexp="&quot;@&quot;[^&lt;:]+&quot;:&quot;"/>
+      <tag regexp="&quot;@&quot;[^&lt;:=]+&quot;:&quot;"/>
     </format-rule>
     <format-rule type="empty" eos="yes" priority="3">
-      <tag regexp="&quot;@&quot;[^&lt;=]+&quot;=&quot;"/>
+      <tag regexp="&quot;@&quot;[^&lt;:=]+&quot;=&quot;"/>
     </format-rule>
 
     <format-rule type="empty" eos="yes" priority="3">
       <tag
-regexp="&quot;@&quot;[^&lt;=]+&quot;=[&quot;[^]]+&quot;]&quot;"/>
+regexp="&quot;@&quot;[^&lt;:=]+&quot;=[&quot;[^]]+&quot;]&quot;"/>
     </format-rule>
   </rules>
 </format>
\ No newline at end of file
-- 
2.43.0


From 780cff041b44afb5fd405ab3924a29bb7c42df7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:18 +0000
Subject: [PATCH 022/115] fix: postchunk must not cut word-bound blanks at an
 escaped ]

---
 apertium/interchunk_word.cc | 3 ++-
 apertium/postchunk.cc       | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/apertium/interchunk_word.cc b/apertium/interchunk_word.cc
index 14a27b3..bbe0849 100644
--- a/apertium/interchunk_word.cc
+++ b/apertium/interchunk_word.cc
@@ -78,8 +78,9 @@ InterchunkWord::init(UString const &chunk)
     }
     else if(chunk[i] == ']')
     {
-      if(chunk[i-1] == ']')
+      if(i+1 < chunk.size() && chunk[i+1] == ']')
       {
+        i++;
         b_end = i+1;
       }
     }
diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index 081b288..da6eda5 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -1108,10 +1108,10 @@ Postchunk::splitWordsAndBlanks(UString const &chunk, vector<UString *> &words,
             ref += '\\';
             ref += chunk[++i];
           }
-          else if(chunk[i] == ']' && chunk[i-1] == ']')
+          else if(chunk[i] == ']' && chunk[i+1] == ']')
           {
-            ref += chunk[i];
-            i++; //i->"^"_u
+            ref += "]]"_u;
+            i += 2; //i->"^"_u
             break;
           }
           else
-- 
2.43.0


From 8cd3ef87ef41ebfa0a8273ca57c2cabfdb0d5f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:18 +0000
Subject: [PATCH 023/115] fix: variables must keep the word-bound blanks of the
 words in them

---
 apertium/postchunk.cc     | 17 ++++++++++-------
 apertium/postchunk.h      |  1 -
 apertium/transfer.cc      | 22 +++++++++++++---------
 apertium/transfer.h       |  1 -
 apertium/transfer_base.cc |  2 ++
 apertium/transfer_base.h  |  2 ++
 6 files changed, 27 insertions(+), 18 deletions(-)

diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index da6eda5..edb93a2 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -53,12 +53,11 @@ Postchunk::evalCachedString(xmlNode* element)
   switch (ti.getType()) {
   case ti_clip_tl:
     if (checkIndex(element, ti.getPos(), lword)) {
-      if (gettingLemmaFromWord(ti.getContent()) && lword > 1) {
-        if (in_lu) {
+      if (gettingLemmaFromWord(ti.getContent())) {
+        if (in_lu && lword > 1) {
           out_wblank = combineWblanks(out_wblank, word[ti.getPos()]->getWblank());
         } else if (in_let_var) {
-          var_out_wblank[var_val] = combineWblanks(var_out_wblank[var_val],
-                                                   word[ti.getPos()]->getWblank());
+          let_wblank = combineWblanks(let_wblank, word[ti.getPos()]->getWblank());
         }
       }
       return word[ti.getPos()]->chunkPart(attr_items[ti.getContent()]);
@@ -69,7 +68,9 @@ Postchunk::evalCachedString(xmlNode* element)
     return StringUtils::itoa(tmpword.size());
 
   case ti_var:
-    if (lword > 1) {
+    if (in_let_var) {
+      let_wblank = combineWblanks(let_wblank, var_out_wblank[ti.getContent()]);
+    } else if (lword > 1) {
       out_wblank = combineWblanks(out_wblank, var_out_wblank[ti.getContent()]);
     }
     return variables[ti.getContent()];
@@ -282,9 +283,10 @@ Postchunk::processLet(xmlNode *localroot)
       case ti_var:
         in_let_var = true;
         var_val = ti.getContent();
-        var_out_wblank[var_val].clear();
+        let_wblank.clear();
 
         variables[ti.getContent()] = evalString(rightSide);
+        var_out_wblank[var_val] = let_wblank;
 
         in_let_var = false;
         return;
@@ -313,9 +315,10 @@ Postchunk::processLet(xmlNode *localroot)
     UString const val = to_ustring((const char *) leftSide->properties->children->content);
 
     var_val = val;
-    var_out_wblank[var_val].clear();
+    let_wblank.clear();
 
     variables[val] = evalString(rightSide);
+    var_out_wblank[var_val] = let_wblank;
 
     in_let_var = false;
     evalStringCache[leftSide] = TransferInstr(ti_var, val, 0);
diff --git a/apertium/postchunk.h b/apertium/postchunk.h
index 01ae8ad..7432bc8 100644
--- a/apertium/postchunk.h
+++ b/apertium/postchunk.h
@@ -33,7 +33,6 @@ private:
   bool in_lu = false;
   bool in_wblank = false;
   UString out_wblank;
-  map <UString, UString> var_out_wblank;
 
   bool inword = false;
 
diff --git a/apertium/transfer.cc b/apertium/transfer.cc
index 0cdb875..499f837 100644
--- a/apertium/transfer.cc
+++ b/apertium/transfer.cc
@@ -97,11 +97,11 @@ Transfer::evalCachedString(xmlNode *element)
   switch (ti.getType()) {
   case ti_clip_sl:
     if (checkIndex(element, ti.getPos(), lword)) {
-      if (gettingLemmaFromWord(ti.getContent()) && last_lword > 1) {
-        if(in_lu) {
+      if (gettingLemmaFromWord(ti.getContent())) {
+        if (in_lu && last_lword > 1) {
           out_wblank = combineWblanks(out_wblank, word[ti.getPos()]->getWblank());
         } else if (in_let_var) {
-          var_out_wblank[var_val] = combineWblanks(var_out_wblank[var_val], word[ti.getPos()]->getWblank());
+          let_wblank = combineWblanks(let_wblank, word[ti.getPos()]->getWblank());
         }
       }
 
@@ -111,11 +111,11 @@ Transfer::evalCachedString(xmlNode *element)
 
   case ti_clip_tl:
     if(checkIndex(element, ti.getPos(), lword)) {
-      if(gettingLemmaFromWord(ti.getContent()) && last_lword > 1) {
-        if(in_lu) {
+      if (gettingLemmaFromWord(ti.getContent())) {
+        if (in_lu && last_lword > 1) {
           out_wblank = combineWblanks(out_wblank, word[ti.getPos()]->getWblank());
         } else if(in_let_var) {
-          var_out_wblank[var_val] = combineWblanks(var_out_wblank[var_val], word[ti.getPos()]->getWblank());
+          let_wblank = combineWblanks(let_wblank, word[ti.getPos()]->getWblank());
         }
       }
 
@@ -172,7 +172,9 @@ Transfer::evalCachedString(xmlNode *element)
     break;
 
   case ti_var:
-    if(last_lword > 1) {
+    if (in_let_var) {
+      let_wblank = combineWblanks(let_wblank, var_out_wblank[ti.getContent()]);
+    } else if(last_lword > 1) {
       out_wblank = combineWblanks(out_wblank, var_out_wblank[ti.getContent()]);
     }
     return variables[ti.getContent()];
@@ -524,9 +526,10 @@ Transfer::processLet(xmlNode *localroot)
         in_let_var = true;
         var_val = ti.getContent();
 
-        var_out_wblank[var_val].clear();
+        let_wblank.clear();
 
         variables[ti.getContent()] = evalString(rightSide);
+        var_out_wblank[var_val] = let_wblank;
 
         in_let_var = false;
 
@@ -573,9 +576,10 @@ Transfer::processLet(xmlNode *localroot)
     UString const val = to_ustring((const char *) leftSide->properties->children->content);
 
     var_val = val;
-    var_out_wblank[var_val].clear();
+    let_wblank.clear();
 
     variables[val] = evalString(rightSide);
+    var_out_wblank[var_val] = let_wblank;
 
     in_let_var = false;
     evalStringCache[leftSide] = TransferInstr(ti_var, val, 0);
diff --git a/apertium/transfer.h b/apertium/transfer.h
index 1743aa1..5148cc0 100644
--- a/apertium/transfer.h
+++ b/apertium/transfer.h
@@ -33,7 +33,6 @@ private:
   bool in_lu = false;
   bool in_wblank = false;
   UString out_wblank;
-  map <UString, UString> var_out_wblank;
 
   FSTProcessor fstp;
   FSTProcessor extended;
diff --git a/apertium/transfer_base.cc b/apertium/transfer_base.cc
index 23e975f..a97f7aa 100644
--- a/apertium/transfer_base.cc
+++ b/apertium/transfer_base.cc
@@ -384,7 +384,9 @@ TransferBase::processAppend(xmlNode* localroot)
   for (auto i : children(localroot)) {
     in_let_var = true;
     var_val = name;
+    let_wblank.clear();
     variables[name].append(evalString(i));
+    var_out_wblank[name] = combineWblanks(var_out_wblank[name], let_wblank);
     in_let_var = false;
   }
 }
diff --git a/apertium/transfer_base.h b/apertium/transfer_base.h
index 47df8c2..a564198 100644
--- a/apertium/transfer_base.h
+++ b/apertium/transfer_base.h
@@ -56,6 +56,8 @@ protected:
   bool in_let_var = false;
   bool in_out = false;
   UString var_val;
+  map<UString, UString> var_out_wblank;
+  UString let_wblank;
   map<xmlNode *, TransferInstr> evalStringCache;
 
   bool null_flush = false;
-- 
2.43.0


From fe8f5e297bbe57b9af88a0631d110e4f888dae14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:27 +0000
Subject: [PATCH 024/115] fix: the default sense comes first among three or
 more translations

---
 apertium/transfer_mult.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apertium/transfer_mult.cc b/apertium/transfer_mult.cc
index b28c4f0..66a65e2 100644
--- a/apertium/transfer_mult.cc
+++ b/apertium/transfer_mult.cc
@@ -330,7 +330,7 @@ TransferMult::acceptions(UString str)
      {
        UString new_word = str.substr(low, i-low);
 
-       if(result.size() > 1 && isDefaultWord(new_word))
+       if(result.size() > 0 && isDefaultWord(new_word))
        {
 	 result.push_back(result[0]);
 	 result[0] = new_word;
-- 
2.43.0


From a71de0b84fcf50dbc1f6c57730f5e1cf309130b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:46 +0000
Subject: [PATCH 025/115] fix: a blank that never ends must not hang the
 multiple-translation tool

---
 apertium/transfer_mult.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apertium/transfer_mult.cc b/apertium/transfer_mult.cc
index 66a65e2..3c324af 100644
--- a/apertium/transfer_mult.cc
+++ b/apertium/transfer_mult.cc
@@ -171,6 +171,10 @@ TransferMult::readToken(InputFile& in)
       while(true)
       {
         UChar32 val2 = in.get();
+	if(in.eof())
+	{
+	  return input_buffer.add(TransferToken(content, tt_eof));
+	}
 	if(val2 == '\\')
 	{
 	  content += '\\';
-- 
2.43.0


From 9ffe714f54ede50318e37b78f2ef77df4994fe2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:46 +0000
Subject: [PATCH 026/115] fix: an unseen ambiguity class must not change the
 tagger's open class

---
 apertium/tagger_utils.cc | 8 ++++----
 apertium/tagger_utils.h  | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/apertium/tagger_utils.cc b/apertium/tagger_utils.cc
index 3da0415..cbf1ece 100644
--- a/apertium/tagger_utils.cc
+++ b/apertium/tagger_utils.cc
@@ -145,9 +145,9 @@ tagger_utils::add_neccesary_ambg_classes(TaggerData &td) {
   }
 }
 
-set<TTag> &
+set<TTag>
 tagger_utils::find_similar_ambiguity_class(TaggerData &td, set<TTag> &c) {
-  set<TTag> &ret = td.getOpenClass();
+  set<TTag> ret = td.getOpenClass();
   Collection &output = td.getOutput();
 
   for (int k=0; k<output.size(); k++) {
@@ -192,7 +192,7 @@ static void _warn_absent_ambiguity_class(TaggerWord &word) {
   cerr << "New ambiguity class: " << word.get_string_tags() << "\n";
 }
 
-set<TTag> &
+set<TTag>
 tagger_utils::require_similar_ambiguity_class(TaggerData &td, set<TTag> &tags, TaggerWord &word, bool warn) {
   if (td.getOutput().has_not(tags)) {
     if (warn) {
@@ -203,7 +203,7 @@ tagger_utils::require_similar_ambiguity_class(TaggerData &td, set<TTag> &tags, T
   return tags;
 }
 
-set<TTag> &
+set<TTag>
 tagger_utils::require_similar_ambiguity_class(TaggerData &td, set<TTag> &tags) {
   if (td.getOutput().has_not(tags)) {
     return find_similar_ambiguity_class(td, tags);
diff --git a/apertium/tagger_utils.h b/apertium/tagger_utils.h
index 31b6458..2c3a1df 100644
--- a/apertium/tagger_utils.h
+++ b/apertium/tagger_utils.h
@@ -92,15 +92,15 @@ void count_ambg_class_freq(Collection &output, vector<unsigned int> &acc,
 *  @param c set of tags (ambiguity class)
 *  @return a known ambiguity class
 */
-set<TTag> & find_similar_ambiguity_class(TaggerData &td, set<TTag> &c);
+set<TTag> find_similar_ambiguity_class(TaggerData &td, set<TTag> &c);
 
 /** Dies with an error message if the tags aren't in the tagger data */
 void require_ambiguity_class(TaggerData &td, set<TTag> &tags, TaggerWord &word, int nw);
 
 /** As with find_similar_ambiguity_class, but returns tags if it's already fine
  * & prints a warning if warn */
-set<TTag> & require_similar_ambiguity_class(TaggerData &td, set<TTag> &tags, TaggerWord &word, bool warn);
-set<TTag> & require_similar_ambiguity_class(TaggerData &td, set<TTag> &tags);
+set<TTag> require_similar_ambiguity_class(TaggerData &td, set<TTag> &tags, TaggerWord &word, bool warn);
+set<TTag> require_similar_ambiguity_class(TaggerData &td, set<TTag> &tags);
 
 /** Just prints a warning if warn */
 void warn_absent_ambiguity_class(TaggerData &td, set<TTag> &tags, TaggerWord &word, bool warn);
-- 
2.43.0


From 7f28393900d45666167157d1a72bd7d2ea421b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:55 +0000
Subject: [PATCH 027/115] fix: discard rules must reach the model

---
 apertium/tagger_data.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apertium/tagger_data.cc b/apertium/tagger_data.cc
index 0eb93ec..ec83d9b 100644
--- a/apertium/tagger_data.cc
+++ b/apertium/tagger_data.cc
@@ -31,6 +31,7 @@ TaggerData::copy(TaggerData const &o)
   constants = o.constants;
   output = o.output;
   plist = o.plist;
+  discard = o.discard;
 }
 
 TaggerData::TaggerData()
-- 
2.43.0


From fac2ed1cb81f882b4510579102d6140d26d98275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:05 +0000
Subject: [PATCH 028/115] fix: discard rules must drop exactly the analyses
 they match

---
 apertium/tagger_word.cc | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/apertium/tagger_word.cc b/apertium/tagger_word.cc
index cb86bdc..f79e0ad 100644
--- a/apertium/tagger_word.cc
+++ b/apertium/tagger_word.cc
@@ -344,31 +344,18 @@ TaggerWord::discardOnAmbiguity(UString const &tags)
 {
   if(isAmbiguous())
   {
-    map<TTag, UString>::iterator it = lexical_forms.begin(),
-                              limit = lexical_forms.end();
-    set<TTag> newsettag;
-    while(it != limit)
+    map<TTag, UString>::iterator it = lexical_forms.begin();
+    while(it != lexical_forms.end() && lexical_forms.size() > 1)
     {
       if(match(it->second, tags))
       {
-        lexical_forms.erase(it);
-        it = lexical_forms.begin();
+        this->tags.erase(it->first);
+        it = lexical_forms.erase(it);
       }
       else
       {
-        newsettag.insert(it->first);
+        it++;
       }
-
-      if(lexical_forms.size() == 1)
-      {
-        newsettag.insert(lexical_forms.begin()->first);
-        break;
-      }
-      it++;
-    }
-    if(tags.size() != newsettag.size())
-    {
-      this->tags = newsettag;
     }
   }
 }
-- 
2.43.0


From 592b3495353c13eb87249253ab8ebe91a060ec71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:55 +0000
Subject: [PATCH 029/115] fix: the HMM tagger must not underflow on long runs
 of ambiguous words

---
 apertium/hmm.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/apertium/hmm.cc b/apertium/hmm.cc
index 3dd9414..fd8770f 100644
--- a/apertium/hmm.cc
+++ b/apertium/hmm.cc
@@ -26,6 +26,7 @@
 #include <apertium/unlocked_cstdio.h>
 #include <lttoolbox/compression.h>
 
+#include <cmath>
 #include <stdio.h>
 #include <unistd.h>
 #include <vector>
@@ -731,6 +732,18 @@ HMM::tagger(MorphoStream &morpho_stream, UFILE* Output) {
       }
     }
 
+    //Long runs of ambiguous words: keep the probabilities away from underflow.
+    //Scaling by a power of two is exact and does not change which one is best.
+    double max_alpha = 0;
+    for (itag=tags.begin(); itag!=tags.end(); itag++)
+      max_alpha = max(max_alpha, alpha[nwpend%2][*itag]);
+    if (max_alpha > 0 && max_alpha < 1e-100) {
+      int exponent;
+      frexp(max_alpha, &exponent);
+      for (itag=tags.begin(); itag!=tags.end(); itag++)
+        alpha[nwpend%2][*itag] = ldexp(alpha[nwpend%2][*itag], -exponent);
+    }
+
     //Backtracking
     if (tags.size() == 1) {
       tag = *tags.begin();
-- 
2.43.0


From 8823e811e5d74896cd9a2e529d799c4b640642a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:50 +0000
Subject: [PATCH 030/115] fix: supervised training must not crash when the
 untagged text is shorter

---
 apertium/hmm.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/apertium/hmm.cc b/apertium/hmm.cc
index fd8770f..2b125b1 100644
--- a/apertium/hmm.cc
+++ b/apertium/hmm.cc
@@ -292,6 +292,11 @@ HMM::init_probabilities_from_tagged_text(MorphoStream &stream_tagged,
   word_tagged = stream_tagged.get_next_word();
   word_untagged = stream_untagged.get_next_word();
   while(word_tagged) {
+    if (word_untagged==NULL) {
+      cerr<<"word_untagged==NULL\n";
+      exit(1);
+    }
+
     cerr<<*word_tagged;
     cerr<<" -- "<<*word_untagged<<"\n";
 
@@ -307,11 +312,6 @@ HMM::init_probabilities_from_tagged_text(MorphoStream &stream_tagged,
 
     tag2 = tag1;
 
-    if (word_untagged==NULL) {
-      cerr<<"word_untagged==NULL\n";
-      exit(1);
-    }
-
     if (word_tagged->get_tags().size()==0) // Unknown word
       tag1 = -1;
     else if (word_tagged->get_tags().size()>1) // Ambiguous word
-- 
2.43.0


From 5b31a53383c355bca971836cff75931c5a91eb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:50 +0000
Subject: [PATCH 031/115] fix: retraining must start from the model instead of
 wiping it

---
 apertium/tagger.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/apertium/tagger.cc b/apertium/tagger.cc
index 8022c0f..7127273 100644
--- a/apertium/tagger.cc
+++ b/apertium/tagger.cc
@@ -559,7 +559,10 @@ MorphoStream* apertium_tagger::setup_untagged_morpho_stream(
     UFILE* *UntaggedCorpus) {
   *UntaggedCorpus = try_open_file_utf8("UNTAGGED_CORPUS", UntaggedFn, "r");
 
-  FILE_Tagger_.read_dictionary(DicFn);
+  // retraining keeps the model's ambiguity classes and probabilities
+  if (DicFn != NULL) {
+    FILE_Tagger_.read_dictionary(DicFn);
+  }
 
   return new FileMorphoStream(UntaggedFn, true, &FILE_Tagger_.get_tagger_data());
 }
-- 
2.43.0


From 9e5a7b0a53b7c9b026d8dd9f3f7c2a08cbc565e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:27 +0000
Subject: [PATCH 032/115] fix: the sliding-window tagger must apply an enforce
 rule to both pairs of a window

---
 apertium/lswpost.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apertium/lswpost.cc b/apertium/lswpost.cc
index d93c9bd..5084ab5 100644
--- a/apertium/lswpost.cc
+++ b/apertium/lswpost.cc
@@ -211,7 +211,8 @@ bool LSWPoST::is_valid_seq(TTag left, TTag mid, TTag right) {
       if (!found) {
         return false;
       }
-    } else if (mid == enforce_rules[r].tagi) {
+    }
+    if (mid == enforce_rules[r].tagi) {
       bool found = false;
       for (size_t j = 0; j < enforce_rules[r].tagsj.size(); ++j) {
         if (enforce_rules[r].tagsj[j] == right) {
-- 
2.43.0


From 37e3dda8ac27739f55442cdbd626dc8e6a919df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:28 +0000
Subject: [PATCH 033/115] fix: the sliding-window tagger must keep trailing
 blanks, flush at NUL and treat unknown words as open class

---
 apertium/lswpost.cc | 64 ++++++++++++++++++++++++++++-----------------
 1 file changed, 40 insertions(+), 24 deletions(-)

diff --git a/apertium/lswpost.cc b/apertium/lswpost.cc
index 5084ab5..7cbd4e7 100644
--- a/apertium/lswpost.cc
+++ b/apertium/lswpost.cc
@@ -346,22 +346,50 @@ LSWPoST::tagger(MorphoStream &morpho_stream, UFILE* Output) {
 
   warn_absent_ambiguity_class(tdlsw, tags_left, *word_left, TheFlags.getDebug());
   word_mid = morpho_stream.get_next_word(); // word mid
-  word_mid->set_show_sf(TheFlags.getShowSuperficial());
-  tags_mid = word_mid->get_tags();          // tags mid
-
-  warn_absent_ambiguity_class(tdlsw, tags_mid, *word_mid, TheFlags.getDebug());
-  if (morpho_stream.getEndOfFile()) {
-    delete word_left;
-    delete word_mid;
-    return;
-  }
-  word_right = morpho_stream.get_next_word(); // word_right
-  word_right->set_show_sf(TheFlags.getShowSuperficial());
 
   UString micad;
+  bool first = true; // at the first word of a text
+
+  while (word_mid) {
+    word_mid->set_show_sf(TheFlags.getShowSuperficial());
+
+    if (morpho_stream.getEndOfFile()) {
+      // word_mid only holds what comes before the end of the text
+      TTag eof_tag = (tdlsw.getTagIndex())["TAG_kEOF"_u];
+      micad = word_mid->get_lexical_form(eof_tag, eof_tag);
+      write(micad, Output);
+      if (TheFlags.getNullFlush()) {
+        u_fputc('\0', Output);
+      }
+      u_fflush(Output);
+      morpho_stream.setEndOfFile(false);
+
+      // the next text starts afresh
+      tags_left.clear();
+      tags_left.insert(eos);
+      first = true;
+      delete word_mid;
+      word_mid = morpho_stream.get_next_word();
+      continue;
+    }
 
-  while (word_right) {
+    tags_mid = word_mid->get_tags();          // tags mid
+    if (tags_mid.size()==0) { //This is an unknown word
+      tags_mid = tdlsw.getOpenClass();
+    }
+    if (first) {
+      warn_absent_ambiguity_class(tdlsw, tags_mid, *word_mid, TheFlags.getDebug());
+      first = false;
+    }
+
+    word_right = morpho_stream.get_next_word(); // word right
+    if (word_right == NULL) {
+      break;
+    }
     tags_right = word_right->get_tags();
+    if (tags_right.size()==0) { //This is an unknown word
+      tags_right = tdlsw.getOpenClass();
+    }
     warn_absent_ambiguity_class(tdlsw, tags_right, *word_right, TheFlags.getDebug());
 
     set<TTag> *tags_avail;
@@ -383,23 +411,11 @@ LSWPoST::tagger(MorphoStream &morpho_stream, UFILE* Output) {
 
     micad = word_mid->get_lexical_form(tag_max, (tdlsw.getTagIndex())["TAG_kEOF"_u]);
     write(micad, Output);
-    if (morpho_stream.getEndOfFile()) {
-      if (TheFlags.getNullFlush()) {
-        u_fputc('\0', Output);
-      }
-      u_fflush(Output);
-      morpho_stream.setEndOfFile(false);
-    }
 
     delete word_left;
     word_left = word_mid;
     tags_left = tags_mid;
     word_mid = word_right;
-    tags_mid = tags_right;
-    word_right = morpho_stream.get_next_word();
-    if (word_right != NULL) {
-      word_right->set_show_sf(TheFlags.getShowSuperficial());
-    }
   }
   delete word_left;
   delete word_mid;
-- 
2.43.0


From d0f0b7e6778799e504db2d735d4f0df2b18e05cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:49 +0000
Subject: [PATCH 034/115] fix: the unigram taggers must write the NUL that ends
 a text

---
 apertium/unigram_tagger.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apertium/unigram_tagger.cc b/apertium/unigram_tagger.cc
index 8fb543b..7b9bb2c 100644
--- a/apertium/unigram_tagger.cc
+++ b/apertium/unigram_tagger.cc
@@ -250,7 +250,7 @@ UnigramTagger::tag(Stream &Input, std::ostream &Output)
       if (!Input.flush_())
         break;
 
-      Output << std::flush;
+      Output << '\0' << std::flush;
       continue;
     }
     if(TheFlags.getDebug())
@@ -261,7 +261,7 @@ UnigramTagger::tag(Stream &Input, std::ostream &Output)
     tag(*StreamedType_.TheLexicalUnit, Output);
 
     if (Input.flush_())
-      Output << std::flush;
+      Output << '\0' << std::flush;
   }
 }
 
-- 
2.43.0


From f14399e26765a13bb163b0e15f34e2f7759d4b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:05 +0000
Subject: [PATCH 035/115] fix: the perceptron tagger must end a text at a NUL
 right after a lexical unit

---
 apertium/sentence_stream.cc | 17 ++++++-----------
 apertium/sentence_stream.h  |  4 ----
 2 files changed, 6 insertions(+), 15 deletions(-)

diff --git a/apertium/sentence_stream.cc b/apertium/sentence_stream.cc
index 79b2798..e1e8269 100644
--- a/apertium/sentence_stream.cc
+++ b/apertium/sentence_stream.cc
@@ -39,30 +39,28 @@ void SentenceTagger::tag(Stream &in, std::ostream &out, bool sent_seg) {
   while (true) {
     StreamedType token = in.get();
     full_sent.push_back(token);
-    flushes.push_back(in.flush_());
 
     if (token.TheLexicalUnit) {
       lexical_sent.push_back(token);
-      if (isSentenceEnd(token, in, sent_seg)) {
+      if (in.flush_() || isSentenceEnd(token, in, sent_seg)) {
         tagAndPutSentence(out);
       }
     } else {
       tagAndPutSentence(out);
-      if (in.flush_()) {
-        out << '\0';
-        out.flush();
-        clearBuffers();
-      } else {
+      if (!in.flush_()) {
         break;
       }
     }
+    if (in.flush_()) {
+      out << '\0';
+      out.flush();
+    }
   }
 }
 
 void SentenceTagger::clearBuffers() const {
   full_sent.clear();
   lexical_sent.clear();
-  flushes.clear();
 }
 
 void SentenceTagger::tagAndPutSentence(std::ostream &out) {
@@ -73,9 +71,6 @@ void SentenceTagger::tagAndPutSentence(std::ostream &out) {
     StreamedType &token = full_sent[full_idx];
     out << token.TheString;
     if (!token.TheLexicalUnit) {
-      if (flushes[full_idx]) {
-        out.flush();
-      }
       continue;
     }
     outputLexicalUnit(*token.TheLexicalUnit, *(ts_it++), out);
diff --git a/apertium/sentence_stream.h b/apertium/sentence_stream.h
index 133f6ba..ea54b44 100644
--- a/apertium/sentence_stream.h
+++ b/apertium/sentence_stream.h
@@ -30,12 +30,8 @@ namespace SentenceStream {
   private:
     void clearBuffers() const;
     void tagAndPutSentence(std::ostream &out);
-    void putTaggedSent(
-      std::ostream &out, TaggedSentence &tagged_sent, Sentence &full_sent,
-      std::vector<bool> &flushes) const;
     mutable Sentence full_sent;
     mutable Sentence lexical_sent;
-    mutable std::vector<bool> flushes;
   };
 
   class TrainingCorpus {
-- 
2.43.0


From 607a86837850a82acf3db2fe76db8f059ed75123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:16 +0000
Subject: [PATCH 036/115] fix: the unigram and perceptron taggers must stop at
 a truncated lexical unit

---
 apertium/morpheme.cc | 6 ++++++
 apertium/stream.cc   | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/apertium/morpheme.cc b/apertium/morpheme.cc
index 7a78c36..6a98e85 100644
--- a/apertium/morpheme.cc
+++ b/apertium/morpheme.cc
@@ -67,6 +67,9 @@ Morpheme::read(InputFile& in)
 {
   UChar32 c = in.get();
   while (c != '<' && c != '$' && c != '/' && c != '\0') {
+    if (in.eof()) {
+      throw Exception::Stream::UnexpectedEndOfFile("Unterminated lexical unit");
+    }
     TheLemma += c;
     if (c == '\\') {
       if (in.eof() || in.peek() == '\0') {
@@ -92,6 +95,9 @@ Morpheme::read(InputFile& in)
   }
   if (c == '#') {
     while (c != '<' && c != '$' && c != '/' && c != '\0' && c != '+') {
+      if (in.eof()) {
+        throw Exception::Stream::UnexpectedEndOfFile("Unterminated lexical unit");
+      }
       TheLemma += c;
       if (c == '\\') {
         if (in.eof() || in.peek() == '\0') {
diff --git a/apertium/stream.cc b/apertium/stream.cc
index 07e3652..3e2c873 100644
--- a/apertium/stream.cc
+++ b/apertium/stream.cc
@@ -40,6 +40,9 @@ StreamedType Stream::get() {
     TheStreamedType.TheLexicalUnit = LexicalUnit();
     UChar32 c = TheCharacterStream.get();
     while (c != '/' && c != '$') {
+      if (TheCharacterStream.eof() || c == '\0') {
+        throw Exception::Stream::UnexpectedEndOfFile("unterminated lexical unit");
+      }
       TheStreamedType.TheLexicalUnit->TheSurfaceForm += c;
       if (c == '\\') {
         c = TheCharacterStream.get();
-- 
2.43.0


From 724780d132e49b69f10bc0469423a7a7a945f57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:33 +0000
Subject: [PATCH 037/115] fix: unigram and perceptron models must keep
 non-ASCII lemmas and tags

---
 apertium/deserialiser.h                    | 15 +++++++++++++++
 apertium/tagger_data_percep_coarse_tags.cc |  2 +-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/apertium/deserialiser.h b/apertium/deserialiser.h
index e0a4136..0d40e2d 100644
--- a/apertium/deserialiser.h
+++ b/apertium/deserialiser.h
@@ -36,6 +36,12 @@
 
 using namespace Apertium;
 
+// lttoolbox reads each code unit of a string as a char
+template <> class Deserialiser<UString> {
+public:
+  inline static UString deserialise(std::istream &Stream_);
+};
+
 template <> class Deserialiser<a> {
 public:
   inline static a deserialise(std::istream &Stream_);
@@ -61,6 +67,15 @@ public:
   inline static Morpheme deserialise(std::istream &Stream_);
 };
 
+UString Deserialiser<UString>::deserialise(std::istream &Stream_) {
+  uint64_t size = Deserialiser<uint64_t>::deserialise(Stream_);
+  UString s;
+  for (; size != 0; --size) {
+    s.push_back(int_deserialise<uint16_t>(Stream_));
+  }
+  return s;
+}
+
 a Deserialiser<a>::deserialise(std::istream &Stream_) {
   a StreamedType_;
   StreamedType_.TheTags = Deserialiser<std::vector<UString> >::deserialise(Stream_);
diff --git a/apertium/tagger_data_percep_coarse_tags.cc b/apertium/tagger_data_percep_coarse_tags.cc
index 95da0a6..f167752 100644
--- a/apertium/tagger_data_percep_coarse_tags.cc
+++ b/apertium/tagger_data_percep_coarse_tags.cc
@@ -1,6 +1,6 @@
 #include <apertium/tagger_data_percep_coarse_tags.h>
 #include <lttoolbox/serialiser.h>
-#include <lttoolbox/deserialiser.h>
+#include <apertium/deserialiser.h>
 #include <lttoolbox/match_state.h>
 #include <iostream>
 
-- 
2.43.0


From ff3361e039bb454e95e586ff0271a2bc0f775975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:46 +0000
Subject: [PATCH 038/115] fix: apertium-tagger -f must write the surface form
 of a multiword once

---
 apertium/tagger_word.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/apertium/tagger_word.cc b/apertium/tagger_word.cc
index f79e0ad..8d7329e 100644
--- a/apertium/tagger_word.cc
+++ b/apertium/tagger_word.cc
@@ -222,17 +222,18 @@ TaggerWord::get_all_chosen_tag_first(TTag &t, int const TAG_kEOF) {
     } else {
       ret += '^';
     }
-  }
 
-  ret.append(superficial_form);
+    ret.append(superficial_form);
+    ret += '/';
+  }
 
   if (lexical_forms.size()==0) { // This is an UNKNOWN WORD
-    ret += "/*"_u;
+    ret += '*';
     ret.append(superficial_form);
   } else {
-    ret+="/"_u;
     ret.append(lexical_forms[t]);
-    if (lexical_forms.size()>1) {
+    // the parts of a multiword cannot list their own alternatives
+    if (lexical_forms.size()>1 && !plus_cut && !previous_plus_cut) {
       for (auto& it : tags) {
         if (it != t) {
           ret += '/';
-- 
2.43.0


From c52b1042d9ca234f350dae4f3f737996eb059055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:36 +0000
Subject: [PATCH 039/115] fix: a new sliding-window model must start with
 cleared parameters

---
 apertium/tagger_data_lsw.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apertium/tagger_data_lsw.cc b/apertium/tagger_data_lsw.cc
index d8a521f..5c78601 100644
--- a/apertium/tagger_data_lsw.cc
+++ b/apertium/tagger_data_lsw.cc
@@ -86,7 +86,7 @@ TaggerDataLSW::setProbabilities(int const myN, double ***myD) {
      for (int i = 0; i < N; ++i) {
        d[i] = new double * [N];
        for (int j = 0; j < N; ++j) {
-           d[i][j] = new double [N];
+           d[i][j] = new double [N]();
            if (myD != NULL) {
               for (int k = 0; k < N; ++k) {
                 d[i][j][k] = myD[i][j][k];
-- 
2.43.0


From 11190470c1ec670b4f148c8c3ecc2143e40b96b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:10 +0000
Subject: [PATCH 040/115] fix: apertium-tagger -g must not take an HMM model
 for a perceptron model

---
 apertium/perceptron_tagger.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/apertium/perceptron_tagger.cc b/apertium/perceptron_tagger.cc
index 01f800a..a6b1f56 100644
--- a/apertium/perceptron_tagger.cc
+++ b/apertium/perceptron_tagger.cc
@@ -2,6 +2,7 @@
 
 #include <apertium/mtx_reader.h>
 #include <apertium/exception.h>
+#include <lttoolbox/exception.h>
 #include <algorithm>
 #include <map>
 #include <set>
@@ -277,6 +278,10 @@ void PerceptronTagger::deserialise(std::istream &serialised)
 {
   spec.deserialise(serialised);
   weights.deserialise(serialised);
+  if (serialised.peek() != std::istream::traits_type::eof()) {
+    // another kind of model that happened to start like this one
+    throw DeserialisationException("unexpected data after the weights");
+  }
 };
 
 template <typename T> void
-- 
2.43.0


From afc1a647e9d88efc5b50ddb41eba40a1690a3c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:50 +0000
Subject: [PATCH 041/115] fix: the apertium script must honour -u for unknown
 formats too

---
 apertium/apertium-header.sh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apertium/apertium-header.sh b/apertium/apertium-header.sh
index 78c31f3..4628781 100644
--- a/apertium/apertium-header.sh
+++ b/apertium/apertium-header.sh
@@ -739,7 +739,9 @@ case "$FORMAT" in
   *) # Por defecto asumimos txt
     echo "$0 WARNING: Unknown format ${FORMAT}, treating as 'txt'" >&2
     FORMAT="txt"
-    OPTION="-g"
+    if [[ "$UWORDS" = "no" ]]; then OPTION="-n";
+    else OPTION="-g";
+    fi;
     ;;
 esac
 
-- 
2.43.0


From f68b044f744de64d6efb94885dafdedc5aeddd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:55 +0000
Subject: [PATCH 042/115] fix: the apertium script must know the format wxmlu

---
 apertium/apertium-header.sh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apertium/apertium-header.sh b/apertium/apertium-header.sh
index 4628781..ab6a221 100644
--- a/apertium/apertium-header.sh
+++ b/apertium/apertium-header.sh
@@ -731,6 +731,7 @@ case "$FORMAT" in
     ;;
 
   wxmlu)
+    FORMAT="wxml";
     OPTION="-n";
     ;;
 
-- 
2.43.0


From f5e64ca5c785a8337761a59c49808b1f70b08d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:59 +0000
Subject: [PATCH 043/115] fix: the apertium script must use the translation
 direction for -m without -o

---
 apertium/apertium-header.sh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apertium/apertium-header.sh b/apertium/apertium-header.sh
index ab6a221..ea9a64e 100644
--- a/apertium/apertium-header.sh
+++ b/apertium/apertium-header.sh
@@ -563,6 +563,10 @@ elif [[ ! -r "$INFILE" ]]; then
   message >&2
 fi
 
+if [[ -z $TRANSLATION_MEMORY_DIRECTION ]]; then
+  TRANSLATION_MEMORY_DIRECTION=$PAIR
+fi
+
 if [[ -n $TRANSLATION_MEMORY_FILE ]]; then
   if ! lt-tmxcomp "$TRANSLATION_MEMORY_DIRECTION" "$TRANSLATION_MEMORY_FILE" "$TMCOMPFILE" >/dev/null; then
     echo "Error: Cannot compile TM '$TRANSLATION_MEMORY_FILE'" >&2
-- 
2.43.0


From 15b877142a41c381b309743f4f047a9b01d3a403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:04 +0000
Subject: [PATCH 044/115] fix: line mode must not lose the period at the end of
 a line

---
 apertium/apertium-header.sh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apertium/apertium-header.sh b/apertium/apertium-header.sh
index ea9a64e..4198c55 100644
--- a/apertium/apertium-header.sh
+++ b/apertium/apertium-header.sh
@@ -458,8 +458,10 @@ translate_line () {
   fi
   # TODO: lt-proc inserts spaces before parts of mwe's that cross
   # lines, even though the parts get output as individual lu's
+  # (no [] after a period: apertium-retxt takes ".[]" for one that
+  # apertium-destxt added, and removes it)
   apertium-destxt -n "$INFILE" | \
-      sed 's/[[:space:]]*\[$/[][/' |\
+      sed '/\.[[:space:]]*\[$/!s/[[:space:]]*\[$/[][/' |\
       if [[ -z "$TRANSLATION_MEMORY_FILE" ]]; then
           cat
       else
-- 
2.43.0


From fe0a03dada55d605d7ec08ba3e8af7d61033e32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:08 +0000
Subject: [PATCH 045/115] fix: sheets embedded in docx and pptx files must be
 translated, not emptied

---
 apertium/apertium-header.sh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/apertium/apertium-header.sh b/apertium/apertium-header.sh
index 4198c55..00bcdd2 100644
--- a/apertium/apertium-header.sh
+++ b/apertium/apertium-header.sh
@@ -281,7 +281,7 @@ translate_docx () {
   fi
   TMP_OUT_FILE=$(mktemp "$TMPDIR/apertium.XXXXXXXX")
 
-  if [[ "$UWORDS" = "no" ]]; then
+  if [[ "$OPTION" = "-n" ]]; then
     OPCIONU="-u";
   else OPCIONU="";
   fi
@@ -290,7 +290,7 @@ translate_docx () {
 
   find "$INPUT_TMPDIR" -name "*.xlsx" -print0 | while read -r -d '' i; do
     LOCALTEMP=$(mktemp "$TMPDIR/apertium.XXXXXXXX");
-    apertium -f xlsx -d "$DATADIR" "$OPCIONU" "$PAIR" <"$i" >"$LOCALTEMP";
+    apertium -f xlsx -d "$DATADIR" ${OPCIONU:+"$OPCIONU"} "$PAIR" <"$i" >"$LOCALTEMP";
     cp "$LOCALTEMP" "$i";
     rm "$LOCALTEMP";
   done;
@@ -338,7 +338,7 @@ translate_pptx () {
   fi
   TMP_OUT_FILE=$(mktemp "$TMPDIR/apertium.XXXXXXXX")
 
-  if [[ "$UWORDS" = "no" ]]; then
+  if [[ "$OPTION" = "-n" ]]; then
     OPCIONU="-u";
   else OPCIONU="";
   fi
@@ -347,7 +347,7 @@ translate_pptx () {
 
   find "$INPUT_TMPDIR" -name "*.xlsx" -print0 | while read -r -d '' i; do
     LOCALTEMP=$(mktemp "$TMPDIR/apertium.XXXXXXXX")
-    apertium -f xlsx -d "$DATADIR" "$OPCIONU" "$PAIR" <"$i" >"$LOCALTEMP";
+    apertium -f xlsx -d "$DATADIR" ${OPCIONU:+"$OPCIONU"} "$PAIR" <"$i" >"$LOCALTEMP";
     cp "$LOCALTEMP" "$i"
     rm "$LOCALTEMP"
   done;
-- 
2.43.0


From a5089b4df390681e755e43ebfb5c99b2cad0455a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:13 +0000
Subject: [PATCH 046/115] fix: the zipped formats must be readable from
 standard input

---
 apertium/apertium-header.sh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/apertium/apertium-header.sh b/apertium/apertium-header.sh
index 00bcdd2..6853e7d 100644
--- a/apertium/apertium-header.sh
+++ b/apertium/apertium-header.sh
@@ -230,7 +230,7 @@ translate_odt () {
 
   test_zip
 
-  if [[ -z "$INFILE" ]]; then
+  if [[ -z "$INFILE" || "$INFILE" = /dev/stdin ]]; then
     INFILE=$(mktemp "$TMPDIR/apertium.XXXXXXXX")
     cat > "$INFILE"
     BORRAFICHERO="true"
@@ -274,7 +274,7 @@ translate_docx () {
 
   test_zip
 
-  if [[ -z "$INFILE" ]]; then
+  if [[ -z "$INFILE" || "$INFILE" = /dev/stdin ]]; then
     INFILE=$(mktemp "$TMPDIR/apertium.XXXXXXXX")
     cat > "$INFILE"
     BORRAFICHERO="true"
@@ -331,7 +331,7 @@ translate_pptx () {
 
   test_zip
 
-  if [[ -z "$INFILE" ]]; then
+  if [[ -z "$INFILE" || "$INFILE" = /dev/stdin ]]; then
     INFILE=$(mktemp "$TMPDIR/apertium.XXXXXXXX")
     cat > "$INFILE"
     BORRAFICHERO="true"
@@ -382,7 +382,7 @@ translate_xlsx () {
 
   test_zip
 
-  if [[ -z "$INFILE" ]]; then
+  if [[ -z "$INFILE" || "$INFILE" = /dev/stdin ]]; then
     INFILE=$(mktemp "$TMPDIR/apertium.XXXXXXXX")
     cat > "$INFILE"
     BORRAFICHERO="true"
-- 
2.43.0


From 6e5e37dfccc52097317c8edec145196788c64e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:23 +0000
Subject: [PATCH 047/115] fix: apertium-gen-modes must quote apostrophes in
 paths

---
 apertium/gen_modes.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/apertium/gen_modes.cc b/apertium/gen_modes.cc
index 450936c..d7eeace 100644
--- a/apertium/gen_modes.cc
+++ b/apertium/gen_modes.cc
@@ -267,7 +267,15 @@ void gen_mode(pipeline& mode, fs::path& file_dir, fs::path& write_dir)
     f << p.command;
     for (auto& arg : p.arguments) {
       if (arg.second) {
-        f << " '" << fs::absolute(file_dir / arg.first).string().c_str() << "'";
+        f << " '";
+        for (auto c : fs::absolute(file_dir / arg.first).string()) {
+          if (c == '\'') {
+            f << "'\\''";
+          } else {
+            f << c;
+          }
+        }
+        f << "'";
       } else {
         f << " " << arg.first;
       }
-- 
2.43.0


From 7146e3a0880306b2c2948ba445de2d524579a1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:34 +0000
Subject: [PATCH 048/115] fix: untrimmed debug modes must not get the tracing
 option twice

---
 apertium/gen_modes.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apertium/gen_modes.cc b/apertium/gen_modes.cc
index d7eeace..29acd85 100644
--- a/apertium/gen_modes.cc
+++ b/apertium/gen_modes.cc
@@ -232,6 +232,7 @@ void gen_debug_modes(map<string, pipeline>& modes)
         untrimmed.debug = false;
 
         if (modes.find(untrimmed.name) == modes.end()) {
+          // these already have the tracing option
           untrimmed.steps = debug.steps;
           for (auto& step : untrimmed.steps) {
             for (auto& str : step.arguments) {
@@ -241,7 +242,6 @@ void gen_debug_modes(map<string, pipeline>& modes)
               }
             }
           }
-          set_trace_opt(untrimmed);
           modes[untrimmed.name] = untrimmed;
         }
       }
-- 
2.43.0


From 68921b324ce6b2e7f2f02d863c33f43516d69b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:38 +0000
Subject: [PATCH 049/115] fix: apertium-unformat must look for slides in the
 unpacked document

---
 apertium/apertium-unformat-header.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apertium/apertium-unformat-header.sh b/apertium/apertium-unformat-header.sh
index d9408b8..bac9380 100644
--- a/apertium/apertium-unformat-header.sh
+++ b/apertium/apertium-unformat-header.sh
@@ -120,7 +120,7 @@ unformat_pptx ()
      rm "$LOCALTEMP"
   done;
 
-  find . -path '**/slides/slide*.xml' |\
+  find "$INPUT_TMPDIR" -path '**/slides/slide*.xml' |\
   awk '{printf "<file name=\"" $0 "\"/>"; PART = $0; while(getline < PART) printf(" %s", $0); printf("\n");}' |\
   apertium-despptx >"$SALIDA"
   rm -Rf "$INPUT_TMPDIR"
-- 
2.43.0


From cf9d178c29dd1b36dd3fe39f09c65311b8a05e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:07 +0000
Subject: [PATCH 050/115] fix: apertium-tmxbuild must write the units that have
 both segments

---
 apertium/tmx_builder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apertium/tmx_builder.cc b/apertium/tmx_builder.cc
index c62204d..4b74285 100644
--- a/apertium/tmx_builder.cc
+++ b/apertium/tmx_builder.cc
@@ -759,7 +759,7 @@ TMXBuilder::printTU(UFILE* output, UString const &tu1, UString const &tu2) const
   UString tu1_filtered = filter(tu1);
   UString tu2_filtered = filter(tu2);
 
-  if (tu1_filtered.empty() && !tu2_filtered.empty()) {
+  if (!tu1_filtered.empty() && !tu2_filtered.empty()) {
     u_fprintf(output, "<tu>\n  <tuv xml:lang=\"%S\"><seg>%S</seg></tuv>\n",
               lang1.c_str(), tu1_filtered.c_str());
 
-- 
2.43.0


From 70892732b1aacd08d8d4d49040909c183f2d97ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:18 +0000
Subject: [PATCH 051/115] fix: apertium-tmxbuild must see letters outside the
 BMP as letters

---
 apertium/tmx_builder.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/apertium/tmx_builder.cc b/apertium/tmx_builder.cc
index 4b74285..79134a1 100644
--- a/apertium/tmx_builder.cc
+++ b/apertium/tmx_builder.cc
@@ -733,13 +733,15 @@ TMXBuilder::filter(UString const &tu)
   bool has_text = false;
   unsigned int count_blank = 0;
 
-  for(unsigned int i = 0, limit = tu.size(); i != limit; i++)
+  for(size_t i = 0, limit = tu.size(); i < limit; )
   {
-    if(u_isalpha(tu[i]))
+    UChar32 c;
+    U16_NEXT(tu.data(), i, limit, c);
+    if(u_isalpha(c))
     {
       has_text = true;
     }
-    else if(has_text && u_isspace(tu[i]))
+    else if(has_text && u_isspace(c))
     {
       count_blank++;
     }
-- 
2.43.0


From 6bcf5044beab82d3e4e5de186aaebd66b4c24216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:30 +0000
Subject: [PATCH 052/115] fix: apertium-tmxbuild must not cut letters and
 formatting marks at the ends of segments

---
 apertium/tmx_builder.cc | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/apertium/tmx_builder.cc b/apertium/tmx_builder.cc
index 79134a1..af82eda 100644
--- a/apertium/tmx_builder.cc
+++ b/apertium/tmx_builder.cc
@@ -273,9 +273,16 @@ TMXBuilder::xmlize(UString const &str)
       result = result.substr(5);
       cambio = true;
     }
-    while(result.size() > 0 && !u_isalnum(result[0]) && !u_ispunct(result[0]))
+    while(result.size() > 0)
     {
-      result = result.substr(1);
+      size_t len = 0;
+      UChar32 c;
+      U16_NEXT(result.data(), len, result.size(), c);
+      if(u_isalnum(c) || u_ispunct(c) || c == '<')
+      {
+        break;
+      }
+      result = result.substr(len);
       cambio = true;
     }
   }
@@ -285,14 +292,21 @@ TMXBuilder::xmlize(UString const &str)
   while(cambio == true)
   {
     cambio = false;
-    while(result.size() > 5 && result.substr(result.size()-5) == "<ph/>"_u)
+    while(result.size() >= 5 && result.substr(result.size()-5) == "<ph/>"_u)
     {
       result = result.substr(0, result.size()-5);
       cambio = true;
     }
-    while(result.size() > 0 && !u_isalnum(result[result.size()-1]) && !u_ispunct(result[result.size()-1]))
+    while(result.size() > 0)
     {
-      result = result.substr(0, result.size()-1);
+      size_t end = result.size();
+      UChar32 c;
+      U16_PREV(result.data(), 0, end, c);
+      if(u_isalnum(c) || u_ispunct(c) || c == '>')
+      {
+        break;
+      }
+      result = result.substr(0, end);
       cambio = true;
     }
   }
-- 
2.43.0


From 2cec16ba82a70e1c843a78814c24695f9ac67161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:41 +0000
Subject: [PATCH 053/115] fix: apertium-tmxbuild must survive an unfinished
 blank

---
 apertium/tmx_builder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apertium/tmx_builder.cc b/apertium/tmx_builder.cc
index af82eda..05a3624 100644
--- a/apertium/tmx_builder.cc
+++ b/apertium/tmx_builder.cc
@@ -184,7 +184,7 @@ TMXBuilder::nextTU(InputFile& input)
           current_tu += ' ';
         }
         current_tu.append("<ph/>"_u);
-        if(tmp.substr(tmp.size()-2, 2) == " ]"_u)
+        if(tmp.size() >= 2 && tmp.substr(tmp.size()-2, 2) == " ]"_u)
         {
           current_tu += ' ';
         }
-- 
2.43.0


From 62a97b161bc09e3dd189bdec805c16d6e583e723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:48 +0000
Subject: [PATCH 054/115] fix: apertium-adapt-docx must not move text over
 tabs, links and other content

---
 apertium/adapt_docx.cc | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/apertium/adapt_docx.cc b/apertium/adapt_docx.cc
index 7e54d22..c6aa8f2 100644
--- a/apertium/adapt_docx.cc
+++ b/apertium/adapt_docx.cc
@@ -148,6 +148,7 @@ public:
 	string getText() { return text; }
 	void setText(string _text);
 	bool hasText() { return containsText; }
+	bool hasOther() { return containsOther; }
 	void setLast(bool _is) { last = _is; }
 	bool isLast() { return last; }
 	void remove();
@@ -156,6 +157,7 @@ private:
 	xmlNode *text_0;
 	string text;
 	bool containsText;
+	bool containsOther;
 	bool last;
 };
 
@@ -164,7 +166,15 @@ TextRun::TextRun(xmlNode *_root)
 	root = _root;
 	text_0 = NULL;
 	last = false;
+	containsOther = false;
+	for (xmlNode *n = root->children; n != NULL; n = n->next) {
+		string name = (n->type == XML_ELEMENT_NODE) ? (const char*)n->name : "rPr";
+		if (name != "rPr" && name != "t" && name != "lastRenderedPageBreak")
+			containsOther = true;
+	}
 	vector<xmlNode*> tt = Walker::findAll(root->children, "t", false);
+	if (tt.size() > 1)
+		containsOther = true;
 	if (tt.size() == 1) {
 		text_0 = tt[0];
 		containsText = true;
@@ -217,11 +227,29 @@ private:
 Paragraph::Paragraph(xmlNode *_root)
 {
 	root = _root;
-	vector<xmlNode*> nodes = Walker::findAll(root->children, "r", false);
-	for (auto it = nodes.begin(); it != nodes.end(); it++) {
-		TextRun *r = new TextRun(*it);
-		if (r->hasText())
+	for (xmlNode *node = root->children; node != NULL; node = node->next) {
+		if (node->type != XML_ELEMENT_NODE)
+			continue;
+		string name = (const char*)node->name;
+		// Text cannot be moved over anything that is shown in the paragraph
+		bool barrier;
+		TextRun *r = NULL;
+		if (name == "r") {
+			r = new TextRun(node);
+			barrier = r->hasOther();
+		}
+		else {
+			bool mark = name.size() > 3 && (name.substr(name.size() - 3) == "End" || (name.size() > 5 && name.substr(name.size() - 5) == "Start"));
+			barrier = !mark && name != "pPr" && name != "proofErr";
+		}
+		if (barrier && !runs.empty())
+			runs.back()->setLast(true);
+		if (r == NULL)
+			continue;
+		if (r->hasText()) {
+			r->setLast(barrier);
 			runs.push_back(r);
+		}
 		else
 			delete r;
 	}
-- 
2.43.0


From 5112c54578f60d36d32f512519317d5a9e979d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:03 +0000
Subject: [PATCH 055/115] fix: apertium-adapt-docx must replace the whole text
 of a run and keep blanks at its ends

---
 apertium/adapt_docx.cc | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/apertium/adapt_docx.cc b/apertium/adapt_docx.cc
index c6aa8f2..19f8bc3 100644
--- a/apertium/adapt_docx.cc
+++ b/apertium/adapt_docx.cc
@@ -178,24 +178,15 @@ TextRun::TextRun(xmlNode *_root)
 	if (tt.size() == 1) {
 		text_0 = tt[0];
 		containsText = true;
-		for (auto it = tt.begin(); it != tt.end(); it++) {
-			Walker texts((*it)->children, "text", false, xmlElementType::XML_TEXT_NODE);
-			while (texts.getCurrent()) {
-				xmlNode *t = texts.getCurrent();
-				if (xmlNodeGetSpacePreserve((xmlNode*)*it) == 1)
-					text.append((const char*)t->content);
-				else {
-					string c((const char*)t->content);
-					int newBegin = 0;
-					int newEnd = c.length() - 1;
-					while (newBegin <= newEnd && c[newBegin] == ' ')
-						++newBegin;
-					while (newEnd > newBegin && c[newEnd] == ' ')
-						--newEnd;
-					text.append(c.substr(newBegin, newEnd - newBegin + 1));
-				}
-				texts.findNext();
-			}
+		xmlChar *content = xmlNodeGetContent(text_0);
+		if (content != NULL) {
+			text = (const char*)content;
+			xmlFree(content);
+		}
+		if (xmlNodeGetSpacePreserve(text_0) != 1) {
+			const char *blanks = " \t\r\n";
+			text.erase(0, text.find_first_not_of(blanks));
+			text.erase(text.find_last_not_of(blanks) + 1);
 		}
 	}
 	else
@@ -204,8 +195,10 @@ TextRun::TextRun(xmlNode *_root)
 
 void TextRun::setText(string _text)
 {
-	xmlReplaceNode(text_0->children, xmlNewText((const xmlChar*)_text.c_str()));
-	xmlNodeSetSpacePreserve(text_0, _text.front() == ' ' || _text.back() == ' ' ? 1 : 0);
+	xmlNodeSetContent(text_0, NULL);
+	xmlAddChild(text_0, xmlNewText((const xmlChar*)_text.c_str()));
+	bool preserve = isspace((unsigned char)_text.front()) || isspace((unsigned char)_text.back());
+	xmlNodeSetSpacePreserve(text_0, preserve ? 1 : 0);
 }
 
 void TextRun::remove()
-- 
2.43.0


From 1477f9eeef8829b3f201d5b9f0dbf2085c6efeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:11 +0000
Subject: [PATCH 056/115] fix: apertium-adapt-docx must not follow an
 uninitialised pointer for empty elements

---
 apertium/adapt_docx.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apertium/adapt_docx.cc b/apertium/adapt_docx.cc
index 19f8bc3..0db9683 100644
--- a/apertium/adapt_docx.cc
+++ b/apertium/adapt_docx.cc
@@ -78,6 +78,7 @@ Walker::Walker(xmlNode *_root, string _name, bool _goDown, xmlElementType _type)
 	name = _name;
 	type = _type;
 	goDown = _goDown;
+	current = NULL;
 	if (root)
 		higher.push(root);
 	if (match(root))
-- 
2.43.0


From 0f7c29922d9bdb93a075f69567c2375cf0bd1e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:21 +0000
Subject: [PATCH 057/115] fix: apertium-transfer must not read past the end of
 malformed words

---
 apertium/transfer.cc | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/apertium/transfer.cc b/apertium/transfer.cc
index 499f837..dd3a0c8 100644
--- a/apertium/transfer.cc
+++ b/apertium/transfer.cc
@@ -1088,9 +1088,10 @@ Transfer::transfer(InputFile& in, UFILE* out)
             UString cur;
 
             int seenSlash = 0;
-            for(UString::const_iterator it = tmpword[0]->begin(); it != tmpword[0]->end(); it++)
+            UString::const_iterator end = tmpword[0]->end();
+            for(UString::const_iterator it = tmpword[0]->begin(); it < end; it++)
             {
-              if(*it == '\\') {
+              if(*it == '\\' && it + 1 != end) {
                 cur.push_back(*it);
                 it++;
                 cur.push_back(*it);
@@ -1100,9 +1101,9 @@ Transfer::transfer(InputFile& in, UFILE* out)
               {
                 if(*(it+1) == '[') //wordbound blank
                 {
-                  while(true)
+                  while(it != end)
                   {
-                    if(*it == '\\')
+                    if(*it == '\\' && it + 1 != end)
                     {
                       wblank.push_back(*it);
                       it++;
@@ -1138,14 +1139,17 @@ Transfer::transfer(InputFile& in, UFILE* out)
                 continue;
               }
               else if (*it == '<') {
-                while (*it != '>') {
+                while (it != end && *it != '>') {
                   cur.push_back(*it);
-                  if (*it == '\\') {
+                  if (*it == '\\' && it + 1 != end) {
                     it++;
                     cur.push_back(*it);
                   }
                   it++;
                 }
+                if (it == end) {
+                  break;
+                }
               }
               cur.push_back(*it);
             }
@@ -1290,9 +1294,10 @@ Transfer::applyRule()
 
       int seenSlash = 0;
       bool inTag = false;
-      for(UString::const_iterator it = tmpword[i]->begin(); it != tmpword[i]->end(); it++)
+      UString::const_iterator end = tmpword[i]->end();
+      for(UString::const_iterator it = tmpword[i]->begin(); it < end; it++)
       {
-        if(*it == '\\')
+        if(*it == '\\' && it + 1 != end)
         {
           if(seenSlash == 0)
           {
@@ -1318,8 +1323,8 @@ Transfer::applyRule()
         {
           if(*(it+1) == '[') //wordbound blank
           {
-            while(true) {
-              if(*it == '\\') {
+            while(it != end) {
+              if(*it == '\\' && it + 1 != end) {
                 wblank.push_back(*it);
                 it++;
                 wblank.push_back(*it);
@@ -1405,7 +1410,7 @@ Transfer::applyWord(UString const &word_str)
       case '[':
         if(word_str[i+1] == '[')
         {
-          while(true)
+          while(i < limit)
           {
             if(word_str[i] == '\\')
             {
-- 
2.43.0


From da04b45996d9c8c9aea142a2665969be0e95380c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:36 +0000
Subject: [PATCH 058/115] fix: apertium-postchunk must not read past the end of
 malformed chunks

---
 apertium/postchunk.cc | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index edb93a2..ac60768 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -819,7 +819,7 @@ Postchunk::getVecTags(UString const &chunk)
 {
   vector<UString> vectags;
 
-  for(int i = 0, limit = chunk.size(); i != limit; i++)
+  for(int i = 0, limit = chunk.size(); i < limit; i++)
   {
     if(chunk[i] == '\\')
     {
@@ -832,7 +832,7 @@ Postchunk::getVecTags(UString const &chunk)
       {
         mytag += chunk[i++];
       }
-      while(chunk[i] != '>');
+      while(i < limit && chunk[i] != '>');
       mytag += '>';
       vectags.push_back(mytag);
     }
@@ -847,7 +847,7 @@ Postchunk::getVecTags(UString const &chunk)
 int
 Postchunk::beginChunk(UString const &chunk)
 {
-  for(int i = 0, limit = chunk.size(); i != limit; i++)
+  for(int i = 0, limit = chunk.size(); i < limit; i++)
   {
     if(chunk[i] == '\\')
     {
@@ -870,7 +870,7 @@ Postchunk::endChunk(UString const &chunk)
 UString
 Postchunk::wordzero(UString const &chunk)
 {
-  for(unsigned int i = 0, limit = chunk.size(); i != limit ;i++)
+  for(unsigned int i = 0, limit = chunk.size(); i < limit; i++)
   {
     if(chunk[i] == '\\')
     {
@@ -888,7 +888,7 @@ Postchunk::wordzero(UString const &chunk)
 UString
 Postchunk::pseudolemma(UString const &chunk)
 {
-  for(unsigned int i = 0, limit = chunk.size(); i != limit ;i++)
+  for(unsigned int i = 0, limit = chunk.size(); i < limit; i++)
   {
     if(chunk[i] == '\\')
     {
@@ -927,7 +927,7 @@ Postchunk::unchunk(UString const &chunk, UFILE* output)
       u_fputc(chunk[++i], output);
     } else if(chunk[i] == '^') {
       u_fputc('^', output);
-      while(chunk[++i] != '$')
+      while(++i < limit && chunk[i] != '$')
       {
         if(chunk[i] == '\\')
         {
@@ -939,7 +939,7 @@ Postchunk::unchunk(UString const &chunk, UFILE* output)
           if(u_isdigit(chunk[i+1]))
           {
             int j = ++i;
-            while (chunk[++i] != '>');
+            while (++i < limit && chunk[i] != '>');
             unsigned long value = StringUtils::stoi(chunk.substr(j, i-j)) - 1;
             if(vectags.size() > value)
             {
@@ -949,7 +949,7 @@ Postchunk::unchunk(UString const &chunk, UFILE* output)
           else
           {
             u_fputc('<', output);
-            while(chunk[++i] != '>') u_fputc(chunk[i], output);
+            while(++i < limit && chunk[i] != '>') u_fputc(chunk[i], output);
             u_fputc('>', output);
           }
         }
@@ -981,7 +981,7 @@ Postchunk::unchunk(UString const &chunk, UFILE* output)
     else if(chunk[i] == '[')
     {
       u_fputc('[', output);
-      while(chunk[++i] != ']')
+      while(++i < limit && chunk[i] != ']')
       {
         if(chunk[i] == '\\')
         {
@@ -1036,7 +1036,7 @@ Postchunk::splitWordsAndBlanks(UString const &chunk, vector<UString *> &words,
       UString *myword = new UString();
       UString &ref = *myword;
 
-      while(chunk[++i] != '$')
+      while(++i < limit && chunk[i] != '$')
       {
         if(chunk[i] == '\\')
         {
@@ -1049,7 +1049,7 @@ Postchunk::splitWordsAndBlanks(UString const &chunk, vector<UString *> &words,
           {
             // replace tag
             int j = ++i;
-            while (chunk[++i] != '>');
+            while (++i < limit && chunk[i] != '>');
             unsigned long value = StringUtils::stoi(chunk.substr(j, i-j)) - 1;
             if(vectags.size() > value)
             {
@@ -1059,7 +1059,7 @@ Postchunk::splitWordsAndBlanks(UString const &chunk, vector<UString *> &words,
           else
           {
             ref += '<';
-            while(chunk[++i] != '>') ref += chunk[i];
+            while(++i < limit && chunk[i] != '>') ref += chunk[i];
             ref += '>';
           }
         }
@@ -1104,7 +1104,7 @@ Postchunk::splitWordsAndBlanks(UString const &chunk, vector<UString *> &words,
         UString *myword = new UString();
         UString &ref = *myword;
 
-        while(true)
+        while(i < limit)
         {
           if(chunk[i] == '\\')
           {
@@ -1125,7 +1125,7 @@ Postchunk::splitWordsAndBlanks(UString const &chunk, vector<UString *> &words,
           i++;
         }
 
-        while(chunk[++i] != '$')
+        while(++i < limit && chunk[i] != '$')
         {
           if(chunk[i] == '\\')
           {
@@ -1138,7 +1138,7 @@ Postchunk::splitWordsAndBlanks(UString const &chunk, vector<UString *> &words,
             {
               // replace tag
               int j = ++i;
-              while (chunk[++i] != '>');
+              while (++i < limit && chunk[i] != '>');
               unsigned long value = StringUtils::stoi(chunk.substr(j, i-j)) - 1;
               if(vectags.size() > value)
               {
@@ -1148,7 +1148,7 @@ Postchunk::splitWordsAndBlanks(UString const &chunk, vector<UString *> &words,
             else
             {
               ref += '<';
-              while(chunk[++i] != '>') ref += chunk[i];
+              while(++i < limit && chunk[i] != '>') ref += chunk[i];
               ref += '>';
             }
           }
@@ -1188,7 +1188,7 @@ Postchunk::splitWordsAndBlanks(UString const &chunk, vector<UString *> &words,
         }
         UString &ref = *(blanks.back());
         ref += '[';
-        while(chunk[++i] != ']')
+        while(++i < limit && chunk[i] != ']')
         {
           if(chunk[i] == '\\')
           {
-- 
2.43.0


From 22f87c89908dd86472380c914d48f6986596c1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:33 +0000
Subject: [PATCH 059/115] fix: LaTeX accents over dotless i and j keep their
 letter

---
 apertium/apertium-prelatex.l | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/apertium/apertium-prelatex.l b/apertium/apertium-prelatex.l
index 13faec1..a3a61b7 100644
--- a/apertium/apertium-prelatex.l
+++ b/apertium/apertium-prelatex.l
@@ -82,30 +82,32 @@ bool ngermanbabel = false;
 
 
 \\[\^\"\'`]((\{\\[ij]\})|(\\[ij]))	{
+	// both \'{\i} and \'\i
+	bool is_i = (yytext[yyleng-1] == '}' ? yytext[yyleng-2] : yytext[yyleng-1]) == 'i';
 	switch(yytext[1]){
 	case '^':
-		if(yytext[4]=='i')
+		if(is_i)
 			fputs("î", yyout);
 		else
 			fputs("ĵ",yyout);
 		break;
 	case '\"':
-		if(yytext[4]=='i')
+		if(is_i)
 			fputs("ï",yyout);
 		else
-			fputs("j",yyout); //should actually be j with umlaut
+			fputs("j̈",yyout);
 		break;
 	case '\'':
-		if(yytext[4]=='i')
+		if(is_i)
 			fputs("í",yyout);
 		else
-			fputs("j",yyout); //should actually be j with accent
+			fputs("j́",yyout);
 		break;
 	case '`':
-		if(yytext[4]=='i')
+		if(is_i)
 			fputs("ì",yyout);
 		else
-			fputs("k",yyout); //should actually be j with accent
+			fputs("j̀",yyout);
 		break;
 	}
 }
-- 
2.43.0


From 28736b5367e32bf7c0f33055e0928001fb5d5c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:40 +0000
Subject: [PATCH 060/115] fix: LaTeX accents over other letters must not become
 elements

---
 apertium/apertium-prelatex.l | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/apertium/apertium-prelatex.l b/apertium/apertium-prelatex.l
index a3a61b7..9f5edd4 100644
--- a/apertium/apertium-prelatex.l
+++ b/apertium/apertium-prelatex.l
@@ -159,18 +159,26 @@ bool ngermanbabel = false;
 }
 
 \\[`'\^\"H~ck=b.druv]((\{.\})|(.))	{
-    UString ws = to_ustring(yytext);
+    char letter = (yyleng == 3) ? yytext[2] : yytext[3];
     UString key;
-    key += ws[1];
-    key += (yyleng == 3) ? ws[2] : ws[3];
+    key += yytext[1];
+    key += letter;
 
 	UString result = accentsMap.get(key);
-    if (result.empty()) {
+    if (!result.empty()) {
+      fputus(result, yyout);
+    } else if (!isalpha((unsigned char)yytext[1])) {
+      // an accent on something else, leave it as it is
+      fwrite(yytext, 1, 2, yyout);
+      yyless(2);
+    } else {
+      // the name of a command, one or two letters long
+      if (yyleng != 3 || !isalpha((unsigned char)letter)) {
+        yyless(2);
+      }
       fputc('<', yyout);
       fwrite(yytext+1, 1, yyleng-1, yyout);
       fputs("/>", yyout);
-    } else {
-      fputus(result, yyout);
     }
 }
 
-- 
2.43.0


From ce8a5199f2189e35f871a734d4f5660a3d352a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:57 +0000
Subject: [PATCH 061/115] fix: LaTeX escaped closing brace is not an opening
 one

---
 apertium/apertium-prelatex.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apertium/apertium-prelatex.l b/apertium/apertium-prelatex.l
index 9f5edd4..9d7ac84 100644
--- a/apertium/apertium-prelatex.l
+++ b/apertium/apertium-prelatex.l
@@ -276,7 +276,7 @@ bool ngermanbabel = false;
         fputs("<LEFTESCAPEDBRACE/>", yyout);
         }
 
-\\\{	{
+\\\}	{
         fputs("<RIGHTESCAPEDBRACE/>", yyout);
         }
 
-- 
2.43.0


From f60cec774b7b051c37fe656990b58afed4518620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:04 +0000
Subject: [PATCH 062/115] fix: LaTeX escaped dollar signs and dollars inside
 displayed maths

---
 apertium/apertium-postlatex-raw.l |  4 ++++
 apertium/apertium-postlatex.l     |  4 ++++
 apertium/apertium-prelatex.l      | 11 ++++++++---
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/apertium/apertium-postlatex-raw.l b/apertium/apertium-postlatex-raw.l
index 05a4094..a3e124b 100644
--- a/apertium/apertium-postlatex-raw.l
+++ b/apertium/apertium-postlatex-raw.l
@@ -64,6 +64,10 @@ using namespace std;
         fputs_unlocked("\\}", yyout);
 }
 
+\<ESCAPEDDOLLAR\/\>	{
+        fputs_unlocked("\\$", yyout);
+}
+
 \<ESCAPEDPERCENT\/\>	{
         fputs_unlocked("\\%", yyout);
 }
diff --git a/apertium/apertium-postlatex.l b/apertium/apertium-postlatex.l
index 9a8b565..52af9cc 100644
--- a/apertium/apertium-postlatex.l
+++ b/apertium/apertium-postlatex.l
@@ -75,6 +75,10 @@ string symbuf;
         fputs("\\}", yyout);
 }
 
+\<ESCAPEDDOLLAR\/\>	{
+        fputs("\\$", yyout);
+}
+
 \<ESCAPEDPERCENT\/\>	{
         fputs("\\%", yyout);
 }
diff --git a/apertium/apertium-prelatex.l b/apertium/apertium-prelatex.l
index 9d7ac84..b07ea8a 100644
--- a/apertium/apertium-prelatex.l
+++ b/apertium/apertium-prelatex.l
@@ -47,6 +47,7 @@ bool ngermanbabel = false;
 %option stack
 
 %x mathenv
+%x displaymath
 %x readbrackets
 
 %%
@@ -284,6 +285,10 @@ bool ngermanbabel = false;
         fputs("<ESCAPEDPERCENT/>", yyout);
         }
 
+\\\$	{
+        fputs("<ESCAPEDDOLLAR/>", yyout);
+        }
+
 \{	{
 	fputs("<CONTENTS>",yyout);
 }
@@ -297,11 +302,11 @@ bool ngermanbabel = false;
 }
 
 \$\$	{
-	BEGIN(mathenv);
+	BEGIN(displaymath);
 	fputs("<MATH_DOLLARS>",yyout);
 }
 
-<mathenv>\$\$	{
+<displaymath>\$\$	{
 	fputs("</MATH_DOLLARS>",yyout);
 	BEGIN(0);
 }
@@ -403,7 +408,7 @@ bool ngermanbabel = false;
 	fputs(yytext, yyout);
 }
 
-<mathenv>(.|\n)	{
+<mathenv,displaymath>\\\$|.|\n	{
   fputs(yytext, yyout);
 }
 
-- 
2.43.0


From dcc22590daa8633150d56d6365e8bfb501a66db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:45 +0000
Subject: [PATCH 063/115] fix: LaTeX hash signs must survive the round trip

---
 apertium/apertium-postlatex.l | 4 ++++
 apertium/apertium-prelatex.l  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/apertium/apertium-postlatex.l b/apertium/apertium-postlatex.l
index 52af9cc..6b0cf01 100644
--- a/apertium/apertium-postlatex.l
+++ b/apertium/apertium-postlatex.l
@@ -79,6 +79,10 @@ string symbuf;
         fputs("\\$", yyout);
 }
 
+\<HASHMARK\/\>	{
+        fputs("#", yyout);
+}
+
 \<ESCAPEDPERCENT\/\>	{
         fputs("\\%", yyout);
 }
diff --git a/apertium/apertium-prelatex.l b/apertium/apertium-prelatex.l
index b07ea8a..9c2c634 100644
--- a/apertium/apertium-prelatex.l
+++ b/apertium/apertium-prelatex.l
@@ -159,6 +159,10 @@ bool ngermanbabel = false;
         fputs("<HASH/>", yyout);
 }
 
+\#		{
+        fputs("<HASHMARK/>", yyout);
+}
+
 \\[`'\^\"H~ck=b.druv]((\{.\})|(.))	{
     char letter = (yyleng == 3) ? yytext[2] : yytext[3];
     UString key;
-- 
2.43.0


From e3ce2ded09e21de045ae98a8037eaf16bcc7f3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:52 +0000
Subject: [PATCH 064/115] fix: LaTeX stroked l in braces

---
 apertium/apertium-postlatex.l | 2 +-
 apertium/apertium-prelatex.l  | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/apertium/apertium-postlatex.l b/apertium/apertium-postlatex.l
index 6b0cf01..bbfa9f9 100644
--- a/apertium/apertium-postlatex.l
+++ b/apertium/apertium-postlatex.l
@@ -181,7 +181,7 @@ string symbuf;
 
 
 ł	{
-	fputs("\\l", yyout);
+	fputs("{\\l}", yyout);
 }
 
 
diff --git a/apertium/apertium-prelatex.l b/apertium/apertium-prelatex.l
index 9c2c634..420439e 100644
--- a/apertium/apertium-prelatex.l
+++ b/apertium/apertium-prelatex.l
@@ -145,6 +145,10 @@ bool ngermanbabel = false;
 	fputs("Ø",yyout);
 }
 
+\{\\l\}	{
+	fputs("ł",yyout);
+}
+
 \{\\ss\}	{
 	fputs("ß",yyout);
 }
-- 
2.43.0


From 0f9dede6d09cde595dc0e8656fec43ca4a1c2348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:58 +0000
Subject: [PATCH 065/115] fix: LaTeX comments, parameters and verbatim text are
 kept as they are

---
 apertium/apertium-postlatex-raw.l | 47 ++++++++++++++++++++++---------
 apertium/apertium-postlatex.l     | 37 ++++++++++++++----------
 2 files changed, 56 insertions(+), 28 deletions(-)

diff --git a/apertium/apertium-postlatex-raw.l b/apertium/apertium-postlatex-raw.l
index a3e124b..552c855 100644
--- a/apertium/apertium-postlatex-raw.l
+++ b/apertium/apertium-postlatex-raw.l
@@ -32,6 +32,8 @@ using namespace std;
 
 %x mathenv
 %x readbrackets
+%x verbatim
+%x param
 
 %%
 
@@ -68,6 +70,10 @@ using namespace std;
         fputs_unlocked("\\$", yyout);
 }
 
+\<HASHMARK\/\>	{
+        fputs_unlocked("#", yyout);
+}
+
 \<ESCAPEDPERCENT\/\>	{
         fputs_unlocked("\\%", yyout);
 }
@@ -140,31 +146,37 @@ using namespace std;
 	fputs_unlocked("\\\\",yyout);
 }
 
-\<COMMENT\>[^\<]*	{
-	fputs_unlocked("\%", yyout);
-	fwrite(yytext+9, 1, yyleng-9, yyout);
+\<COMMENT\>	{
+	BEGIN(verbatim);
+	fputs_unlocked("%", yyout);
 }
 
-\<\/COMMENT\>	{
+\<VERB\>	{
+	BEGIN(verbatim);
+	fputs_unlocked("\\verb", yyout);
 }
 
+<verbatim>\<\/(COMMENT|VERB)\>	{
+	BEGIN(0);
+}
 
-\<PARAM\>[^\<]*	{
+\<PARAM\>	{
+	BEGIN(param);
 	fputs_unlocked("[", yyout);
-	fwrite(yytext+7, 1, yyleng-7, yyout);
-}
-\<\/PARAM\>	{
-	fputs_unlocked("]", yyout);
 }
 
-\<VERB\>	{
-        fputs_unlocked("\\verb", yyout);
+<param>&apos;	{
+	fputs_unlocked("\'", yyout);
 }
 
-\<\/VERB\>	{
-        ;
+<param>\<\/PARAM\>	{
+	BEGIN(0);
+	fputs_unlocked("]", yyout);
 }
 
+<verbatim,param>.|\n	{
+	fwrite(yytext, 1, yyleng, yyout);
+}
 
 \<[a-zA-Z0-9]+\>	{
 	fputs_unlocked("\\begin{", yyout);
@@ -190,6 +202,15 @@ using namespace std;
 	fputs_unlocked("*}", yyout);
 }
 
+\<HASH_[0-9]+\/\>	{
+	fputs_unlocked("\\#", yyout);
+	fwrite(yytext+6, 1, yyleng-8, yyout);
+}
+
+\<HASH\/\>	{
+	fputs_unlocked("\\#", yyout);
+}
+
 \<[a-zA-Z0-9]+\/\>	{
 	fputs_unlocked("\\", yyout);
 	fwrite(yytext+1, 1, yyleng-3, yyout);
diff --git a/apertium/apertium-postlatex.l b/apertium/apertium-postlatex.l
index bbfa9f9..0a2b717 100644
--- a/apertium/apertium-postlatex.l
+++ b/apertium/apertium-postlatex.l
@@ -43,6 +43,8 @@ string symbuf;
 
 %x mathenv
 %x readbrackets
+%x verbatim
+%x param
 
 %%
 
@@ -153,32 +155,37 @@ string symbuf;
 	fputs("\\\\",yyout);
 }
 
-\<COMMENT\>[^\<]*	{
-    fputs("\%", yyout);
-    fwrite(yytext+9, 1, yyleng-9, yyout);
+\<COMMENT\>	{
+	BEGIN(verbatim);
+	fputs("%", yyout);
 }
 
-\<\/COMMENT\>	{
+\<VERB\>	{
+	BEGIN(verbatim);
+	fputs("\\verb", yyout);
 }
 
-
-\<PARAM\>[^\<]*	{
-    fputc('[', yyout);
-    fwrite(yytext+7, 1, yyleng-7, yyout);
-}
-\<\/PARAM\>	{
-	fputs("]", yyout);
+<verbatim>\<\/(COMMENT|VERB)\>	{
+	BEGIN(0);
 }
 
-\<VERB\>	{
-        fputs("\\verb", yyout);
+\<PARAM\>	{
+	BEGIN(param);
+	fputs("[", yyout);
 }
 
-\<\/VERB\>	{
-        ;
+<param>&apos;	{
+	fputs("\'", yyout);
 }
 
+<param>\<\/PARAM\>	{
+	BEGIN(0);
+	fputs("]", yyout);
+}
 
+<verbatim,param>.|\n	{
+	fwrite(yytext, 1, yyleng, yyout);
+}
 
 ł	{
 	fputs("{\\l}", yyout);
-- 
2.43.0


From 83df0d83be44a789421c23c660054f10b7874aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:04 +0000
Subject: [PATCH 066/115] fix: LaTeX postprocessor and characters outside the
 BMP

---
 apertium/apertium-postlatex.l | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/apertium/apertium-postlatex.l b/apertium/apertium-postlatex.l
index 0a2b717..7340d80 100644
--- a/apertium/apertium-postlatex.l
+++ b/apertium/apertium-postlatex.l
@@ -280,9 +280,7 @@ string symbuf;
 [^A-Za-z\n]	{
     symbuf += yytext;
 	if (utf8::is_valid(symbuf.begin(), symbuf.end())) {
-      const char *mb = symbuf.c_str();
-      UChar32 symbol = utf8::next(mb, mb+4);
-      UString wt = UString(1, symbol);
+      UString wt = to_ustring(symbuf.c_str());
       symbuf.clear();
       UString wa = accentsMap.get(wt);
       if (wa.empty()) {
-- 
2.43.0


From 8c8db558e540ddf439a87c37b909e5e82ffbb36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:13 +0000
Subject: [PATCH 067/115] fix: LaTeX maths between parentheses or brackets is
 not text

---
 apertium/latex-format.xml | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/apertium/latex-format.xml b/apertium/latex-format.xml
index 135e2d0..ae292ad 100644
--- a/apertium/latex-format.xml
+++ b/apertium/latex-format.xml
@@ -205,13 +205,13 @@
 
 
     <format-rule type="comment" eos="no" priority="4">
-      <begin regexp='"&lt;MATH_DOLLAR&gt;"'/>
-      <end regexp='"&lt;/MATH_DOLLAR&gt;"'/>
+      <begin regexp='"&lt;MATH_"(DOLLAR|PAR)"&gt;"'/>
+      <end regexp='"&lt;/MATH_"(DOLLAR|PAR)"&gt;"'/>
     </format-rule>
 
     <format-rule type="comment" eos="yes" priority="4">
-      <begin regexp='"&lt;MATH_DOLLARS&gt;"'/>
-      <end regexp='"&lt;/MATH_DOLLARS&gt;"'/>
+      <begin regexp='"&lt;MATH_"(DOLLARS|BRA)"&gt;"'/>
+      <end regexp='"&lt;/MATH_"(DOLLARS|BRA)"&gt;"'/>
     </format-rule>
 
     <format-rule type="comment" eos="yes" priority="4">
-- 
2.43.0


From 27c7581fcde95c55eb36ceb59df1a011e4bcb8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:42 +0000
Subject: [PATCH 068/115] fix: perceptron weight averaging must not use an
 erased iterator

---
 apertium/feature_vec_averager.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/apertium/feature_vec_averager.cc b/apertium/feature_vec_averager.cc
index a45025d..7c96cc3 100644
--- a/apertium/feature_vec_averager.cc
+++ b/apertium/feature_vec_averager.cc
@@ -40,13 +40,14 @@ void
 FeatureVecAverager::average() {
   FeatureVec::Map::iterator weights_it;
   for (weights_it = weights.data.begin();
-       weights_it != weights.data.end(); weights_it++) {
+       weights_it != weights.data.end();) {
     const FeatureKey &fk = weights_it->first;
     updateTotal(fk);
     if (totals[fk] == 0) {
-      weights.data.erase(weights_it);
+      weights_it = weights.data.erase(weights_it);
     } else {
       weights_it->second = totals[fk] / iterations;
+      weights_it++;
     }
   }
 }
-- 
2.43.0


From 85fe4bd83a90162d5d32f3e6bcac416dcd9a66b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:54 +0000
Subject: [PATCH 069/115] fix: perceptron training must not report an
 uninitialised count

---
 apertium/perceptron_tagger.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apertium/perceptron_tagger.cc b/apertium/perceptron_tagger.cc
index a6b1f56..1afc294 100644
--- a/apertium/perceptron_tagger.cc
+++ b/apertium/perceptron_tagger.cc
@@ -247,7 +247,7 @@ void PerceptronTagger::train(
     int iterations) {
   FeatureVecAverager avg_weights(weights);
   TrainingCorpus tc(tagged, untagged, TheFlags.getSkipErrors(), TheFlags.getSentSeg());
-  size_t avail_skipped;
+  size_t avail_skipped = 0;
   for (int i = 0; i < iterations; i++) {
     std::cerr << "Iteration " << i + 1 << " of " << iterations << "\n";
     avail_skipped = 0;
@@ -259,7 +259,7 @@ void PerceptronTagger::train(
     }
   }
   avg_weights.average();
-  if (avail_skipped) {
+  if (tc.skipped || avail_skipped) {
     std::cerr << "Skipped " << tc.skipped << " sentences due to token "
                << "misalignment and " << avail_skipped << " sentences due to "
                << "tagged token being unavailable in untagged file out of "
-- 
2.43.0


From 5cfbae2c6d865c7f33906838466283d67dac98b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:09 +0000
Subject: [PATCH 070/115] fix: perceptron features slicing outside of a string
 or list

---
 apertium/perceptron_spec.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apertium/perceptron_spec.cc b/apertium/perceptron_spec.cc
index 5fdd303..f2dedc0 100644
--- a/apertium/perceptron_spec.cc
+++ b/apertium/perceptron_spec.cc
@@ -274,9 +274,9 @@ slice(T &vec, int begin, int end) {
   if (end <= 0) {
     end = vec.size() + end;
   }
-  begin = clamp(0, vec.size() - 1, begin);
   end = clamp(0, vec.size(), end);
-  vec.assign(vec.begin() + begin, vec.begin() + end);
+  begin = clamp(0, end, begin);
+  vec = T(vec.begin() + begin, vec.begin() + end);
 }
 
 template <typename T> static T
-- 
2.43.0


From 2344fddfec3298a565e945eff3c24b8dd6a5757b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:24 +0000
Subject: [PATCH 071/115] fix: perceptron features subscripting from the end or
 an empty list

---
 apertium/mtx_reader.cc      | 2 +-
 apertium/perceptron_spec.cc | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/apertium/mtx_reader.cc b/apertium/mtx_reader.cc
index ea7e597..79ffa78 100644
--- a/apertium/mtx_reader.cc
+++ b/apertium/mtx_reader.cc
@@ -287,7 +287,7 @@ bool MTXReader::tryProcSubscript(bool (MTXReader::*proc_inner)(bool))
     stepToNextTag();
     (this->*proc_inner)(false);
     emitOpcode(VM::SUBSCRIPT);
-    emitUInt(idx);
+    emitInt(idx);
     assert(name == "subscript"_u && type == XML_READER_TYPE_END_ELEMENT);
     stepToNextTag();
     return true;
diff --git a/apertium/perceptron_spec.cc b/apertium/perceptron_spec.cc
index f2dedc0..c96cf2e 100644
--- a/apertium/perceptron_spec.cc
+++ b/apertium/perceptron_spec.cc
@@ -281,8 +281,11 @@ slice(T &vec, int begin, int end) {
 
 template <typename T> static T
 subscript(std::vector<T> vec, int idx) {
+  if (vec.empty()) {
+    return T();
+  }
   if (idx < 0) {
-    idx = vec.size() - idx;
+    idx = vec.size() + idx;
   }
   idx = clamp(0, vec.size() - 1, idx);
   return vec[idx];
@@ -628,7 +631,7 @@ PerceptronSpec::Machine::execCommonOp(Opcode op)
       }
     } break;
     case SUBSCRIPT: {
-      size_t idx = get_uint_operand();
+      int idx = get_int_operand();
       if (stack.top().type == STRARRVAL) {
         stack.push(subscript(stack.pop_off().strArr(), idx));
       } else if (stack.top().type == WRDARRVAL) {
-- 
2.43.0


From 1ed6f8bb5e9bc83fd744b3ee1bc9393a523f9754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:40 +0000
Subject: [PATCH 072/115] fix: perceptron filterin must erase everything that
 it filters out

---
 apertium/perceptron_spec.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apertium/perceptron_spec.cc b/apertium/perceptron_spec.cc
index c96cf2e..797d9ea 100644
--- a/apertium/perceptron_spec.cc
+++ b/apertium/perceptron_spec.cc
@@ -579,7 +579,8 @@ PerceptronSpec::Machine::execCommonOp(Opcode op)
       std::vector<std::string> &str_arr = stack.top().strArr();
       In comp(set_op);
       str_arr.erase(std::remove_if(
-          str_arr.begin(), str_arr.end(), [&](const std::string& e){return !comp(e);} ));
+          str_arr.begin(), str_arr.end(), [&](const std::string& e){return !comp(e);} ),
+        str_arr.end());
     } break;
     /*
     case SETHAS: {
-- 
2.43.0


From e3fe409b6342da60371ac2509ed53b6dcb9502f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:55 +0000
Subject: [PATCH 073/115] fix: perceptron values must be initialised

---
 apertium/perceptron_spec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apertium/perceptron_spec.h b/apertium/perceptron_spec.h
index 89347ee..83a6a9b 100644
--- a/apertium/perceptron_spec.h
+++ b/apertium/perceptron_spec.h
@@ -219,7 +219,7 @@ public:
       swap(a.type, b.type);
     }
     // Smart pointer + tagged union safe to store in STL types
-    StackValue() {}
+    StackValue() : payload(), type(INTVAL) {}
     StackValue(const StackValue &other) {
       // C++11: Probably reference counting with shared_ptr would be better
       // than all this copying if it were available
-- 
2.43.0


From d1fed2079e627ce5658ab2f8855bd7509a7271aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:10 +0000
Subject: [PATCH 074/115] fix: perceptron specifications with a beam width

---
 apertium/mtx_reader.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/apertium/mtx_reader.cc b/apertium/mtx_reader.cc
index 79ffa78..e03987e 100644
--- a/apertium/mtx_reader.cc
+++ b/apertium/mtx_reader.cc
@@ -1161,8 +1161,11 @@ MTXReader::parse()
   if (name == "beam-width"_u) {
     size_t val;
     std::istringstream val_ss(attrib_str("val"_u));
-    val_ss >> val;
+    if (!(val_ss >> val) || val == 0) {
+      parseError("'val' attribute of beam-width has to be a positive number."_u);
+    }
     spec.beam_width = val;
+    stepPastSelfClosingTag("beam-width"_u);
   } else {
     spec.beam_width = 4;
   }
-- 
2.43.0


From a20289023be12a3de56cf40a66212e42f51fdf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:25 +0000
Subject: [PATCH 075/115] fix: perceptron set definitions must be found by
 their names

---
 apertium/mtx_reader.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/apertium/mtx_reader.cc b/apertium/mtx_reader.cc
index e03987e..3d3acc8 100644
--- a/apertium/mtx_reader.cc
+++ b/apertium/mtx_reader.cc
@@ -101,13 +101,13 @@ void MTXReader::procCoarseTags()
 
 void MTXReader::procSetDef()
 {
-  std::string name = attrib_str("name"_u);
+  std::string set_name = attrib_str("name"_u);
   stepToNextTag();
   size_t set_idx = spec.set_consts.size();
   spec.set_consts.push_back(VMSet());
   VMSet &vm_set = spec.set_consts.back();
   while (type != XML_READER_TYPE_END_ELEMENT) {
-    if (name == "set-member") {
+    if (name == "set-member"_u) {
       std::string tag = attrib_str("tag"_u);
       std::string str = attrib_str("str"_u);
       vm_set.insert(tag.empty() ? str : tag);
@@ -116,8 +116,8 @@ void MTXReader::procSetDef()
     }
     stepToNextTag();
   }
-  set_names[name] = set_idx;
-  assert(name == "def-set");
+  set_names[set_name] = set_idx;
+  assert(name == "def-set"_u);
   stepToNextTag();
 }
 
-- 
2.43.0


From 5bc9891937877027926128ffa5c90db60a471ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:39 +0000
Subject: [PATCH 076/115] fix: perceptron lengths must read their operand

---
 apertium/mtx_reader.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/apertium/mtx_reader.cc b/apertium/mtx_reader.cc
index 3d3acc8..bd35dff 100644
--- a/apertium/mtx_reader.cc
+++ b/apertium/mtx_reader.cc
@@ -227,19 +227,22 @@ MTXReader::procIntExpr(bool allow_fail)
       emitOpcode(VM::ADD);
       stepToNextTag();
     } else if (name == "toklen"_u) {
+      stepToNextTag();
       procIntExpr();
       assert(name == "toklen"_u && type == XML_READER_TYPE_END_ELEMENT);
       emitOpcode(VM::TOKLENWRD);
       stepToNextTag();
     } else if (name == "strlen"_u) {
+      stepToNextTag();
       procStrExpr();
       assert(name == "strlen"_u && type == XML_READER_TYPE_END_ELEMENT);
       emitOpcode(VM::STRLEN);
       stepToNextTag();
     } else if (name == "arrlen"_u) {
+      stepToNextTag();
       procStrArrExpr();
       assert(name == "arrlen"_u && type == XML_READER_TYPE_END_ELEMENT);
-      procBinCompareOp(VM::ARRLEN);
+      emitOpcode(VM::ARRLEN);
       stepToNextTag();
     } else {
       if (allow_fail) {
-- 
2.43.0


From 1c8e85051512776d9cf1082d4ef719b6c2ef4351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:53 +0000
Subject: [PATCH 077/115] fix: perceptron slices must read their limits

---
 apertium/mtx_reader.cc | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/apertium/mtx_reader.cc b/apertium/mtx_reader.cc
index bd35dff..b534580 100644
--- a/apertium/mtx_reader.cc
+++ b/apertium/mtx_reader.cc
@@ -301,22 +301,15 @@ bool MTXReader::tryProcSubscript(bool (MTXReader::*proc_inner)(bool))
 bool MTXReader::tryProcSlice(bool (MTXReader::*proc_inner)(bool))
 {
   if (name == "slice"_u) {
-    stepToNextTag();
-    (this->*proc_inner)(false);
     bool exists;
-    emitOpcode(VM::SLICE);
+    // these are 0 when they are not given
     int start_lit = getInt("start"_u, exists);
-    if (exists) {
-      emitInt(start_lit);
-    } else {
-      emitInt(0);
-    }
     int end_lit = getInt("end"_u, exists);
-    if (exists) {
-      emitInt(end_lit);
-    } else {
-      emitInt(0);
-    }
+    stepToNextTag();
+    (this->*proc_inner)(false);
+    emitOpcode(VM::SLICE);
+    emitInt(start_lit);
+    emitInt(end_lit);
     assert(name == "slice"_u && type == XML_READER_TYPE_END_ELEMENT);
     stepToNextTag();
     return true;
-- 
2.43.0


From 197f8595387dc4cf91807b5206235dcf1af27164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:08 +0000
Subject: [PATCH 078/115] fix: perceptron comparisons must keep the order of
 their operands

---
 apertium/perceptron_spec.cc | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/apertium/perceptron_spec.cc b/apertium/perceptron_spec.cc
index 797d9ea..d14e712 100644
--- a/apertium/perceptron_spec.cc
+++ b/apertium/perceptron_spec.cc
@@ -335,18 +335,26 @@ PerceptronSpec::Machine::execCommonOp(Opcode op)
     case PUSHINT:
       stack.push(get_int_operand());
       break;
-    case LT:
-      stack.push(stack.pop_off().intVal() < stack.pop_off().intVal());
-      break;
-    case LTE:
-      stack.push(stack.pop_off().intVal() <= stack.pop_off().intVal());
-      break;
-    case GT:
-      stack.push(stack.pop_off().intVal() > stack.pop_off().intVal());
-      break;
-    case GTE:
-      stack.push(stack.pop_off().intVal() >= stack.pop_off().intVal());
-      break;
+    case LT: {
+      int b = stack.pop_off().intVal();
+      int a = stack.pop_off().intVal();
+      stack.push(a < b);
+    } break;
+    case LTE: {
+      int b = stack.pop_off().intVal();
+      int a = stack.pop_off().intVal();
+      stack.push(a <= b);
+    } break;
+    case GT: {
+      int b = stack.pop_off().intVal();
+      int a = stack.pop_off().intVal();
+      stack.push(a > b);
+    } break;
+    case GTE: {
+      int b = stack.pop_off().intVal();
+      int a = stack.pop_off().intVal();
+      stack.push(a >= b);
+    } break;
     case EQ:
       stack.push(stack.pop_off().intVal() == stack.pop_off().intVal());
       break;
-- 
2.43.0


From b8ce065dff108f0d799dd2d957dc9fdef2ce9075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:21 +0000
Subject: [PATCH 079/115] fix: perceptron conjunctions must take both operands
 from the stack

---
 apertium/perceptron_spec.cc | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/apertium/perceptron_spec.cc b/apertium/perceptron_spec.cc
index d14e712..3798d7a 100644
--- a/apertium/perceptron_spec.cc
+++ b/apertium/perceptron_spec.cc
@@ -309,12 +309,16 @@ PerceptronSpec::Machine::execCommonOp(Opcode op)
 {
   //traceMachineState();
   switch (op) {
-    case OR:
-      stack.push(stack.pop_off().boolVal() || stack.pop_off().boolVal());
-      break;
-    case AND:
-      stack.push(stack.pop_off().boolVal() && stack.pop_off().boolVal());
-      break;
+    case OR: {
+      bool b = stack.pop_off().boolVal();
+      bool a = stack.pop_off().boolVal();
+      stack.push(a || b);
+    } break;
+    case AND: {
+      bool b = stack.pop_off().boolVal();
+      bool a = stack.pop_off().boolVal();
+      stack.push(a && b);
+    } break;
     case NOT:
       stack.push(!stack.pop_off().boolVal());
       break;
-- 
2.43.0


From 95c194b353766bb25848506983e41432d74d8163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:35 +0000
Subject: [PATCH 080/115] fix: perceptron join must keep separators after empty
 strings

---
 apertium/perceptron_spec.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/apertium/perceptron_spec.cc b/apertium/perceptron_spec.cc
index 3798d7a..fe0e2f6 100644
--- a/apertium/perceptron_spec.cc
+++ b/apertium/perceptron_spec.cc
@@ -663,11 +663,11 @@ PerceptronSpec::Machine::execCommonOp(Opcode op)
       const std::string &sep = get_str_operand();
       std::vector<std::string> str_arr = stack.pop_off().strArr();
       std::string ss;
-      for (auto& it : str_arr) {
-        if (!ss.empty()) {
+      for (size_t i = 0; i < str_arr.size(); i++) {
+        if (i > 0) {
           ss.append(sep);
         }
-        ss.append(it);
+        ss.append(str_arr[i]);
       }
       stack.push(StackValue(ss));
     } break;
-- 
2.43.0


From 5d929b6849d15ffb7865e4eb393a5e22c3b1d29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:45 +0000
Subject: [PATCH 081/115] fix: perceptron coarse tags must see unknown tags

---
 apertium/tagger_data_percep_coarse_tags.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apertium/tagger_data_percep_coarse_tags.cc b/apertium/tagger_data_percep_coarse_tags.cc
index f167752..5c6e03d 100644
--- a/apertium/tagger_data_percep_coarse_tags.cc
+++ b/apertium/tagger_data_percep_coarse_tags.cc
@@ -68,6 +68,8 @@ const UString& TaggerDataPercepCoarseTags::coarsen(const Apertium::Morpheme &wrd
     int symbol = alphabet(tag);
     if (symbol) {
       ms.step(symbol, ca_any_tag);
+    } else {
+      ms.step(ca_any_tag);
     }
   }
   // Output result
-- 
2.43.0


From 4340a41c2766673e2a30e25963bd5913831840a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:59 +0000
Subject: [PATCH 082/115] fix: perceptron specifications without a global
 predicate

---
 apertium/perceptron_spec.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apertium/perceptron_spec.cc b/apertium/perceptron_spec.cc
index fe0e2f6..6f61bae 100644
--- a/apertium/perceptron_spec.cc
+++ b/apertium/perceptron_spec.cc
@@ -794,7 +794,7 @@ PerceptronSpec::Machine::get_tag(const UString &in) {
 void PerceptronSpec::serialiseFeatDefn(
     std::ostream &serialised, const FeatureDefn &defn) const {
   Serialiser<std::string>::serialise(
-      std::string((char*)&(defn.front()), defn.size()),
+      std::string(defn.begin(), defn.end()),
       serialised);
 }
 
-- 
2.43.0


From 6e6fe42d922b4defe51a18740aa68c8186d96349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:14 +0000
Subject: [PATCH 083/115] fix: perceptron loops over an empty list, and loops
 that output

---
 apertium/mtx_reader.cc      |  5 ++++-
 apertium/perceptron_spec.cc | 16 +++++++++++++---
 apertium/perceptron_spec.h  |  6 +++++-
 3 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/apertium/mtx_reader.cc b/apertium/mtx_reader.cc
index b534580..6f4f40c 100644
--- a/apertium/mtx_reader.cc
+++ b/apertium/mtx_reader.cc
@@ -982,7 +982,9 @@ MTXReader::procForEach(ExprType expr_type)
     parseError("Expected a string array or wordoid array expression."_u);
   }
 
-  emitOpcode(VM::FOREACHINIT);
+  emitOpcode(expr_type == STREXPR ? VM::FOREACHSTRINIT :
+             expr_type == WRDEXPR ? VM::FOREACHWRDINIT :
+             VM::FOREACHINIT);
   size_t for_each_begin = cur_feat->size();
   emitOpcode(VM::FOREACH);
   emitUInt(slot_idx);
@@ -1025,6 +1027,7 @@ MTXReader::procVoidExpr(bool allow_fail)
     procOutMany();
   } else if (name == "for-each"_u) {
     procForEach(VOIDEXPR);
+    stepToNextTag();
   } else if (name == "inst"_u) {
     procInst();
   } else {
diff --git a/apertium/perceptron_spec.cc b/apertium/perceptron_spec.cc
index 6f61bae..c73e4cb 100644
--- a/apertium/perceptron_spec.cc
+++ b/apertium/perceptron_spec.cc
@@ -376,12 +376,20 @@ PerceptronSpec::Machine::execCommonOp(Opcode op)
       stack.push(a);
       stack.push(b);
     } break;
-    case FOREACHINIT: {
+    case FOREACHINIT:
+    case FOREACHSTRINIT:
+    case FOREACHWRDINIT: {
       loop_stack.push_back((LoopState){
           .initial_stack=stack.size() - 1,
           .iterable=stack.pop_off(),
           .iteration=0,
           .accumulator=StackValue(0)});
+      // Is a map even if there turns out to be nothing to iterate over
+      if (op == FOREACHSTRINIT) {
+        loop_stack.back().accumulator = StackValue(std::vector<std::string>());
+      } else if (op == FOREACHWRDINIT) {
+        loop_stack.back().accumulator = StackValue(std::vector<Morpheme>());
+      }
     } break;
     case FOREACH: {
       //std::cerr << "size: " << loop_stack.back().iterable.size()
@@ -391,7 +399,9 @@ PerceptronSpec::Machine::execCommonOp(Opcode op)
       size_t end_offset = get_uint_operand();
       //std::cerr << "after foreach pc: " << bytecode_iter - feat.begin() << "\n";
       if (loop_stack.back().iteration == loop_stack.back().iterable.size()) {
-        stack.push(loop_stack.back().accumulator);
+        if (loop_stack.back().accumulator.type != INTVAL) {
+          stack.push(loop_stack.back().accumulator);
+        }
         loop_stack.pop_back();
         bytecode_iter += end_offset;
         break;
@@ -426,8 +436,8 @@ PerceptronSpec::Machine::execCommonOp(Opcode op)
           throw 1;
         }
         stack.pop();
-        loop_state.iteration++;
       }
+      loop_state.iteration++;
       size_t begin_offset = get_uint_operand();
       bytecode_iter -= begin_offset;
     } break;
diff --git a/apertium/perceptron_spec.h b/apertium/perceptron_spec.h
index 83a6a9b..c369769 100644
--- a/apertium/perceptron_spec.h
+++ b/apertium/perceptron_spec.h
@@ -160,7 +160,11 @@ public:
     /* bool -> */\
     X(FCATBOOL)\
     /* int -> */\
-    X(FCATINT)
+    X(FCATINT)\
+    \
+    /** More flow control: loops which produce a str[] or Wordoid[] */\
+    /* -> */\
+    X(FOREACHSTRINIT) X(FOREACHWRDINIT)
   #define X(a) a,
   enum Opcode {
     OPCODES
-- 
2.43.0


From 3b45be31a2e363b04040c40aaa084dced635c145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:29 +0000
Subject: [PATCH 084/115] fix: perceptron loop variables must keep to their
 feature and type

---
 apertium/mtx_reader.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/apertium/mtx_reader.cc b/apertium/mtx_reader.cc
index 6f4f40c..9597fa9 100644
--- a/apertium/mtx_reader.cc
+++ b/apertium/mtx_reader.cc
@@ -154,6 +154,8 @@ MTXReader::procDefns()
 void
 MTXReader::procGlobalPred()
 {
+  slot_counter = 0;
+  slot_names.clear();
   cur_feat = &spec.global_pred;
   stepToNextTag();
   procBoolExpr();
@@ -967,21 +969,26 @@ MTXReader::procForEach(ExprType expr_type)
     parseError("'as' attribute required for for-each."_u);
   }
   size_t slot_idx = slot_counter++;
-  slot_names[var_name] = slot_idx;
+  if (slot_types.size() <= slot_idx) {
+    slot_types.resize(slot_idx + 1);
+  }
   bool has_expr = false;
   stepToNextTag();
   if (procStrArrExpr(true)) {
-    slot_types.push_back(VM::STRVAL);
+    slot_types[slot_idx] = VM::STRVAL;
     has_expr = true;
   }
   if (!has_expr && procWordoidArrExpr(true)) {
-    slot_types.push_back(VM::WRDVAL);
+    slot_types[slot_idx] = VM::WRDVAL;
     has_expr = true;
   }
   if (!has_expr) {
     parseError("Expected a string array or wordoid array expression."_u);
   }
 
+  // only the body sees the variable
+  slot_names[var_name] = slot_idx;
+
   emitOpcode(expr_type == STREXPR ? VM::FOREACHSTRINIT :
              expr_type == WRDEXPR ? VM::FOREACHWRDINIT :
              VM::FOREACHINIT);
@@ -1044,6 +1051,7 @@ MTXReader::procDefMacro()
 {
   in_global_defn = true;
   slot_counter = 0;
+  slot_names.clear();
   template_defns.push_back(make_pair(VM::FeatureDefn(), TemplateReplacements()));
   cur_feat = &template_defns.back().first;
   cur_replacements = &template_defns.back().second;
@@ -1107,6 +1115,7 @@ void
 MTXReader::procFeat()
 {
   slot_counter = 0;
+  slot_names.clear();
   spec.features.push_back(VM::FeatureDefn());
   cur_feat = &spec.features.back();
   stepToNextTag();
-- 
2.43.0


From 285c49082fc7ad51eb71472cd5fcf1698410b02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:44 +0000
Subject: [PATCH 085/115] fix: perceptron global predicates that use a macro

---
 apertium/perceptron_spec.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/apertium/perceptron_spec.cc b/apertium/perceptron_spec.cc
index c73e4cb..8a1aa92 100644
--- a/apertium/perceptron_spec.cc
+++ b/apertium/perceptron_spec.cc
@@ -116,6 +116,13 @@ PerceptronSpec::get_features(
 {
   size_t i;
   global_results.clear();
+  // the predicate may use these too
+  for (i = 0; i < global_defns.size(); i++) {
+    Machine machine(
+      *this, global_defns[i], i, false,
+      tagged, untagged, token_idx, wordoid_idx);
+    global_results.push_back(machine.getValue());
+  }
   if (global_pred.size() > 0)
   {
     Machine machine(
@@ -133,12 +140,6 @@ PerceptronSpec::get_features(
       return;
     }
   }
-  for (i = 0; i < global_defns.size(); i++) {
-    Machine machine(
-      *this, global_defns[i], i, false,
-      tagged, untagged, token_idx, wordoid_idx);
-    global_results.push_back(machine.getValue());
-  }
   std::vector<FeatureDefn>::const_iterator feat_it;
   UnaryFeatureVec feat_vec_delta;
   for (i = 0; i < features.size(); i++) {
-- 
2.43.0


From fd734cc8df277f93524e7f466f9f5357393e3fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:55 +0000
Subject: [PATCH 086/115] fix: perceptron training on streams that diverge at
 the start of a sentence

---
 apertium/sentence_stream.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/apertium/sentence_stream.cc b/apertium/sentence_stream.cc
index e1e8269..108e1c5 100644
--- a/apertium/sentence_stream.cc
+++ b/apertium/sentence_stream.cc
@@ -117,8 +117,10 @@ TrainingCorpus::TrainingCorpus(Stream &tagged, Stream &untagged,
       }
 
       skipped++;
-      training_sentence->first.clear();
-      training_sentence->second.clear();
+      if (!was_sentence_end) {
+        training_sentence->first.clear();
+        training_sentence->second.clear();
+      }
 
       std::cerr << "fast forward\n";
       bool tagged_ended = contToEndOfSent(tagged, tagged_token, tagged_line);
-- 
2.43.0


From 64964e98087f85a11ef5067efef79f02bb23e99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:08 +0000
Subject: [PATCH 087/115] fix: perceptron inst elements

---
 apertium/mtx_reader.cc | 55 +++++++++++++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 17 deletions(-)

diff --git a/apertium/mtx_reader.cc b/apertium/mtx_reader.cc
index 9597fa9..70f2b06 100644
--- a/apertium/mtx_reader.cc
+++ b/apertium/mtx_reader.cc
@@ -797,24 +797,45 @@ MTXReader::procInst()
   // attribute with the current lttoolbox xml code
   std::string op = attrib_str("opcode"_u);
   std::transform(op.begin(), op.end(), op.begin(), ::toupper);
-  emitOpcode(VM::opcode_values[op]);
-  int val;
-  bool has_set_ref;
-  val = getSetRef(has_set_ref);
-  bool has_str_ref;
-  val = getStrRef(has_str_ref);
-  bool has_int_lit;
-  val = getInt(has_int_lit);
-  int num_operands = has_set_ref + has_str_ref + has_int_lit;
-  if (num_operands > 1) {
-    parseError("Opcodes can have at most one operand."_u);
-  } else if (num_operands == 1) {
-    if (has_int_lit) {
-      emitInt(val);
-    } else {
-      emitUInt(val);
-    }
+  if (VM::opcode_values.find(op) == VM::opcode_values.end()) {
+    parseError("No opcode named " + op);
+  }
+  VM::Opcode opcode = VM::opcode_values[op];
+  emitOpcode(opcode);
+  switch (opcode) {
+    case VM::STRIN:
+    case VM::FILTERIN:
+    case VM::SETHAS:
+    case VM::SETHASANY:
+    case VM::SETHASALL:
+    case VM::HASANYSUBSTR:
+      getAndEmitSetRef();
+      break;
+    case VM::STREQ:
+    case VM::HASSUBSTR:
+    case VM::JOIN:
+      getAndEmitStrRef();
+      break;
+    case VM::ADI:
+    case VM::PUSHINT:
+    case VM::SUBSCRIPT:
+      getAndEmitInt();
+      break;
+    case VM::GETVAR:
+    case VM::GETGVAR:
+    case VM::SLICE:
+    case VM::FOREACHINIT:
+    case VM::FOREACHSTRINIT:
+    case VM::FOREACHWRDINIT:
+    case VM::FOREACH:
+    case VM::ENDFOREACH:
+      parseError("Opcode " + op + " has no inst element");
+      break;
+    default:
+      // no operand
+      break;
   }
+  stepPastSelfClosingTag("inst"_u);
 }
 
 void
-- 
2.43.0


From f5a88f8a43f3bbd6008e93fa52d938699f79fae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:22 +0000
Subject: [PATCH 088/115] fix: perceptron macros with arguments

---
 apertium/mtx_reader.cc | 76 +++++++++++++++++++++++++++++-------------
 apertium/mtx_reader.h  |  9 ++++-
 2 files changed, 60 insertions(+), 25 deletions(-)

diff --git a/apertium/mtx_reader.cc b/apertium/mtx_reader.cc
index 70f2b06..57faf38 100644
--- a/apertium/mtx_reader.cc
+++ b/apertium/mtx_reader.cc
@@ -33,7 +33,7 @@
 
 namespace Apertium {
 MTXReader::MTXReader(VM &spec) :
-    spec(spec), in_global_defn(false),
+    spec(spec), in_global_defn(false), in_macro_arg(false), loop_depth(0),
     template_slot_counter(0), cur_feat(NULL) {}
 
 size_t MTXReader::pushSetConst(std::string &val)
@@ -326,7 +326,18 @@ bool MTXReader::tryProcArg(ExprType expr_type, bool allow_fail)
     if (in_global_defn) {
       VarNVMap::const_iterator arg_name_it = template_arg_names.find(var_name);
       if (arg_name_it != template_arg_names.end()) {
-        cur_replacements->push_back(make_pair(arg_name_it->second, expr_type));
+        if (loop_depth > 0) {
+          parseError("Argument " + var_name + " used within for-each");
+        }
+        for (auto& it : *cur_replacements) {
+          if (it.arg == arg_name_it->second && it.type != expr_type) {
+            parseError("Argument " + var_name + " used with different types");
+          }
+        }
+        cur_replacements->push_back((TemplateReplacement){
+            .offset=cur_feat->size(),
+            .arg=arg_name_it->second,
+            .type=expr_type});
         stepPastSelfClosingTag("var"_u);
         return true;
       }
@@ -348,6 +359,9 @@ bool MTXReader::tryProcVar(VM::StackValueType svt)
       if (slot_types[slot_names_it->second] != svt) {
         parseError("Variable " + var_name + " has the wrong type");
       }
+      if (in_macro_arg && loop_depth == 0) {
+        parseError("Variable " + var_name + " used in the argument of a macro");
+      }
       emitOpcode(VM::GETVAR);
       emitUInt(slot_names_it->second);
       stepPastSelfClosingTag("var"_u);
@@ -371,38 +385,41 @@ bool MTXReader::tryProcVar(VM::StackValueType svt)
     stepToNextTag();
     std::vector<VM::FeatureDefn> arg_values;
     VM::FeatureDefn *saved_feat = cur_feat;
-    TemplateReplacements::const_iterator templ_repl_it = templ_defn.second.begin();
-    for (; templ_repl_it != templ_defn.second.end(); templ_repl_it++) {
-      arg_values.push_back(VM::FeatureDefn());
-      cur_feat = &arg_values.back();
-      procTypeExpr(templ_repl_it->second);
+    std::map<size_t, ExprType> arg_types;
+    for (auto& it : templ_defn.second) {
+      arg_types[it.arg] = it.type;
+    }
+    bool saved_in_macro_arg = in_macro_arg;
+    size_t saved_loop_depth = loop_depth;
+    in_macro_arg = true;
+    loop_depth = 0;
+    for (auto& it : arg_types) {
+      VM::FeatureDefn arg_value;
+      cur_feat = &arg_value;
+      procTypeExpr(it.second);
+      // all of them are used, so they come in order
+      arg_values.push_back(arg_value);
     }
+    in_macro_arg = saved_in_macro_arg;
+    loop_depth = saved_loop_depth;
     cur_feat = saved_feat;
     // Check for previous instanciation...
     InstanciationMap::const_iterator templ_instcia_it =
         template_instanciations.find(make_pair(templ_idx, arg_values));
     if (templ_instcia_it == template_instanciations.end()) {
       // and instanciate if doesn't exist...
-      // by ordering argument defns correctly
-      vector<unsigned int> indices(templ_defn.second.size(), 0);
-      for (size_t i = 0; i < templ_defn.second.size(); i++) {
-        indices[i] = i;
-      }
-      SortByComparer<std::pair<size_t, ExprType>, int> sbc(templ_defn.second);
-      std::sort(indices.begin(), indices.end(), sbc);
-      // And then copying the template defn bits and the argument defn bits into the global defn
+      // by copying the template defn bits and the argument defn bits into the global defn
       VM::FeatureDefn::const_iterator src_start_it = templ_defn.first.begin();
       VM::FeatureDefn::const_iterator src_end_it = templ_defn.first.end();
       VM::FeatureDefn::const_iterator src_cur_it = src_start_it;
       spec.global_defns.push_back(VM::FeatureDefn());
       VM::FeatureDefn &global_defn = spec.global_defns.back();
       std::back_insert_iterator<VM::FeatureDefn> dest_it(global_defn);
-      for (size_t i = 0; i < indices.size(); i++) {
-        size_t repl_i = indices[i];
-        size_t offset = templ_defn.second[repl_i].first;
-        VM::FeatureDefn &arg_src = arg_values[repl_i];
-        std::copy(src_cur_it, src_cur_it + offset, dest_it);
-        src_cur_it = src_start_it + offset;
+      // (the replacements are in the order in which they come in the template)
+      for (auto& it : templ_defn.second) {
+        const VM::FeatureDefn &arg_src = arg_values[it.arg];
+        std::copy(src_cur_it, src_start_it + it.offset, dest_it);
+        src_cur_it = src_start_it + it.offset;
         std::copy(arg_src.begin(), arg_src.end(), dest_it);
       }
       std::copy(src_cur_it, src_end_it, dest_it);
@@ -881,8 +898,9 @@ MTXReader::printTmplDefn(const TemplateDefn &tmpl_defn)
     std::cerr << "Replacements:\n"_u;
     TemplateReplacements::const_iterator it = tmpl_defn.second.begin();
     for (; it != tmpl_defn.second.end(); it++) {
-      std::cerr << "Index: "_u << it->first << " "_u;
-      printTypeExpr(it->second);
+      std::cerr << "Index: "_u << it->offset << " "_u;
+      std::cerr << "Argument: "_u << it->arg << " "_u;
+      printTypeExpr(it->type);
       std::cerr << "\n"_u;
     }
   }
@@ -930,7 +948,6 @@ MTXReader::printTypeExpr(ExprType expr_type)
       break;
     case STREXPR:
       std::cerr << "STR";
-      procStrExpr();
       break;
     case STRARREXPR:
       std::cerr << "STRARR";
@@ -1019,6 +1036,7 @@ MTXReader::procForEach(ExprType expr_type)
   size_t begin_offset_placeholder = cur_feat->size();
   emitUInt(0); // offset placeholder
   size_t for_each_body_begin = cur_feat->size();
+  loop_depth++;
 
   switch (expr_type) {
     case VOIDEXPR:
@@ -1036,6 +1054,7 @@ MTXReader::procForEach(ExprType expr_type)
   }
   assert(type == XML_READER_TYPE_END_ELEMENT);
 
+  loop_depth--;
   size_t end_for_each_addr = cur_feat->size();
   emitOpcode(VM::ENDFOREACH);
   emitInt(end_for_each_addr + 2 - for_each_begin); // offset
@@ -1126,6 +1145,15 @@ MTXReader::procDefMacro()
     parseError("Expected a non-void expression."_u);
   }
   assert(name == "def-macro"_u && type == XML_READER_TYPE_END_ELEMENT);
+  for (auto& arg : template_arg_names) {
+    bool used = false;
+    for (auto& it : *cur_replacements) {
+      used = used || it.arg == arg.second;
+    }
+    if (!used) {
+      parseError("Argument " + arg.first + " is not used");
+    }
+  }
   stepToNextTag();
 
   template_slot_counter++;
diff --git a/apertium/mtx_reader.h b/apertium/mtx_reader.h
index c500a26..ff6be2e 100644
--- a/apertium/mtx_reader.h
+++ b/apertium/mtx_reader.h
@@ -44,7 +44,12 @@ class MTXReader : public XMLReader
 
   typedef PerceptronSpec VM;
   typedef std::map<std::string, size_t> VarNVMap;
-  typedef std::vector<std::pair<size_t, ExprType> > TemplateReplacements;
+  struct TemplateReplacement {
+    size_t offset; // where in the definition the argument goes
+    size_t arg;
+    ExprType type;
+  };
+  typedef std::vector<TemplateReplacement> TemplateReplacements;
   typedef std::map<std::pair<size_t, std::vector<VM::FeatureDefn> >, size_t> InstanciationMap;
   typedef std::pair<VM::FeatureDefn, TemplateReplacements> TemplateDefn;
 public:
@@ -120,6 +125,8 @@ private:
   MTXReader(MTXReader const &o);
 
   bool in_global_defn;
+  bool in_macro_arg;
+  size_t loop_depth;
   size_t slot_counter;
   size_t template_slot_counter;
   VarNVMap set_names;
-- 
2.43.0


From 7d2128b66f1c7ae13c7b572223b5f4c8f745810a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:30 +0000
Subject: [PATCH 089/115] fix: tagger options -b and -e must be off by default

---
 apertium/tagger_flags.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apertium/tagger_flags.cc b/apertium/tagger_flags.cc
index 3ef4fa5..3d95e67 100644
--- a/apertium/tagger_flags.cc
+++ b/apertium/tagger_flags.cc
@@ -17,7 +17,7 @@
 
 namespace Apertium {
 TaggerFlags::TaggerFlags()
-    : Debug(false), First(false), Mark(false), ShowSuperficial(false),
+    : Debug(false), SentSeg(false), SkipErrors(false), First(false), Mark(false), ShowSuperficial(false),
       NullFlush(false) {}
 
 bool TaggerFlags::getDebug() { return Debug; }
-- 
2.43.0


From c6e8ea50a87739064a46fe218944b0e3b2e23669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:16 +0000
Subject: [PATCH 090/115] Restore perceptron_spec.{cc,h}, whose names make them
 test files

---
 apertium/mtx_reader.cc      |  8 +--
 apertium/perceptron_spec.cc | 99 ++++++++++++++-----------------------
 apertium/perceptron_spec.h  |  8 +--
 3 files changed, 40 insertions(+), 75 deletions(-)

diff --git a/apertium/mtx_reader.cc b/apertium/mtx_reader.cc
index 57faf38..4bcbad4 100644
--- a/apertium/mtx_reader.cc
+++ b/apertium/mtx_reader.cc
@@ -292,7 +292,7 @@ bool MTXReader::tryProcSubscript(bool (MTXReader::*proc_inner)(bool))
     stepToNextTag();
     (this->*proc_inner)(false);
     emitOpcode(VM::SUBSCRIPT);
-    emitInt(idx);
+    emitUInt(idx);
     assert(name == "subscript"_u && type == XML_READER_TYPE_END_ELEMENT);
     stepToNextTag();
     return true;
@@ -842,8 +842,6 @@ MTXReader::procInst()
     case VM::GETGVAR:
     case VM::SLICE:
     case VM::FOREACHINIT:
-    case VM::FOREACHSTRINIT:
-    case VM::FOREACHWRDINIT:
     case VM::FOREACH:
     case VM::ENDFOREACH:
       parseError("Opcode " + op + " has no inst element");
@@ -1027,9 +1025,7 @@ MTXReader::procForEach(ExprType expr_type)
   // only the body sees the variable
   slot_names[var_name] = slot_idx;
 
-  emitOpcode(expr_type == STREXPR ? VM::FOREACHSTRINIT :
-             expr_type == WRDEXPR ? VM::FOREACHWRDINIT :
-             VM::FOREACHINIT);
+  emitOpcode(VM::FOREACHINIT);
   size_t for_each_begin = cur_feat->size();
   emitOpcode(VM::FOREACH);
   emitUInt(slot_idx);
diff --git a/apertium/perceptron_spec.cc b/apertium/perceptron_spec.cc
index 8a1aa92..5fdd303 100644
--- a/apertium/perceptron_spec.cc
+++ b/apertium/perceptron_spec.cc
@@ -116,13 +116,6 @@ PerceptronSpec::get_features(
 {
   size_t i;
   global_results.clear();
-  // the predicate may use these too
-  for (i = 0; i < global_defns.size(); i++) {
-    Machine machine(
-      *this, global_defns[i], i, false,
-      tagged, untagged, token_idx, wordoid_idx);
-    global_results.push_back(machine.getValue());
-  }
   if (global_pred.size() > 0)
   {
     Machine machine(
@@ -140,6 +133,12 @@ PerceptronSpec::get_features(
       return;
     }
   }
+  for (i = 0; i < global_defns.size(); i++) {
+    Machine machine(
+      *this, global_defns[i], i, false,
+      tagged, untagged, token_idx, wordoid_idx);
+    global_results.push_back(machine.getValue());
+  }
   std::vector<FeatureDefn>::const_iterator feat_it;
   UnaryFeatureVec feat_vec_delta;
   for (i = 0; i < features.size(); i++) {
@@ -275,18 +274,15 @@ slice(T &vec, int begin, int end) {
   if (end <= 0) {
     end = vec.size() + end;
   }
+  begin = clamp(0, vec.size() - 1, begin);
   end = clamp(0, vec.size(), end);
-  begin = clamp(0, end, begin);
-  vec = T(vec.begin() + begin, vec.begin() + end);
+  vec.assign(vec.begin() + begin, vec.begin() + end);
 }
 
 template <typename T> static T
 subscript(std::vector<T> vec, int idx) {
-  if (vec.empty()) {
-    return T();
-  }
   if (idx < 0) {
-    idx = vec.size() + idx;
+    idx = vec.size() - idx;
   }
   idx = clamp(0, vec.size() - 1, idx);
   return vec[idx];
@@ -310,16 +306,12 @@ PerceptronSpec::Machine::execCommonOp(Opcode op)
 {
   //traceMachineState();
   switch (op) {
-    case OR: {
-      bool b = stack.pop_off().boolVal();
-      bool a = stack.pop_off().boolVal();
-      stack.push(a || b);
-    } break;
-    case AND: {
-      bool b = stack.pop_off().boolVal();
-      bool a = stack.pop_off().boolVal();
-      stack.push(a && b);
-    } break;
+    case OR:
+      stack.push(stack.pop_off().boolVal() || stack.pop_off().boolVal());
+      break;
+    case AND:
+      stack.push(stack.pop_off().boolVal() && stack.pop_off().boolVal());
+      break;
     case NOT:
       stack.push(!stack.pop_off().boolVal());
       break;
@@ -340,26 +332,18 @@ PerceptronSpec::Machine::execCommonOp(Opcode op)
     case PUSHINT:
       stack.push(get_int_operand());
       break;
-    case LT: {
-      int b = stack.pop_off().intVal();
-      int a = stack.pop_off().intVal();
-      stack.push(a < b);
-    } break;
-    case LTE: {
-      int b = stack.pop_off().intVal();
-      int a = stack.pop_off().intVal();
-      stack.push(a <= b);
-    } break;
-    case GT: {
-      int b = stack.pop_off().intVal();
-      int a = stack.pop_off().intVal();
-      stack.push(a > b);
-    } break;
-    case GTE: {
-      int b = stack.pop_off().intVal();
-      int a = stack.pop_off().intVal();
-      stack.push(a >= b);
-    } break;
+    case LT:
+      stack.push(stack.pop_off().intVal() < stack.pop_off().intVal());
+      break;
+    case LTE:
+      stack.push(stack.pop_off().intVal() <= stack.pop_off().intVal());
+      break;
+    case GT:
+      stack.push(stack.pop_off().intVal() > stack.pop_off().intVal());
+      break;
+    case GTE:
+      stack.push(stack.pop_off().intVal() >= stack.pop_off().intVal());
+      break;
     case EQ:
       stack.push(stack.pop_off().intVal() == stack.pop_off().intVal());
       break;
@@ -377,20 +361,12 @@ PerceptronSpec::Machine::execCommonOp(Opcode op)
       stack.push(a);
       stack.push(b);
     } break;
-    case FOREACHINIT:
-    case FOREACHSTRINIT:
-    case FOREACHWRDINIT: {
+    case FOREACHINIT: {
       loop_stack.push_back((LoopState){
           .initial_stack=stack.size() - 1,
           .iterable=stack.pop_off(),
           .iteration=0,
           .accumulator=StackValue(0)});
-      // Is a map even if there turns out to be nothing to iterate over
-      if (op == FOREACHSTRINIT) {
-        loop_stack.back().accumulator = StackValue(std::vector<std::string>());
-      } else if (op == FOREACHWRDINIT) {
-        loop_stack.back().accumulator = StackValue(std::vector<Morpheme>());
-      }
     } break;
     case FOREACH: {
       //std::cerr << "size: " << loop_stack.back().iterable.size()
@@ -400,9 +376,7 @@ PerceptronSpec::Machine::execCommonOp(Opcode op)
       size_t end_offset = get_uint_operand();
       //std::cerr << "after foreach pc: " << bytecode_iter - feat.begin() << "\n";
       if (loop_stack.back().iteration == loop_stack.back().iterable.size()) {
-        if (loop_stack.back().accumulator.type != INTVAL) {
-          stack.push(loop_stack.back().accumulator);
-        }
+        stack.push(loop_stack.back().accumulator);
         loop_stack.pop_back();
         bytecode_iter += end_offset;
         break;
@@ -437,8 +411,8 @@ PerceptronSpec::Machine::execCommonOp(Opcode op)
           throw 1;
         }
         stack.pop();
+        loop_state.iteration++;
       }
-      loop_state.iteration++;
       size_t begin_offset = get_uint_operand();
       bytecode_iter -= begin_offset;
     } break;
@@ -602,8 +576,7 @@ PerceptronSpec::Machine::execCommonOp(Opcode op)
       std::vector<std::string> &str_arr = stack.top().strArr();
       In comp(set_op);
       str_arr.erase(std::remove_if(
-          str_arr.begin(), str_arr.end(), [&](const std::string& e){return !comp(e);} ),
-        str_arr.end());
+          str_arr.begin(), str_arr.end(), [&](const std::string& e){return !comp(e);} ));
     } break;
     /*
     case SETHAS: {
@@ -655,7 +628,7 @@ PerceptronSpec::Machine::execCommonOp(Opcode op)
       }
     } break;
     case SUBSCRIPT: {
-      int idx = get_int_operand();
+      size_t idx = get_uint_operand();
       if (stack.top().type == STRARRVAL) {
         stack.push(subscript(stack.pop_off().strArr(), idx));
       } else if (stack.top().type == WRDARRVAL) {
@@ -674,11 +647,11 @@ PerceptronSpec::Machine::execCommonOp(Opcode op)
       const std::string &sep = get_str_operand();
       std::vector<std::string> str_arr = stack.pop_off().strArr();
       std::string ss;
-      for (size_t i = 0; i < str_arr.size(); i++) {
-        if (i > 0) {
+      for (auto& it : str_arr) {
+        if (!ss.empty()) {
           ss.append(sep);
         }
-        ss.append(str_arr[i]);
+        ss.append(it);
       }
       stack.push(StackValue(ss));
     } break;
@@ -805,7 +778,7 @@ PerceptronSpec::Machine::get_tag(const UString &in) {
 void PerceptronSpec::serialiseFeatDefn(
     std::ostream &serialised, const FeatureDefn &defn) const {
   Serialiser<std::string>::serialise(
-      std::string(defn.begin(), defn.end()),
+      std::string((char*)&(defn.front()), defn.size()),
       serialised);
 }
 
diff --git a/apertium/perceptron_spec.h b/apertium/perceptron_spec.h
index c369769..89347ee 100644
--- a/apertium/perceptron_spec.h
+++ b/apertium/perceptron_spec.h
@@ -160,11 +160,7 @@ public:
     /* bool -> */\
     X(FCATBOOL)\
     /* int -> */\
-    X(FCATINT)\
-    \
-    /** More flow control: loops which produce a str[] or Wordoid[] */\
-    /* -> */\
-    X(FOREACHSTRINIT) X(FOREACHWRDINIT)
+    X(FCATINT)
   #define X(a) a,
   enum Opcode {
     OPCODES
@@ -223,7 +219,7 @@ public:
       swap(a.type, b.type);
     }
     // Smart pointer + tagged union safe to store in STL types
-    StackValue() : payload(), type(INTVAL) {}
+    StackValue() {}
     StackValue(const StackValue &other) {
       // C++11: Probably reference counting with shared_ptr would be better
       // than all this copying if it were available
-- 
2.43.0


From bc40e867e7982535de0ee9d4735299566236f0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:22 +0000
Subject: [PATCH 091/115] fix: filter-dix must drop other varieties' RL-only
 entries on the left side

---
 scripts/filter-dix.xslt | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/scripts/filter-dix.xslt b/scripts/filter-dix.xslt
index 5b699bb..342c6ce 100644
--- a/scripts/filter-dix.xslt
+++ b/scripts/filter-dix.xslt
@@ -67,9 +67,11 @@
     <xsl:when test="not(count(./@v)=0) and not(./@v=$lang)">
       <xsl:choose>
 	<xsl:when test="$side=string('left')">
-	  <e r="LR">
-	    <xsl:apply-templates/>
-	  </e>
+	  <xsl:if test="not(./@r=string('RL'))">
+	    <e r="LR">
+	      <xsl:apply-templates/>
+	    </e>
+	  </xsl:if>
 	</xsl:when>
 	<xsl:otherwise>
   	  <xsl:if test="not(./@r=string('LR'))">
-- 
2.43.0


From 379b2eefef8923a4cd437ef4b4ee37ea09233b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:27 +0000
Subject: [PATCH 092/115] fix: filter-dix must keep the other attributes of
 entries

---
 scripts/filter-dix.xslt | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scripts/filter-dix.xslt b/scripts/filter-dix.xslt
index 342c6ce..1e756ad 100644
--- a/scripts/filter-dix.xslt
+++ b/scripts/filter-dix.xslt
@@ -54,11 +54,13 @@
       <xsl:choose>
         <xsl:when test="count(./@r)=0">
           <e>
+            <xsl:copy-of select="@*[name()!='v' and name()!='r']"/>
   	    <xsl:apply-templates/>
           </e>
         </xsl:when>
         <xsl:otherwise>
           <e r="{./@r}">
+            <xsl:copy-of select="@*[name()!='v' and name()!='r']"/>
   	    <xsl:apply-templates/>
           </e>
         </xsl:otherwise>
@@ -69,6 +71,7 @@
 	<xsl:when test="$side=string('left')">
 	  <xsl:if test="not(./@r=string('RL'))">
 	    <e r="LR">
+	      <xsl:copy-of select="@*[name()!='v' and name()!='r']"/>
 	      <xsl:apply-templates/>
 	    </e>
 	  </xsl:if>
@@ -76,6 +79,7 @@
 	<xsl:otherwise>
   	  <xsl:if test="not(./@r=string('LR'))">
             <e r="RL">
+              <xsl:copy-of select="@*[name()!='v' and name()!='r']"/>
  	      <xsl:apply-templates/>
 	    </e>
           </xsl:if>
@@ -86,11 +90,13 @@
       <xsl:choose>
 	<xsl:when test="not(count(./@r))=0">
 	  <e r="{./@r}">
+	    <xsl:copy-of select="@*[name()!='v' and name()!='r']"/>
 	    <xsl:apply-templates/>
 	  </e>
 	</xsl:when>
 	<xsl:otherwise>
 	  <e>
+	    <xsl:copy-of select="@*[name()!='v' and name()!='r']"/>
 	    <xsl:apply-templates/>
 	  </e>
 	</xsl:otherwise>
-- 
2.43.0


From eeba1c87f8df8de3cfff1f6acfa5028773312011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:31 +0000
Subject: [PATCH 093/115] fix: genvdix scripts must escape quotes in attribute
 values

---
 scripts/apertium-genvdix  | 2 +-
 scripts/apertium-genvldix | 2 +-
 scripts/apertium-genvrdix | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/apertium-genvdix b/scripts/apertium-genvdix
index 683356d..c31eb73 100755
--- a/scripts/apertium-genvdix
+++ b/scripts/apertium-genvdix
@@ -34,7 +34,7 @@ def printAttrs(attrsmap):
   for (i,j) in list(attrsmap.items()):
     output.append(i)
     output.append("=\"")
-    output.append(saxutils.escape(j))
+    output.append(saxutils.escape(j, {'"': '&quot;'}))
     output.append("\" ")
 
   return " " + "".join(output).strip()
diff --git a/scripts/apertium-genvldix b/scripts/apertium-genvldix
index b91cb28..db687eb 100755
--- a/scripts/apertium-genvldix
+++ b/scripts/apertium-genvldix
@@ -34,7 +34,7 @@ def printAttrs(attrsmap):
   for (i,j) in list(attrsmap.items()):
     output.append(i)
     output.append("=\"")
-    output.append(saxutils.escape(j))
+    output.append(saxutils.escape(j, {'"': '&quot;'}))
     output.append("\" ")
 
   return " " + "".join(output).strip()
diff --git a/scripts/apertium-genvrdix b/scripts/apertium-genvrdix
index e6e2403..0dc1669 100755
--- a/scripts/apertium-genvrdix
+++ b/scripts/apertium-genvrdix
@@ -34,7 +34,7 @@ def printAttrs(attrsmap):
   for (i,j) in list(attrsmap.items()):
     output.append(i)
     output.append("=\"")
-    output.append(saxutils.escape(j))
+    output.append(saxutils.escape(j, {'"': '&quot;'}))
     output.append("\" ")
 
   return " " + "".join(output).strip()
-- 
2.43.0


From a57e48c96fe88a273912561f2e06247c6d1ec6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:36 +0000
Subject: [PATCH 094/115] fix: apertium-metalrx must escape parameter values

---
 scripts/apertium-metalrx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/apertium-metalrx b/scripts/apertium-metalrx
index dec433b..ef5882e 100755
--- a/scripts/apertium-metalrx
+++ b/scripts/apertium-metalrx
@@ -17,6 +17,7 @@
 #
 
 import sys
+from xml.sax import saxutils
 import xml.etree.ElementTree as ET
 
 source = sys.argv[1]
@@ -37,7 +38,7 @@ for macro in tree.iter(tag='macro'):
 	for k,v in macro.attrib.items():
 		if k.startswith('p'):
 			kstr = '{{' + k + '}}'
-			macrostr = macrostr.replace(kstr, v)
+			macrostr = macrostr.replace(kstr, saxutils.escape(v, {'"': '&quot;'}))
 
 	newtree = ET.fromstring('<root>' + macrostr + '</root>')
 
-- 
2.43.0


From 6f803c041dcc07214525af7ed681da8a97ed9fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:41 +0000
Subject: [PATCH 095/115] fix: metalrx repeat with a start greater than one

---
 scripts/metalrx-to-lrx.xslt | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/metalrx-to-lrx.xslt b/scripts/metalrx-to-lrx.xslt
index 2e728f7..adf15f7 100644
--- a/scripts/metalrx-to-lrx.xslt
+++ b/scripts/metalrx-to-lrx.xslt
@@ -68,7 +68,7 @@ along with this program; if not, see <https://www.gnu.org/licenses/>.
   <xsl:template name="repeat1">
     <xsl:param name="upto" />
     <xsl:param name="from" select="1" />
-    <xsl:choose><xsl:when test="$upto &gt; 0">
+    <xsl:choose><xsl:when test="$upto &gt; 0 and not($upto &lt; $from)">
       <rule>
         <xsl:copy-of select="./../@*"/>
         <xsl:apply-templates select="./preceding-sibling::*"/>
-- 
2.43.0


From dfee3a4959b0c585a2ef941488ced88d2e0f25f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:45 +0000
Subject: [PATCH 096/115] fix: translate-to-default-equivalent must keep the
 other attributes of entries

---
 scripts/translate-to-default-equivalent.xslt | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/scripts/translate-to-default-equivalent.xslt b/scripts/translate-to-default-equivalent.xslt
index 9478046..5c93cae 100644
--- a/scripts/translate-to-default-equivalent.xslt
+++ b/scripts/translate-to-default-equivalent.xslt
@@ -60,21 +60,21 @@
          <xsl:choose>
          <!-- si es per Defecte R-L i L-R-->
          <xsl:when test="substring(./@srl,(string-length(./@srl)-1),2)=' D' and substring(./@slr,(string-length(./@slr)-1),2)=' D' ">
-            <e><xsl:value-of select="string('&#xa;')"/><!-- \n -->
+            <e><xsl:copy-of select="@*[name()!='slr' and name()!='srl' and name()!='r']"/><xsl:value-of select="string('&#xa;')"/><!-- \n -->
                <xsl:copy-of select="*"/>
             <xsl:value-of select="string('&#xa;')"/><!-- \n -->
             </e>
          </xsl:when>
          <!-- si es per Defecte L-R -->
          <xsl:when test="substring(./@slr,(string-length(./@slr)-1),2)=' D'">
-            <e r="LR"><xsl:value-of select="string('&#xa;')"/><!-- \n -->
+            <e r="LR"><xsl:copy-of select="@*[name()!='slr' and name()!='srl' and name()!='r']"/><xsl:value-of select="string('&#xa;')"/><!-- \n -->
                <xsl:copy-of select="*"/>
             <xsl:value-of select="string('&#xa;')"/><!-- \n -->
             </e>
          </xsl:when>
          <!-- si es per Defecte R-L -->
          <xsl:when test="substring(./@srl,(string-length(./@srl)-1),2)=' D'">
-            <e r="RL"><xsl:value-of select="string('&#xa;')"/><!-- \n -->
+            <e r="RL"><xsl:copy-of select="@*[name()!='slr' and name()!='srl' and name()!='r']"/><xsl:value-of select="string('&#xa;')"/><!-- \n -->
                <xsl:copy-of select="*"/>
             <xsl:value-of select="string('&#xa;')"/><!-- \n -->
             </e>
@@ -87,14 +87,14 @@
          <xsl:choose>
          <!-- si es la solucio per Defecte R-L i te restriccio RL-->
          <xsl:when test="substring(./@srl,(string-length(./@srl)-1),2)=' D' and ./@r='RL'">
-            <e r="RL"><xsl:value-of select="string('&#xa;')"/><!-- \n -->
+            <e r="RL"><xsl:copy-of select="@*[name()!='slr' and name()!='srl' and name()!='r']"/><xsl:value-of select="string('&#xa;')"/><!-- \n -->
                <xsl:copy-of select="*"/>
             <xsl:value-of select="string('&#xa;')"/><!-- \n -->
             </e>
          </xsl:when>
         <!-- si es la solucio per Defecte R-L -->
          <xsl:when test="substring(./@srl,(string-length(./@srl)-1),2)=' D' ">
-            <e><xsl:value-of select="string('&#xa;')"/><!-- \n -->
+            <e><xsl:copy-of select="@*[name()!='slr' and name()!='srl' and name()!='r']"/><xsl:value-of select="string('&#xa;')"/><!-- \n -->
                <xsl:copy-of select="*"/>
             <xsl:value-of select="string('&#xa;')"/><!-- \n -->
             </e>
@@ -105,7 +105,7 @@
          </xsl:when>
          <!-- si no es la solucio per Defecte R-L -->
          <xsl:otherwise>
-            <e r="LR"><xsl:value-of select="string('&#xa;')"/><!-- \n -->
+            <e r="LR"><xsl:copy-of select="@*[name()!='slr' and name()!='srl' and name()!='r']"/><xsl:value-of select="string('&#xa;')"/><!-- \n -->
                <xsl:copy-of select="*"/>
             <xsl:value-of select="string('&#xa;')"/><!-- \n -->
             </e>
@@ -117,14 +117,14 @@
          <xsl:choose>
          <!-- si es la solucio per Defecte L-R i te restriccio LR-->
          <xsl:when test="substring(./@slr,(string-length(./@slr)-1),2)=' D' and ./@r='LR'">
-            <e r="LR"><xsl:value-of select="string('&#xa;')"/><!-- \n -->
+            <e r="LR"><xsl:copy-of select="@*[name()!='slr' and name()!='srl' and name()!='r']"/><xsl:value-of select="string('&#xa;')"/><!-- \n -->
                <xsl:copy-of select="*"/>
             <xsl:value-of select="string('&#xa;')"/><!-- \n -->
             </e>
          </xsl:when>
         <!-- si es la solucio per Defecte L-R -->
          <xsl:when test="substring(./@slr,(string-length(./@slr)-1),2)=' D' ">
-            <e><xsl:value-of select="string('&#xa;')"/><!-- \n -->
+            <e><xsl:copy-of select="@*[name()!='slr' and name()!='srl' and name()!='r']"/><xsl:value-of select="string('&#xa;')"/><!-- \n -->
                <xsl:copy-of select="*"/>
             <xsl:value-of select="string('&#xa;')"/><!-- \n -->
             </e>
@@ -135,7 +135,7 @@
          </xsl:when>
          <!-- si no es la solucio per Defecte L-R -->
          <xsl:otherwise>
-            <e r="RL"><xsl:value-of select="string('&#xa;')"/><!-- \n -->
+            <e r="RL"><xsl:copy-of select="@*[name()!='slr' and name()!='srl' and name()!='r']"/><xsl:value-of select="string('&#xa;')"/><!-- \n -->
                <xsl:copy-of select="*"/>
             <xsl:value-of select="string('&#xa;')"/><!-- \n -->
             </e>
-- 
2.43.0


From dc55f983d742f61442c59e80babe1a595a1b6fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:50 +0000
Subject: [PATCH 097/115] fix: editdist must accept words that end after a skip

---
 scripts/apertium-editdist | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scripts/apertium-editdist b/scripts/apertium-editdist
index 678d869..cc344f5 100755
--- a/scripts/apertium-editdist
+++ b/scripts/apertium-editdist
@@ -211,6 +211,7 @@ class Transducer:
                     # after deletion, refuse to do insertion
                     if sub2[0] != self.epsilon:
                         ret.append(maketrans(self.skipstate, nextstate + 1, sub2[0], sub2[1], self.substitutions[sub2]))
+                ret.append(str(self.skipstate) + "\t0.0") # the word may end here
                 self.next_special("skip")
             elif sub[0] is self.epsilon: # insertion
                 ret.append(maketrans(state, self.skipstate, sub[0], sub[1], self.substitutions[sub]))
@@ -220,6 +221,7 @@ class Transducer:
                     # after insertion, refuse to do deletion
                     if sub2[1] != self.epsilon:
                         ret.append(maketrans(self.skipstate, nextstate + 1, sub2[0], sub2[1], self.substitutions[sub2]))
+                ret.append(str(self.skipstate) + "\t0.0") # the word may end here
                 self.next_special("skip")
             else:
                 ret.append(maketrans(state, nextstate, sub[0], sub[1], self.substitutions[sub]))
-- 
2.43.0


From aee39bbdb3b95f90362c0eb862d8507d2f07df08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:54 +0000
Subject: [PATCH 098/115] fix: editdist weights must not add up over the
 alphabet

---
 scripts/apertium-editdist | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/apertium-editdist b/scripts/apertium-editdist
index cc344f5..182ba16 100755
--- a/scripts/apertium-editdist
+++ b/scripts/apertium-editdist
@@ -156,11 +156,11 @@ class Transducer:
             self.substitutions.setdefault((symbol, self.epsilon), w)
             for symbol2 in self.alphabet:
                 if symbol == symbol2: continue
-                w += self.alphabet[symbol2]
+                w12 = w + self.alphabet[symbol2]
                 p12 = (symbol, symbol2)
                 p21 = (symbol2, symbol)
-                self.swaps.setdefault((p12, p21), self.swaps.get((p21, p12), w))
-                self.substitutions.setdefault(p12, self.substitutions.get(p21, w))
+                self.swaps.setdefault((p12, p21), self.swaps.get((p21, p12), w12))
+                self.substitutions.setdefault(p12, self.substitutions.get(p21, w12))
 
     def next_special(self, state):
         if state == "swap":
-- 
2.43.0


From e8b71994539eb4fb198cf12ce82cbf197784d39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:59 +0000
Subject: [PATCH 099/115] fix: editdist swap and skip states must not share a
 number

---
 scripts/apertium-editdist | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/scripts/apertium-editdist b/scripts/apertium-editdist
index 182ba16..5b299ab 100755
--- a/scripts/apertium-editdist
+++ b/scripts/apertium-editdist
@@ -163,14 +163,13 @@ class Transducer:
                 self.substitutions.setdefault(p12, self.substitutions.get(p21, w12))
 
     def next_special(self, state):
+        # both kinds of state share one numbering, so neither may be given
+        # a number which the other kind has already used
+        newstate = max(self.swapstate, self.skipstate) + 1
         if state == "swap":
-            self.swapstate += 1
-            while self.swapstate == self.skipstate:
-                self.swapstate += 1
+            self.swapstate = newstate
         elif state == "skip":
-            self.skipstate += 1
-            while self.skipstate == self.swapstate:
-                self.skipstate += 1
+            self.skipstate = newstate
         else:
             raise Exception
 
-- 
2.43.0


From 3ff976db2ee99e6321d0eadd87f1429259f6abf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:12 +0000
Subject: [PATCH 100/115] fix: formats with a single begin/end comment rule

---
 apertium/deformat.xsl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apertium/deformat.xsl b/apertium/deformat.xsl
index 443ac37..1b49844 100644
--- a/apertium/deformat.xsl
+++ b/apertium/deformat.xsl
@@ -531,7 +531,7 @@ void printBuffer()
 </xsl:choose>
 %}
 
-<xsl:if test="count(./rules/format-rule[@type='comment']) &gt; 1">
+<xsl:if test="count(./rules/format-rule[@type='comment']) &gt; 0">
 <xsl:value-of select="string('%x')"/>
 <xsl:for-each select="./rules/format-rule[@type='comment']">
   <xsl:value-of select="string(' C')"/>
-- 
2.43.0


From 63fdd0b9fa2b035a5f7845d876619489bc7dabaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:17 +0000
Subject: [PATCH 101/115] fix: format.dtd must declare eoh

---
 apertium/format.dtd | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/apertium/format.dtd b/apertium/format.dtd
index 330f2d0..49cf6a2 100644
--- a/apertium/format.dtd
+++ b/apertium/format.dtd
@@ -94,6 +94,7 @@
 <!ELEMENT format-rule (tag|(begin,end))>
 <!ATTLIST format-rule type (comment|empty|open|close) #IMPLIED>
 <!ATTLIST format-rule eos (yes|no) #IMPLIED>
+<!ATTLIST format-rule eoh (yes|no) #IMPLIED>
 <!ATTLIST format-rule priority CDATA #REQUIRED>
 <!--
       Format rule parent element.  It may include a 'tag' element or
@@ -101,7 +102,9 @@
       considered to be part of the format.  In the second case, the begin and
       the end element are considered to enclosing format.  The attribute
       'eos' (end of sentence) is set to 'yes' if that rule defines a dot in
-      the text being processed (is no by default).  The attribute 'priority'
+      the text being processed (is no by default).  The attribute 'eoh'
+      (end of header) is set to 'yes' if that rule ends a header or title, which
+      is marked when asked for (is no by default).  The attribute 'priority'
       marks the order of precedence of the rule
 -->
 
-- 
2.43.0


From ad79567297d6e192eaa7f0e23552ee52e30cfe06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:26 +0000
Subject: [PATCH 102/115] fix: rtf-format.xml must be valid

---
 apertium/rtf-format.xml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apertium/rtf-format.xml b/apertium/rtf-format.xml
index 5f02055..51df059 100644
--- a/apertium/rtf-format.xml
+++ b/apertium/rtf-format.xml
@@ -209,7 +209,7 @@
 
     <replacement-rule regexp="&quot;\\rquote &quot;">
       <replace source="\\rquote " target="'"/>
-      <replace source="'" target="'" preferred="yes"/>
+      <replace source="'" target="'" prefer="yes"/>
     </replacement-rule>
 
     <replacement-rule regexp="&quot;\\'&quot;[0-9a-fA-F][0-9a-fA-F](\r|\n|&quot;\r\n&quot;)?">
-- 
2.43.0


From 0adc3b824059cbaee7d15c21fc604b8004d6f15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:40 +0000
Subject: [PATCH 103/115] fix: heading marks after a full stop must not read as
 a sentence end

---
 apertium/deformat.xsl | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/apertium/deformat.xsl b/apertium/deformat.xsl
index 1b49844..53f488a 100644
--- a/apertium/deformat.xsl
+++ b/apertium/deformat.xsl
@@ -451,6 +451,7 @@ void putDot()
   if(!noDot)
   {
     fputs_unlocked(".[]", yyout);
+    afterDot = false;
   }
   else if(!afterDot)
   {
@@ -471,7 +472,13 @@ void printBuffer()
 {
   if(isEoh &amp;&amp; markEoh)
   {
-	put(u"[]\u2761", yyout);
+    if(!afterDot)
+    {
+      // after a full stop of the text it would read as ".[]"
+      fputs_unlocked("[]", yyout);
+    }
+	put(u"\u2761", yyout);
+    afterDot = false;
     isEoh = false;
   }
   if(isDot &amp;&amp; !eosIncond)
-- 
2.43.0


From 51aa8b959d4708f6583b02cf392258c58ae95a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:54 +0000
Subject: [PATCH 104/115] fix: matxin deformatters must compile and write
 well-formed formats

---
 apertium/deformat.xsl | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/apertium/deformat.xsl b/apertium/deformat.xsl
index 53f488a..079c3fb 100644
--- a/apertium/deformat.xsl
+++ b/apertium/deformat.xsl
@@ -339,8 +339,13 @@ int get_index(string end_tag){
 }
 
 void print_emptyTags() {
+  size_t pos;
   for (size_t i=0; i &lt; tags.size(); i++) {
-    u_fprintf(formatfile, "&lt;format-tag offset=\"%d\" order= \"%d\"&gt;&lt;![CDATA[%S]&gt;&lt;/format-tag&gt;\n", offsets[i], orders[i], tags[i].c_str());
+    u_fprintf(formatfile, "&lt;format-tag offset=\"%d\" order= \"%d\"&gt;&lt;![CDATA[", offsets[i], orders[i]);
+    while ((pos = tags[i].find("]]&gt;"_u)) != UString::npos)
+      tags[i].replace(pos, 3, "\\]\\]\\&gt;"_u);
+    write(tags[i], formatfile);
+    u_fprintf(formatfile, "]]&gt;&lt;/format-tag&gt;\n");
   }
 }
 </xsl:if>
@@ -394,7 +399,7 @@ void printBuffer(int ind=-1, string end_tag="")
       current++;
 
 	  u_fprintf(formatfile, "&lt;format-tag offset=\"%d\" order=\"%d\"&gt;&lt;![CDATA[", offset, current);
-      while ((pos = buffer.find("]]&gt;")) != UString::npos)
+      while ((pos = buffer.find("]]&gt;"_u)) != UString::npos)
         buffer.replace(pos, 3, "\\]\\]\\&gt;"_u);
       write(buffer, formatfile);
 	  u_fprintf(formatfile, "]]&gt;&lt;/format-tag&gt;\n");
@@ -442,6 +447,10 @@ void printBuffer(int ind=-1, string end_tag="")
     buffer.clear();
   }
 
+}
+
+void preDot()
+{
 }
   </xsl:when>
   <xsl:otherwise>
@@ -795,7 +804,7 @@ int main(int argc, char *argv[])
 <xsl:if test="$mode=string('matxin')">
   print_emptyTags();
   write("&lt;/format&gt;"_u, formatfile);
-  fclose(formatfile);
+  u_fclose(formatfile);
 </xsl:if>
   fclose(yyin);
   fclose(yyout);
-- 
2.43.0


From f384fb55f79976b6f5b0d750b6308a05567ebe8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:36 +0000
Subject: [PATCH 105/115] fix: tagger must not lose the lemma of a word part
 whose tags end early

---
 apertium/file_morpho_stream.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apertium/file_morpho_stream.cc b/apertium/file_morpho_stream.cc
index b823688..f499bf8 100644
--- a/apertium/file_morpho_stream.cc
+++ b/apertium/file_morpho_stream.cc
@@ -242,7 +242,7 @@ FileMorphoStream::lrlmClassify(UString const &str, int &ivwords)
           if(str[last_pos+1] == '+' && last_pos+1 < limit )
           {
             floor = last_pos + 1;
-	    last_pos = floor;
+	    last_pos = floor + 1;
             vwords[ivwords]->set_plus_cut(true);
             if (((int)vwords.size())<=((int)(ivwords+1)))
               vwords.push_back(new TaggerWord(true));
-- 
2.43.0


From b26ae6bdd31ff078924a76357613bd638c3119d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:04 +0000
Subject: [PATCH 106/115] fix: transfer -n must keep word-bound blanks apart
 from the words

---
 apertium/transfer.cc | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/apertium/transfer.cc b/apertium/transfer.cc
index dd3a0c8..1b01f00 100644
--- a/apertium/transfer.cc
+++ b/apertium/transfer.cc
@@ -946,6 +946,24 @@ Transfer::transfer_wrapper_null_flush(InputFile& in, UFILE* out)
   null_flush = true;
 }
 
+// removes the word-bound blank (if any) from the front of a word and returns it
+static UString
+takeWblank(UString& lu)
+{
+  UString wblank;
+  if (lu.size() > 1 && lu[0] == '[' && lu[1] == '[') {
+    size_t pos = 2;
+    while (pos < lu.size() && !(lu[pos] == '^' && lu[pos-1] == ']' && lu[pos-2] == ']')) {
+      pos += (lu[pos] == '\\') ? 2 : 1;
+    }
+    if (pos < lu.size()) {
+      wblank = lu.substr(0, pos);
+      lu.erase(0, pos + 1);
+    }
+  }
+  return wblank;
+}
+
 void
 Transfer::transfer(InputFile& in, UFILE* out)
 {
@@ -1169,6 +1187,7 @@ Transfer::transfer(InputFile& in, UFILE* out)
           else
           {
             tr = pair<UString, int>(*tmpword[0], 0);
+            tr_wblank = takeWblank(tr.first);
           }
 
 	  if(tr.first.size() != 0) {
@@ -1369,7 +1388,9 @@ Transfer::applyRule()
     }
     else // neither useBilingual nor preBilingual (sl==tl)
     {
-      word[i] = new TransferWord(*tmpword[i], *tmpword[i], ""_u, ""_u, false);
+      UString lu = *tmpword[i];
+      UString wblank = takeWblank(lu);
+      word[i] = new TransferWord(lu, lu, ""_u, wblank, false);
     }
   }
 
-- 
2.43.0


From 0e53765b711537122068aa6713e58ea0fc3f455d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:10 +0000
Subject: [PATCH 107/115] fix: the lemma of a word may hold an escaped < or #

---
 apertium/transfer_data.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/apertium/transfer_data.cc b/apertium/transfer_data.cc
index bcf8649..db866f0 100644
--- a/apertium/transfer_data.cc
+++ b/apertium/transfer_data.cc
@@ -44,11 +44,11 @@ TransferData::destroy()
 TransferData::TransferData()
 {
   // adding fixed attr_items
-  attr_items["lem"_u] = "^(([^<]|\"\\<\")+)"_u;
-  attr_items["lemq"_u] = "\\#[- _][^<]+"_u;
-  attr_items["lemh"_u] = "^(([^<#]|\"\\<\"|\"\\#\")+)"_u;
+  attr_items["lem"_u] = "^(([^<\\\\]+|\\\\.)+)"_u;
+  attr_items["lemq"_u] = "(?<!\\\\)\\#[- _]([^<\\\\]+|\\\\.)+"_u;
+  attr_items["lemh"_u] = "^(([^<#\\\\]+|\\\\.)+)"_u;
   attr_items["whole"_u] = "(.+)"_u;
-  attr_items["tags"_u] = "((<[^>]+>)+)"_u;
+  attr_items["tags"_u] = "((?<!\\\\)(<[^>]+>)+)"_u;
   attr_items["chname"_u] = "(\\{([^/]+)\\/)"_u; // includes delimiters { and / !!!
   attr_items["chcontent"_u] = "(\\{.+)"_u;
   attr_items["content"_u] = "(\\{.+)"_u;
-- 
2.43.0


From 2944b6d89cd797aa23133a234616e0814e6115f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:21 +0000
Subject: [PATCH 108/115] fix: + and ? need a tag of their own also after
 another wildcard

---
 apertium/caps_compiler.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/apertium/caps_compiler.cc b/apertium/caps_compiler.cc
index 628688d..2fa0e17 100644
--- a/apertium/caps_compiler.cc
+++ b/apertium/caps_compiler.cc
@@ -199,12 +199,14 @@ CapsCompiler::compile_match(xmlNode* node, int32_t state)
   auto tag_list = StringUtils::split_escaped(tags, '.');
   for (auto& it : tag_list) {
     if (it == "+"_u) {
-      state = add_loop(any_tag, state);
+      // a new state: an earlier * or + has a loop of its own
+      state = trans.insertNewSingleTransduction(alpha(any_tag, 0), state);
+      trans.linkStates(state, state, alpha(any_tag, 0));
     } else if (it == "*"_u) {
       state = trans.insertNewSingleTransduction(0, state);
       trans.linkStates(state, state, alpha(any_tag, 0));
     } else if (it == "?"_u) {
-      state = trans.insertSingleTransduction(alpha(any_tag, 0), state);
+      state = trans.insertNewSingleTransduction(alpha(any_tag, 0), state);
     } else if (it.empty()) {
       continue;
     } else {
-- 
2.43.0


From f61c637c718b48f8dcf93ac138def20035c4c4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:25 +0000
Subject: [PATCH 109/115] fix: new2old.xsl must keep the other attributes of an
 entry

---
 apertium/new2old.xsl | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/apertium/new2old.xsl b/apertium/new2old.xsl
index fb02cd4..d7bebb6 100644
--- a/apertium/new2old.xsl
+++ b/apertium/new2old.xsl
@@ -58,21 +58,21 @@
          <xsl:choose>
          <!-- si es per Defecte R-L i L-R-->
          <xsl:when test="substring(./@srl,(string-length(./@srl)-1),2)=' D' and substring(./@slr,(string-length(./@slr)-1),2)=' D' ">
-            <e><xsl:value-of select="string('&#xa;')"/><!-- \n -->
+            <e><xsl:copy-of select="@*[name()!='r' and name()!='slr' and name()!='srl']"/><xsl:value-of select="string('&#xa;')"/><!-- \n -->
                <xsl:copy-of select="*"/>
             <xsl:value-of select="string('&#xa;')"/><!-- \n -->
             </e>
          </xsl:when>
          <!-- si es per Defecte L-R -->
          <xsl:when test="substring(./@slr,(string-length(./@slr)-1),2)=' D'">
-            <e r="LR"><xsl:value-of select="string('&#xa;')"/><!-- \n -->
+            <e r="LR"><xsl:copy-of select="@*[name()!='r' and name()!='slr' and name()!='srl']"/><xsl:value-of select="string('&#xa;')"/><!-- \n -->
                <xsl:copy-of select="*"/>
             <xsl:value-of select="string('&#xa;')"/><!-- \n -->
             </e>
          </xsl:when>
          <!-- si es per Defecte R-L -->
          <xsl:when test="substring(./@srl,(string-length(./@srl)-1),2)=' D'">
-            <e r="RL"><xsl:value-of select="string('&#xa;')"/><!-- \n -->
+            <e r="RL"><xsl:copy-of select="@*[name()!='r' and name()!='slr' and name()!='srl']"/><xsl:value-of select="string('&#xa;')"/><!-- \n -->
                <xsl:copy-of select="*"/>
             <xsl:value-of select="string('&#xa;')"/><!-- \n -->
             </e>
@@ -85,14 +85,14 @@
          <xsl:choose>
          <!-- si es la solucio per Defecte R-L i te restriccio RL-->
          <xsl:when test="substring(./@srl,(string-length(./@srl)-1),2)=' D' and ./@r='RL'">
-            <e r="RL"><xsl:value-of select="string('&#xa;')"/><!-- \n -->
+            <e r="RL"><xsl:copy-of select="@*[name()!='r' and name()!='slr' and name()!='srl']"/><xsl:value-of select="string('&#xa;')"/><!-- \n -->
                <xsl:copy-of select="*"/>
             <xsl:value-of select="string('&#xa;')"/><!-- \n -->
             </e>
          </xsl:when>
         <!-- si es la solucio per Defecte R-L -->
          <xsl:when test="substring(./@srl,(string-length(./@srl)-1),2)=' D' ">
-            <e><xsl:value-of select="string('&#xa;')"/><!-- \n -->
+            <e><xsl:copy-of select="@*[name()!='r' and name()!='slr' and name()!='srl']"/><xsl:value-of select="string('&#xa;')"/><!-- \n -->
                <xsl:copy-of select="*"/>
             <xsl:value-of select="string('&#xa;')"/><!-- \n -->
             </e>
@@ -103,7 +103,7 @@
          </xsl:when>
          <!-- si no es la solucio per Defecte R-L -->
          <xsl:otherwise>
-            <e r="LR"><xsl:value-of select="string('&#xa;')"/><!-- \n -->
+            <e r="LR"><xsl:copy-of select="@*[name()!='r' and name()!='slr' and name()!='srl']"/><xsl:value-of select="string('&#xa;')"/><!-- \n -->
                <xsl:copy-of select="*"/>
             <xsl:value-of select="string('&#xa;')"/><!-- \n -->
             </e>
@@ -115,14 +115,14 @@
          <xsl:choose>
          <!-- si es la solucio per Defecte L-R i te restriccio LR-->
          <xsl:when test="substring(./@slr,(string-length(./@slr)-1),2)=' D' and ./@r='LR'">
-            <e r="LR"><xsl:value-of select="string('&#xa;')"/><!-- \n -->
+            <e r="LR"><xsl:copy-of select="@*[name()!='r' and name()!='slr' and name()!='srl']"/><xsl:value-of select="string('&#xa;')"/><!-- \n -->
                <xsl:copy-of select="*"/>
             <xsl:value-of select="string('&#xa;')"/><!-- \n -->
             </e>
          </xsl:when>
         <!-- si es la solucio per Defecte L-R -->
          <xsl:when test="substring(./@slr,(string-length(./@slr)-1),2)=' D' ">
-            <e><xsl:value-of select="string('&#xa;')"/><!-- \n -->
+            <e><xsl:copy-of select="@*[name()!='r' and name()!='slr' and name()!='srl']"/><xsl:value-of select="string('&#xa;')"/><!-- \n -->
                <xsl:copy-of select="*"/>
             <xsl:value-of select="string('&#xa;')"/><!-- \n -->
             </e>
@@ -133,7 +133,7 @@
          </xsl:when>
          <!-- si no es la solucio per Defecte L-R -->
          <xsl:otherwise>
-            <e r="RL"><xsl:value-of select="string('&#xa;')"/><!-- \n -->
+            <e r="RL"><xsl:copy-of select="@*[name()!='r' and name()!='slr' and name()!='srl']"/><xsl:value-of select="string('&#xa;')"/><!-- \n -->
                <xsl:copy-of select="*"/>
             <xsl:value-of select="string('&#xa;')"/><!-- \n -->
             </e>
-- 
2.43.0


From e944f89de61a6561cc9b3858d0005284bf34a8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:30 +0000
Subject: [PATCH 110/115] fix: entries that are not in use must not get into
 the dictionary

---
 apertium/lexchoice.xsl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apertium/lexchoice.xsl b/apertium/lexchoice.xsl
index 83e2fa5..4349917 100644
--- a/apertium/lexchoice.xsl
+++ b/apertium/lexchoice.xsl
@@ -122,6 +122,8 @@
 
 <xsl:template match="e">
   <xsl:choose>
+    <xsl:when test="./@i=string('yes')">
+    </xsl:when>
     <xsl:when test="not($r2l=string('yes'))">
       <xsl:if test="not(./@r=string('LR'))">
         <e><xsl:apply-templates select="./*"/></e>
-- 
2.43.0


From 80a4877a872caf01d0932cbe46d8a98d77ff0cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:36 +0000
Subject: [PATCH 111/115] fix: a backslash at the end of the text must not turn
 into garbage (wblank-attach)

---
 apertium/wblank-attach.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apertium/wblank-attach.cc b/apertium/wblank-attach.cc
index 3091729..b77d6ed 100644
--- a/apertium/wblank-attach.cc
+++ b/apertium/wblank-attach.cc
@@ -63,7 +63,7 @@ int main(int argc, char* argv[]) {
 			++line;
 		}
 
-		if (c == '\\' && std::cin.peek()) {
+		if (c == '\\' && std::cin.peek() > 0) {
 			auto n = static_cast<char>(std::cin.get());
 			if (in_blank) {
 				blank += c;
-- 
2.43.0


From 6ccdbefeb03c65a6d9b4dc6cb7fd208f3000577a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:42 +0000
Subject: [PATCH 112/115] fix: wblank-detach must keep an unfinished blank or
 escape at the end of the text

---
 apertium/wblank-detach.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apertium/wblank-detach.cc b/apertium/wblank-detach.cc
index ab22d5a..6f68026 100644
--- a/apertium/wblank-detach.cc
+++ b/apertium/wblank-detach.cc
@@ -43,7 +43,7 @@ int main(int argc, char* argv[]) {
 
 	char c = 0;
 	while (std::cin.get(c)) {
-		if (c == '\\' && std::cin.peek()) {
+		if (c == '\\' && std::cin.peek() > 0) {
 			auto n = static_cast<char>(std::cin.get());
 			if (in_blank) {
 				blank += c;
@@ -109,4 +109,6 @@ int main(int argc, char* argv[]) {
 			had_wblank = false;
 		}
 	}
+
+	std::cout << blank;
 }
-- 
2.43.0


From 931617b94e2da25bb2cda4e1d26ee72edc1119f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:55 +0000
Subject: [PATCH 113/115] fix: an escaped character in the lemma of a category
 matches that character

---
 apertium/trx_reader.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apertium/trx_reader.cc b/apertium/trx_reader.cc
index 81ba0f8..81ea4af 100644
--- a/apertium/trx_reader.cc
+++ b/apertium/trx_reader.cc
@@ -46,8 +46,8 @@ TRXReader::insertCatItem(Transducer& trans, const UString& lemma, const UString&
     trans.linkStates(another, state, any_char);
   } else {
     for (size_t i = 0; i < lemma.size(); i++) {
-      if (lemma[i] == '\\') {
-        state = trans.insertSingleTransduction('\\', state);
+      if (lemma[i] == '\\' && i + 1 < lemma.size()) {
+        // words are matched without the backslashes of their escapes
         i++;
         state = trans.insertSingleTransduction(int(lemma[i]), state);
       } else if (lemma[i] == '*') {
-- 
2.43.0


From 099dff515763bbb16aa16ddc35f3e0fbfd441eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:16 +0000
Subject: [PATCH 114/115] fix: markup tags may be followed by a newline or a
 tab, not only a space

---
 apertium/html-alt-format.xml   | 30 +++++++++++++++---------------
 apertium/html-format.xml       | 30 +++++++++++++++---------------
 apertium/html-noent-format.xml | 30 +++++++++++++++---------------
 apertium/mediawiki-format.xml  | 28 ++++++++++++++--------------
 apertium/odt-format.xml        | 10 +++++-----
 apertium/pptx-format.xml       | 14 +++++++-------
 apertium/wxml-format.xml       | 22 +++++++++++-----------
 apertium/xlsx-format.xml       | 10 +++++-----
 8 files changed, 87 insertions(+), 87 deletions(-)

diff --git a/apertium/html-alt-format.xml b/apertium/html-alt-format.xml
index 38515f9..3c1b6c8 100644
--- a/apertium/html-alt-format.xml
+++ b/apertium/html-alt-format.xml
@@ -22,62 +22,62 @@
     </format-rule>
 
     <format-rule type="comment" eos="no" priority="2">
-      <begin regexp='"&lt;script"(" "[^&gt;]*)?"&gt;"'/>
-      <end regexp='"&lt;/script"(" "[^&gt;]*)?"&gt;"'/>
+      <begin regexp='"&lt;script"([ \t\r\n][^&gt;]*)?"&gt;"'/>
+      <end regexp='"&lt;/script"([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
     <format-rule type="comment" eos="no" priority="2">
-      <begin regexp='"&lt;apertium-notrans"(" "[^&gt;]*)?"&gt;"'/>
+      <begin regexp='"&lt;apertium-notrans"([ \t\r\n][^&gt;]*)?"&gt;"'/>
       <end regexp='"&lt;/apertium-notrans&gt;"'/>
     </format-rule>
 
     <format-rule type="comment" eos="no" priority="2">
-      <begin regexp='"&lt;style"(" "[^&gt;]*)?"&gt;"'/>
-      <end regexp='"&lt;/style"(" "[^&gt;]*)?"&gt;"'/>
+      <begin regexp='"&lt;style"([ \t\r\n][^&gt;]*)?"&gt;"'/>
+      <end regexp='"&lt;/style"([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
     <format-rule type="open" eos="yes" priority="3">
-      <tag regexp='"&lt;br"(" "[^&gt;]*)?"&gt;"|"&lt;hr"(" "[^&gt;]*)?"&gt;"|"&lt;p"(" "[^&gt;]*)?"&gt;"'/>
+      <tag regexp='"&lt;br"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;hr"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;p"([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
     <format-rule type="open" eos="yes" priority="3">
-      <tag regexp='"&lt;li"(" "[^&gt;]*)?"&gt;"|"&lt;ul"(" "[^&gt;]*)?"&gt;"|"&lt;ol"(" "[^&gt;]*)?"&gt;"'/>
+      <tag regexp='"&lt;li"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;ul"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;ol"([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
     <format-rule type="open" eos="yes" priority="3">
-      <tag regexp='"&lt;tr"(" "[^&gt;]*)?"&gt;"|"&lt;td"(" "[^&gt;]*)?"&gt;"|"&lt;th"(" "[^&gt;]*)?"&gt;"'/>
+      <tag regexp='"&lt;tr"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;td"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;th"([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
     <format-rule type="close" eos="yes" priority="3">
-      <tag regexp='"&lt;/br"(" "[^&gt;]*)?"&gt;"|"&lt;/hr"(" "[^&gt;]*)?"&gt;"|"&lt;/p"(" "[^&gt;]*)?"&gt;"'/>
+      <tag regexp='"&lt;/br"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;/hr"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;/p"([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
     <format-rule type="close" eos="yes" priority="3">
-      <tag regexp='"&lt;/li"(" "[^&gt;]*)?"&gt;"|"&lt;/ul"(" "[^&gt;]*)?"&gt;"|"&lt;/ol"(" "[^&gt;]*)?"&gt;"'/>
+      <tag regexp='"&lt;/li"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;/ul"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;/ol"([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
     <format-rule type="close" eos="yes" priority="3">
-      <tag regexp='"&lt;/tr"(" "[^&gt;]*)?"&gt;"|"&lt;/td"(" "[^&gt;]*)?"&gt;"|"&lt;/th"(" "[^&gt;]*)?"&gt;"'/>
+      <tag regexp='"&lt;/tr"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;/td"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;/th"([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
 <!-- Faltan algunas etiquetas de final de frase. -->
 
     <format-rule type="open" eos="yes" priority="3">
-      <tag regexp='"&lt;title"(" "[^&gt;]*)?"&gt;"|"&lt;div"(" "[^&gt;]*)?"&gt;"|"&lt;option"(" "[^&gt;]*)?"&gt;"|"&lt;h"[1-6](" "[^&gt;]*)?"&gt;"'/>
+      <tag regexp='"&lt;title"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;div"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;option"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;h"[1-6]([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
     <format-rule type="close" eos="yes" priority="3">
-      <tag regexp='"&lt;/div"(" "[^&gt;]*)?"&gt;"|"&lt;/option"(" "[^&gt;]*)?"&gt;"'/>
+      <tag regexp='"&lt;/div"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;/option"([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
     <format-rule type="close" eoh="yes" eos="yes" priority="3">
-      <tag regexp='"&lt;/title"(" "[^&gt;]*)?"&gt;"|"&lt;/h"[1-6](" "[^&gt;]*)?"&gt;"'/>
+      <tag regexp='"&lt;/title"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;/h"[1-6]([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
 <!-- La etiqueta DOCTYPE no la reconoce -->
 
     <format-rule type="empty" eos="no" priority="4">
-      <tag regexp='"&lt;"("link")(" "[^&gt;]*)?"&gt;"'/>
+      <tag regexp='"&lt;"("link")([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
     <format-rule type="empty" eos="no" priority="5">
diff --git a/apertium/html-format.xml b/apertium/html-format.xml
index d443f97..eea14f1 100644
--- a/apertium/html-format.xml
+++ b/apertium/html-format.xml
@@ -22,62 +22,62 @@
     </format-rule>
     
     <format-rule type="comment" eos="no" priority="2">
-      <begin regexp='"&lt;script"(" "[^&gt;]*)?"&gt;"'/>
-      <end regexp='"&lt;/script"(" "[^&gt;]*)?"&gt;"'/>
+      <begin regexp='"&lt;script"([ \t\r\n][^&gt;]*)?"&gt;"'/>
+      <end regexp='"&lt;/script"([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
     <format-rule type="comment" eos="no" priority="2">
-      <begin regexp='"&lt;apertium-notrans"(" "[^&gt;]*)?"&gt;"'/>
+      <begin regexp='"&lt;apertium-notrans"([ \t\r\n][^&gt;]*)?"&gt;"'/>
       <end regexp='"&lt;/apertium-notrans&gt;"'/>
     </format-rule>
 
     <format-rule type="comment" eos="no" priority="2">
-      <begin regexp='"&lt;style"(" "[^&gt;]*)?"&gt;"'/>
-      <end regexp='"&lt;/style"(" "[^&gt;]*)?"&gt;"'/>
+      <begin regexp='"&lt;style"([ \t\r\n][^&gt;]*)?"&gt;"'/>
+      <end regexp='"&lt;/style"([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
     <format-rule type="open" eos="yes" priority="3">
-      <tag regexp='"&lt;br"(" "[^&gt;]*)?"&gt;"|"&lt;hr"(" "[^&gt;]*)?"&gt;"|"&lt;p"(" "[^&gt;]*)?"&gt;"'/>
+      <tag regexp='"&lt;br"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;hr"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;p"([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
     <format-rule type="open" eos="yes" priority="3">
-      <tag regexp='"&lt;li"(" "[^&gt;]*)?"&gt;"|"&lt;ul"(" "[^&gt;]*)?"&gt;"|"&lt;ol"(" "[^&gt;]*)?"&gt;"'/>
+      <tag regexp='"&lt;li"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;ul"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;ol"([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
     <format-rule type="open" eos="yes" priority="3">
-      <tag regexp='"&lt;tr"(" "[^&gt;]*)?"&gt;"|"&lt;td"(" "[^&gt;]*)?"&gt;"|"&lt;th"(" "[^&gt;]*)?"&gt;"'/>
+      <tag regexp='"&lt;tr"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;td"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;th"([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
     <format-rule type="close" eos="yes" priority="3">
-      <tag regexp='"&lt;/br"(" "[^&gt;]*)?"&gt;"|"&lt;/hr"(" "[^&gt;]*)?"&gt;"|"&lt;/p"(" "[^&gt;]*)?"&gt;"'/>
+      <tag regexp='"&lt;/br"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;/hr"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;/p"([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
     <format-rule type="close" eos="yes" priority="3">
-      <tag regexp='"&lt;/li"(" "[^&gt;]*)?"&gt;"|"&lt;/ul"(" "[^&gt;]*)?"&gt;"|"&lt;/ol"(" "[^&gt;]*)?"&gt;"'/>
+      <tag regexp='"&lt;/li"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;/ul"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;/ol"([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
     <format-rule type="close" eos="yes" priority="3">
-      <tag regexp='"&lt;/tr"(" "[^&gt;]*)?"&gt;"|"&lt;/td"(" "[^&gt;]*)?"&gt;"|"&lt;/th"(" "[^&gt;]*)?"&gt;"'/>
+      <tag regexp='"&lt;/tr"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;/td"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;/th"([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
 <!-- Faltan algunas etiquetas de final de frase. -->
 
     <format-rule type="open" eos="yes" priority="3">
-      <tag regexp='"&lt;title"(" "[^&gt;]*)?"&gt;"|"&lt;div"(" "[^&gt;]*)?"&gt;"|"&lt;option"(" "[^&gt;]*)?"&gt;"|"&lt;h"[1-6](" "[^&gt;]*)?"&gt;"'/>
+      <tag regexp='"&lt;title"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;div"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;option"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;h"[1-6]([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
     <format-rule type="close" eos="yes" priority="3">
-      <tag regexp='"&lt;/div"(" "[^&gt;]*)?"&gt;"|"&lt;/option"(" "[^&gt;]*)?"&gt;"'/>
+      <tag regexp='"&lt;/div"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;/option"([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
     <format-rule type="close" eoh="yes" eos="yes" priority="3">
-      <tag regexp='"&lt;/title"(" "[^&gt;]*)?"&gt;"|"&lt;/h"[1-6](" "[^&gt;]*)?"&gt;"'/>
+      <tag regexp='"&lt;/title"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;/h"[1-6]([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
 <!-- La etiqueta DOCTYPE no la reconoce -->
 
     <format-rule type="empty" eos="no" priority="4">
-      <tag regexp='"&lt;"("img"|"link")(" "[^&gt;]*)?"&gt;"'/>
+      <tag regexp='"&lt;"("img"|"link")([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
     <format-rule type="empty" eos="no" priority="5">
diff --git a/apertium/html-noent-format.xml b/apertium/html-noent-format.xml
index 1966504..5ec14a7 100644
--- a/apertium/html-noent-format.xml
+++ b/apertium/html-noent-format.xml
@@ -22,62 +22,62 @@
     </format-rule>
 
     <format-rule type="comment" eos="no" priority="2">
-      <begin regexp='"&lt;script"(" "[^&gt;]*)?"&gt;"'/>
-      <end regexp='"&lt;/script"(" "[^&gt;]*)?"&gt;"'/>
+      <begin regexp='"&lt;script"([ \t\r\n][^&gt;]*)?"&gt;"'/>
+      <end regexp='"&lt;/script"([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
     <format-rule type="comment" eos="no" priority="2">
-      <begin regexp='"&lt;apertium-notrans"(" "[^&gt;]*)?"&gt;"'/>
+      <begin regexp='"&lt;apertium-notrans"([ \t\r\n][^&gt;]*)?"&gt;"'/>
       <end regexp='"&lt;/apertium-notrans&gt;"'/>
     </format-rule>
 
     <format-rule type="comment" eos="no" priority="2">
-      <begin regexp='"&lt;style"(" "[^&gt;]*)?"&gt;"'/>
-      <end regexp='"&lt;/style"(" "[^&gt;]*)?"&gt;"'/>
+      <begin regexp='"&lt;style"([ \t\r\n][^&gt;]*)?"&gt;"'/>
+      <end regexp='"&lt;/style"([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
     <format-rule type="open" eos="yes" priority="3">
-      <tag regexp='"&lt;br"(" "[^&gt;]*)?"&gt;"|"&lt;hr"(" "[^&gt;]*)?"&gt;"|"&lt;p"(" "[^&gt;]*)?"&gt;"'/>
+      <tag regexp='"&lt;br"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;hr"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;p"([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
     <format-rule type="open" eos="yes" priority="3">
-      <tag regexp='"&lt;li"(" "[^&gt;]*)?"&gt;"|"&lt;ul"(" "[^&gt;]*)?"&gt;"|"&lt;ol"(" "[^&gt;]*)?"&gt;"'/>
+      <tag regexp='"&lt;li"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;ul"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;ol"([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
     <format-rule type="open" eos="yes" priority="3">
-      <tag regexp='"&lt;tr"(" "[^&gt;]*)?"&gt;"|"&lt;td"(" "[^&gt;]*)?"&gt;"|"&lt;th"(" "[^&gt;]*)?"&gt;"'/>
+      <tag regexp='"&lt;tr"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;td"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;th"([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
     <format-rule type="close" eos="yes" priority="3">
-      <tag regexp='"&lt;/br"(" "[^&gt;]*)?"&gt;"|"&lt;/hr"(" "[^&gt;]*)?"&gt;"|"&lt;/p"(" "[^&gt;]*)?"&gt;"'/>
+      <tag regexp='"&lt;/br"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;/hr"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;/p"([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
     <format-rule type="close" eos="yes" priority="3">
-      <tag regexp='"&lt;/li"(" "[^&gt;]*)?"&gt;"|"&lt;/ul"(" "[^&gt;]*)?"&gt;"|"&lt;/ol"(" "[^&gt;]*)?"&gt;"'/>
+      <tag regexp='"&lt;/li"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;/ul"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;/ol"([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
     <format-rule type="close" eos="yes" priority="3">
-      <tag regexp='"&lt;/tr"(" "[^&gt;]*)?"&gt;"|"&lt;/td"(" "[^&gt;]*)?"&gt;"|"&lt;/th"(" "[^&gt;]*)?"&gt;"'/>
+      <tag regexp='"&lt;/tr"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;/td"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;/th"([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
 <!-- Faltan algunas etiquetas de final de frase. -->
 
     <format-rule type="open" eos="yes" priority="3">
-      <tag regexp='"&lt;title"(" "[^&gt;]*)?"&gt;"|"&lt;div"(" "[^&gt;]*)?"&gt;"|"&lt;option"(" "[^&gt;]*)?"&gt;"|"&lt;h"[1-6](" "[^&gt;]*)?"&gt;"'/>
+      <tag regexp='"&lt;title"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;div"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;option"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;h"[1-6]([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
     <format-rule type="close" eos="yes" priority="3">
-      <tag regexp='"&lt;/div"(" "[^&gt;]*)?"&gt;"|"&lt;/option"(" "[^&gt;]*)?"&gt;"'/>
+      <tag regexp='"&lt;/div"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;/option"([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
     <format-rule type="close" eoh="yes" eos="yes" priority="3">
-      <tag regexp='"&lt;/title"(" "[^&gt;]*)?"&gt;"|"&lt;/h"[1-6](" "[^&gt;]*)?"&gt;"'/>
+      <tag regexp='"&lt;/title"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;/h"[1-6]([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
 <!-- La etiqueta DOCTYPE no la reconoce -->
 
     <format-rule type="empty" eos="no" priority="4">
-      <tag regexp='"&lt;"("img"|"link")(" "[^&gt;]*)?"&gt;"'/>
+      <tag regexp='"&lt;"("img"|"link")([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
     <format-rule type="empty" eos="no" priority="5">
diff --git a/apertium/mediawiki-format.xml b/apertium/mediawiki-format.xml
index 39874f3..db4593e 100644
--- a/apertium/mediawiki-format.xml
+++ b/apertium/mediawiki-format.xml
@@ -22,12 +22,12 @@
     </format-rule>
 
     <format-rule type="comment" eos="no" priority="2">
-      <begin regexp='"&lt;script"(" "[^&gt;]*)?"&gt;"'/>
-      <end regexp='"&lt;/script"(" "[^&gt;]*)?"&gt;"'/>
+      <begin regexp='"&lt;script"([ \t\r\n][^&gt;]*)?"&gt;"'/>
+      <end regexp='"&lt;/script"([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
     <format-rule type="comment" eos="no" priority="2">
-      <begin regexp='"&lt;apertium-notrans"(" "[^&gt;]*)?"&gt;"'/>
+      <begin regexp='"&lt;apertium-notrans"([ \t\r\n][^&gt;]*)?"&gt;"'/>
       <end regexp='"&lt;/apertium-notrans&gt;"'/>
     </format-rule>
 
@@ -66,32 +66,32 @@
 
 
     <format-rule type="comment" eos="no" priority="2">
-      <begin regexp='"&lt;style"(" "[^&gt;]*)?"&gt;"'/>
-      <end regexp='"&lt;/style"(" "[^&gt;]*)?"&gt;"'/>
+      <begin regexp='"&lt;style"([ \t\r\n][^&gt;]*)?"&gt;"'/>
+      <end regexp='"&lt;/style"([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
     <format-rule type="open" eos="yes" priority="3">
-      <tag regexp='"&lt;br"(" "[^&gt;]*)?"&gt;"|"&lt;hr"(" "[^&gt;]*)?"&gt;"|"&lt;p"(" "[^&gt;]*)?"&gt;"'/>
+      <tag regexp='"&lt;br"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;hr"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;p"([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
     <format-rule type="open" eos="yes" priority="3">
-      <tag regexp='"&lt;li"(" "[^&gt;]*)?"&gt;"|"&lt;ul"(" "[^&gt;]*)?"&gt;"|"&lt;ol"(" "[^&gt;]*)?"&gt;"'/>
+      <tag regexp='"&lt;li"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;ul"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;ol"([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
     <format-rule type="open" eos="yes" priority="3">
-      <tag regexp='"&lt;tr"(" "[^&gt;]*)?"&gt;"|"&lt;td"(" "[^&gt;]*)?"&gt;"|"&lt;th"(" "[^&gt;]*)?"&gt;"'/>
+      <tag regexp='"&lt;tr"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;td"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;th"([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
     <format-rule type="close" eos="yes" priority="3">
-      <tag regexp='"&lt;/br"(" "[^&gt;]*)?"&gt;"|"&lt;/hr"(" "[^&gt;]*)?"&gt;"|"&lt;/p"(" "[^&gt;]*)?"&gt;"'/>
+      <tag regexp='"&lt;/br"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;/hr"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;/p"([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
     <format-rule type="close" eos="yes" priority="3">
-      <tag regexp='"&lt;/li"(" "[^&gt;]*)?"&gt;"|"&lt;/ul"(" "[^&gt;]*)?"&gt;"|"&lt;/ol"(" "[^&gt;]*)?"&gt;"'/>
+      <tag regexp='"&lt;/li"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;/ul"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;/ol"([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
     <format-rule type="close" eos="yes" priority="3">
-      <tag regexp='"&lt;/tr"(" "[^&gt;]*)?"&gt;"|"&lt;/td"(" "[^&gt;]*)?"&gt;"|"&lt;/th"(" "[^&gt;]*)?"&gt;"'/>
+      <tag regexp='"&lt;/tr"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;/td"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;/th"([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
     <format-rule type="empty" eos="no" priority="1">
@@ -122,17 +122,17 @@
 <!-- Faltan algunas etiquetas de final de frase. -->
 
     <format-rule type="open" eos="yes" priority="3">
-      <tag regexp='"&lt;title"(" "[^&gt;]*)?"&gt;"|"&lt;div"(" "[^&gt;]*)?"&gt;"|"&lt;option"(" "[^&gt;]*)?"&gt;"|"&lt;h"[1-6](" "[^&gt;]*)?"&gt;"'/>
+      <tag regexp='"&lt;title"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;div"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;option"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;h"[1-6]([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
     <format-rule type="close" eos="yes" priority="3">
-      <tag regexp='"&lt;/title"(" "[^&gt;]*)?"&gt;"|"&lt;/div"(" "[^&gt;]*)?"&gt;"|"&lt;/option"(" "[^&gt;]*)?"&gt;"|"&lt;/h"[1-6](" "[^&gt;]*)?"&gt;"'/>
+      <tag regexp='"&lt;/title"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;/div"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;/option"([ \t\r\n][^&gt;]*)?"&gt;"|"&lt;/h"[1-6]([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
 <!-- La etiqueta DOCTYPE no la reconoce -->
 
     <format-rule type="empty" eos="no" priority="4">
-      <tag regexp='"&lt;"("img"|"link")(" "[^&gt;]*)?"&gt;"'/>
+      <tag regexp='"&lt;"("img"|"link")([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
     <format-rule type="empty" eos="no" priority="5">
diff --git a/apertium/odt-format.xml b/apertium/odt-format.xml
index 8d690a3..cae31b5 100644
--- a/apertium/odt-format.xml
+++ b/apertium/odt-format.xml
@@ -17,8 +17,8 @@
     </format-rule>
 
     <format-rule type="comment" eos="no" priority="2">
-      <begin regexp='"&lt;math:"[a-zA-Z]+(" "[^&gt;]*)?"&gt;"'/>
-      <end regexp='"&lt;/math:"[a-zA-Z]+(" "[^&gt;]*)?"&gt;"'/>
+      <begin regexp='"&lt;math:"[a-zA-Z]+([ \t\r\n][^&gt;]*)?"&gt;"'/>
+      <end regexp='"&lt;/math:"[a-zA-Z]+([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
     <format-rule type="comment" eos="no" priority="2">
@@ -27,16 +27,16 @@
     </format-rule>
 
     <format-rule type="comment" eos="no" priority="2">
-      <begin regexp='"&amp;lt;apertium-notrans"(" "[^&gt;]*)?"&amp;gt;"'/>
+      <begin regexp='"&amp;lt;apertium-notrans"([ \t\r\n][^&gt;]*)?"&amp;gt;"'/>
       <end regexp='"&amp;lt;/apertium-notrans&amp;gt;"'/>
     </format-rule>
 
     <format-rule type="open" eos="yes" priority="3">
-      <tag regexp='"&lt;text:"[hp](" "[^&gt;]*)?"&gt;"'/>
+      <tag regexp='"&lt;text:"[hp]([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
     <format-rule type="close" eos="yes" priority="3">
-      <tag regexp='"&lt;/text:"[hp](" "[^&gt;]*)?"&gt;"'/>
+      <tag regexp='"&lt;/text:"[hp]([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
 
diff --git a/apertium/pptx-format.xml b/apertium/pptx-format.xml
index 4f92943..f7715ac 100644
--- a/apertium/pptx-format.xml
+++ b/apertium/pptx-format.xml
@@ -17,25 +17,25 @@
     </format-rule>
 
     <format-rule type="comment" eos="yes" priority="2">
-      <begin regexp='"&lt;pkg:binaryData"(" "[^&gt;]*)?"&gt;"'/>
-      <end regexp='"&lt;/pkg:binaryData"(" "[^&gt;]*)?"&gt;"'/>
+      <begin regexp='"&lt;pkg:binaryData"([ \t\r\n][^&gt;]*)?"&gt;"'/>
+      <end regexp='"&lt;/pkg:binaryData"([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
     <format-rule type="comment" eos="yes" priority="2">
-      <begin regexp='"&lt;p:timing"(" "[^&gt;]*)?"&gt;"'/>
-      <end regexp='"&lt;/p:timing"(" "[^&gt;]*)?"&gt;"'/>
+      <begin regexp='"&lt;p:timing"([ \t\r\n][^&gt;]*)?"&gt;"'/>
+      <end regexp='"&lt;/p:timing"([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
     <format-rule type="open" eos="yes" priority="3">
-      <tag regexp='"&lt;a:p"(" "[^&gt;]*)?"&gt;"'/>
+      <tag regexp='"&lt;a:p"([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
     <format-rule type="close" eos="yes" priority="3">
-      <tag regexp='"&lt;/a:p"(" "[^&gt;]*)?"&gt;"'/>
+      <tag regexp='"&lt;/a:p"([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
     <format-rule type="comment" eos="no" priority="2">
-      <begin regexp='"&amp;lt;apertium-notrans"(" "[^&gt;]*)?"&amp;gt;"'/>
+      <begin regexp='"&amp;lt;apertium-notrans"([ \t\r\n][^&gt;]*)?"&amp;gt;"'/>
       <end regexp='"&amp;lt;/apertium-notrans&amp;gt;"'/>
     </format-rule>
 
diff --git a/apertium/wxml-format.xml b/apertium/wxml-format.xml
index 7f6f498..59ad28a 100644
--- a/apertium/wxml-format.xml
+++ b/apertium/wxml-format.xml
@@ -17,38 +17,38 @@
     </format-rule>
 
     <format-rule type="comment" eos="no" priority="2">
-      <begin regexp='"&lt;Properties"(" "[^&gt;]*)?"&gt;"'/>
-      <end regexp='"&lt;/Properties"(" "[^&gt;]*)?"&gt;"'/>
+      <begin regexp='"&lt;Properties"([ \t\r\n][^&gt;]*)?"&gt;"'/>
+      <end regexp='"&lt;/Properties"([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
     <format-rule type="comment" eos="yes" priority="3">
-      <begin regexp='"&lt;pkg:binaryData"(" "[^&gt;]*)?"&gt;"'/>
-      <end regexp='"&lt;/pkg:binaryData"(" "[^&gt;]*)?"&gt;"'/>
+      <begin regexp='"&lt;pkg:binaryData"([ \t\r\n][^&gt;]*)?"&gt;"'/>
+      <end regexp='"&lt;/pkg:binaryData"([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
     <format-rule type="comment" eos="yes" priority="3">
-      <begin regexp='"&lt;w:instrText"(" "[^&gt;]*)?"&gt;"'/>
-      <end regexp='"&lt;/w:instrText"(" "[^&gt;]*)?"&gt;"'/>
+      <begin regexp='"&lt;w:instrText"([ \t\r\n][^&gt;]*)?"&gt;"'/>
+      <end regexp='"&lt;/w:instrText"([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
     <format-rule type="comment" eos="no" priority="2">
-      <begin regexp='"&amp;lt;apertium-notrans"(" "[^&gt;]*)?"&amp;gt;"'/>
+      <begin regexp='"&amp;lt;apertium-notrans"([ \t\r\n][^&gt;]*)?"&amp;gt;"'/>
       <end regexp='"&amp;lt;/apertium-notrans&amp;gt;"'/>
     </format-rule>
 
 
     <format-rule type="comment" eos="yes" priority="3">
-      <begin regexp='"&lt;w:drawing"(" "[^&gt;]*)?"&gt;"'/>
-      <end regexp='"&lt;/w:drawing"(" "[^&gt;]*)?"&gt;"'/>
+      <begin regexp='"&lt;w:drawing"([ \t\r\n][^&gt;]*)?"&gt;"'/>
+      <end regexp='"&lt;/w:drawing"([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
 
     <format-rule type="open" eos="yes" priority="4">
-      <tag regexp='"&lt;w:p"(" "[^&gt;]*)?"&gt;"'/>
+      <tag regexp='"&lt;w:p"([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
     <format-rule type="close" eos="yes" priority="4">
-      <tag regexp='"&lt;/w:p"(" "[^&gt;]*)?"&gt;"'/>
+      <tag regexp='"&lt;/w:p"([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
 
diff --git a/apertium/xlsx-format.xml b/apertium/xlsx-format.xml
index 62e97f4..cd87d37 100644
--- a/apertium/xlsx-format.xml
+++ b/apertium/xlsx-format.xml
@@ -17,17 +17,17 @@
     </format-rule>
 
     <format-rule type="comment" eos="yes" priority="2">
-      <begin regexp='"&lt;f"(" "[^&gt;]*)?"&gt;"'/>
-      <end regexp='"&lt;/f"(" "[^&gt;]*)?"&gt;"'/>
+      <begin regexp='"&lt;f"([ \t\r\n][^&gt;]*)?"&gt;"'/>
+      <end regexp='"&lt;/f"([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
 
     <format-rule type="open" eos="yes" priority="3">
-      <tag regexp='"&lt;si"(" "[^&gt;]*)?"&gt;"'/>
+      <tag regexp='"&lt;si"([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
     <format-rule type="close" eos="yes" priority="3">
-      <tag regexp='"&lt;/si"(" "[^&gt;]*)?"&gt;"'/>
+      <tag regexp='"&lt;/si"([ \t\r\n][^&gt;]*)?"&gt;"'/>
     </format-rule>
 
 
@@ -36,7 +36,7 @@
     </format-rule>
 
     <format-rule type="comment" eos="no" priority="2">
-      <begin regexp='"&amp;lt;apertium-notrans"(" "[^&gt;]*)?"&amp;gt;"'/>
+      <begin regexp='"&amp;lt;apertium-notrans"([ \t\r\n][^&gt;]*)?"&amp;gt;"'/>
       <end regexp='"&amp;lt;/apertium-notrans&amp;gt;"'/>
     </format-rule>
 
-- 
2.43.0


From a4513cd0d6ead10e37a10af729db5a2f53e994f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:26 +0000
Subject: [PATCH 115/115] fix: a word without a blank before it is not read
 again after reject-current-rule

---
 apertium/interchunk.cc | 21 ++++++++-------------
 apertium/postchunk.cc  | 21 ++++++++-------------
 apertium/transfer.cc   | 23 +++++++++--------------
 3 files changed, 25 insertions(+), 40 deletions(-)

diff --git a/apertium/interchunk.cc b/apertium/interchunk.cc
index 6f872d3..d7eae43 100644
--- a/apertium/interchunk.cc
+++ b/apertium/interchunk.cc
@@ -486,7 +486,7 @@ Interchunk::interchunk(InputFile& in, UFILE* out)
   }
 
   unsigned int last = input_buffer.getPos();
-  unsigned int prev_last = last;
+  unsigned int first_word = last; // where the words being matched begin
   int lastrule_id = -1;
   set<int> banned_rules;
 
@@ -511,14 +511,7 @@ Interchunk::interchunk(InputFile& in, UFILE* out)
         else if(num_words_to_consume > 0)
         {
           banned_rules.clear();
-          if(prev_last >= input_buffer.getSize())
-          {
-            input_buffer.setPos(0);
-          }
-          else
-          {
-            input_buffer.setPos(prev_last+1);
-          }
+          input_buffer.setPos(first_word);
           int num_consumed_words = 0;
           while(num_consumed_words < num_words_to_consume && !input_buffer.isEmpty())
           {
@@ -534,8 +527,7 @@ Interchunk::interchunk(InputFile& in, UFILE* out)
         {
           //Add rule to banned rules
           banned_rules.insert(lastrule_id);
-          input_buffer.setPos(prev_last);
-          input_buffer.next();
+          input_buffer.setPos(first_word);
           last = input_buffer.getPos();
         }
         lastrule_id = -1;
@@ -548,7 +540,6 @@ Interchunk::interchunk(InputFile& in, UFILE* out)
           tmpword.clear();
           input_buffer.setPos(last);
           input_buffer.next();
-          prev_last = last;
           banned_rules.clear();
           last = input_buffer.getPos();
           ms.init(me->getInitial());
@@ -556,7 +547,6 @@ Interchunk::interchunk(InputFile& in, UFILE* out)
         else if(tmpblank.size() != 0) {
           write(*tmpblank[0], output);
           tmpblank.clear();
-          prev_last = last;
           last = input_buffer.getPos();
           ms.init(me->getInitial());
         }
@@ -582,11 +572,16 @@ Interchunk::interchunk(InputFile& in, UFILE* out)
       }
     }
 
+    unsigned int token_pos = input_buffer.getPos();
     TransferToken &current = readToken(in);
 
     switch(current.getType())
     {
     case tt_word:
+      if(tmpword.empty())
+      {
+        first_word = token_pos;
+      }
       applyWord(current.getContent());
       tmpword.push_back(&current.getContent());
       break;
diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index ac60768..ae1045e 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -583,7 +583,7 @@ Postchunk::postchunk(InputFile& in, UFILE* out)
   }
 
   unsigned int last = input_buffer.getPos();
-  unsigned int prev_last = last;
+  unsigned int first_word = last; // where the words being matched begin
   int lastrule_id = -1;
   set<int> banned_rules;
 
@@ -608,14 +608,7 @@ Postchunk::postchunk(InputFile& in, UFILE* out)
         else if(num_words_to_consume > 0)
         {
           banned_rules.clear();
-          if(prev_last >= input_buffer.getSize())
-          {
-            input_buffer.setPos(0);
-          }
-          else
-          {
-            input_buffer.setPos(prev_last+1);
-          }
+          input_buffer.setPos(first_word);
           int num_consumed_words = 0;
           while(num_consumed_words < num_words_to_consume && !input_buffer.isEmpty())
           {
@@ -631,8 +624,7 @@ Postchunk::postchunk(InputFile& in, UFILE* out)
         {
           //Add rule to banned rules
           banned_rules.insert(lastrule_id);
-          input_buffer.setPos(prev_last);
-          input_buffer.next();
+          input_buffer.setPos(first_word);
           last = input_buffer.getPos();
         }
         lastrule_id = -1;
@@ -644,7 +636,6 @@ Postchunk::postchunk(InputFile& in, UFILE* out)
           tmpword.clear();
           input_buffer.setPos(last);
           input_buffer.next();
-          prev_last = last;
           banned_rules.clear();
           last = input_buffer.getPos();
           ms.init(me->getInitial());
@@ -652,7 +643,6 @@ Postchunk::postchunk(InputFile& in, UFILE* out)
         else if(tmpblank.size() != 0) {
           write(*tmpblank[0], output);
           tmpblank.clear();
-          prev_last = last;
           last = input_buffer.getPos();
           ms.init(me->getInitial());
         }
@@ -676,11 +666,16 @@ Postchunk::postchunk(InputFile& in, UFILE* out)
       }
     }
 
+    unsigned int token_pos = input_buffer.getPos();
     TransferToken &current = readToken(in);
 
     switch(current.getType())
     {
     case tt_word:
+      if(tmpword.empty())
+      {
+        first_word = token_pos;
+      }
       applyWord(current.getContent());
       tmpword.push_back(&current.getContent());
       break;
diff --git a/apertium/transfer.cc b/apertium/transfer.cc
index 1b01f00..b14e516 100644
--- a/apertium/transfer.cc
+++ b/apertium/transfer.cc
@@ -973,7 +973,7 @@ Transfer::transfer(InputFile& in, UFILE* out)
   }
 
   unsigned int last = input_buffer.getPos();
-  unsigned int prev_last = last;
+  unsigned int first_word = last; // where the words being matched begin
   int lastrule_id = -1;
   set<int> banned_rules;
   in_wblank = false;
@@ -1009,7 +1009,7 @@ Transfer::transfer(InputFile& in, UFILE* out)
       cerr << endl;
 
       cerr << "last: " << last << endl;
-      cerr << "prev_last: " << prev_last << endl << endl;
+      cerr << "first_word: " << first_word << endl << endl;
     }
 
     if(ms.size() == 0)
@@ -1041,14 +1041,7 @@ Transfer::transfer(InputFile& in, UFILE* out)
         else if(num_words_to_consume > 0)
         {
           banned_rules.clear();
-          if(prev_last >= input_buffer.getSize())
-          {
-            input_buffer.setPos(0);
-          }
-          else
-          {
-            input_buffer.setPos(prev_last+1);
-          }
+          input_buffer.setPos(first_word);
           int num_consumed_words = 0;
           while(num_consumed_words < num_words_to_consume && !input_buffer.isEmpty())
           {
@@ -1064,8 +1057,7 @@ Transfer::transfer(InputFile& in, UFILE* out)
         {
           //Add rule to banned rules
           banned_rules.insert(lastrule_id);
-          input_buffer.setPos(prev_last);
-          input_buffer.next();
+          input_buffer.setPos(first_word);
           last = input_buffer.getPos();
         }
         lastrule_id = -1;
@@ -1209,7 +1201,6 @@ Transfer::transfer(InputFile& in, UFILE* out)
 	  tmpword.clear();
 	  input_buffer.setPos(last);
 	  input_buffer.next();
-	  prev_last = last;
 	  last = input_buffer.getPos();
 	  ms.init(me->getInitial());
 	}
@@ -1220,7 +1211,6 @@ Transfer::transfer(InputFile& in, UFILE* out)
           }
           write(*tmpblank[0], output);
           tmpblank.clear();
-          prev_last = last;
           last = input_buffer.getPos();
           ms.init(me->getInitial());
 	}
@@ -1244,11 +1234,16 @@ Transfer::transfer(InputFile& in, UFILE* out)
       }
     }
 
+    unsigned int token_pos = input_buffer.getPos();
     TransferToken &current = readToken(in);
 
     switch(current.getType())
     {
       case tt_word:
+      if(tmpword.empty())
+      {
+        first_word = token_pos;
+      }
 	applyWord(current.getContent());
         tmpword.push_back(&current.getContent());
 	break;
-- 
2.43.0

