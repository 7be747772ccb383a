From 561286efbec472d44f0e5177933a9e040bc7d1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:02 +0000
Subject: [PATCH 01/66] fix: honour suppression comments at the very end of a
 file

Lexer::LexFromRawLexer() returns true together with the last token, so a
comment that isn't followed by a newline was never looked at.
---
 src/SuppressionManager.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/SuppressionManager.cpp b/src/SuppressionManager.cpp
index 7a6d9f2..bfa6070 100644
--- a/src/SuppressionManager.cpp
+++ b/src/SuppressionManager.cpp
@@ -146,7 +146,10 @@ void SuppressionManager::parseFile(FileID id, const SourceManager &sm, const cla
     std::stack<std::pair<LineNumber, std::string>> checkRangeStack;
 
     Token token;
-    while (!lexer.LexFromRawLexer(token)) {
+    bool reachedEnd = false;
+    while (!reachedEnd) {
+        // Returns true together with the last token, which can still be a comment
+        reachedEnd = lexer.LexFromRawLexer(token);
         if (token.getKind() != tok::comment) {
             continue;
         }
-- 
2.43.0


From 04a36aaabe049ba7354b5fb195ae10d09df52e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:02 +0000
Subject: [PATCH 02/66] fix: NOLINT suppresses every warning of its line, not
 only the first

---
 src/SuppressionManager.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/SuppressionManager.cpp b/src/SuppressionManager.cpp
index bfa6070..2ce1d3f 100644
--- a/src/SuppressionManager.cpp
+++ b/src/SuppressionManager.cpp
@@ -104,7 +104,6 @@ bool SuppressionManager::isSuppressed(const std::string &checkName,
 
     const LineNumber lineNumber = sm.getSpellingLineNumber(loc);
     if (suppressions.skipNextLine.count(lineNumber) > 0) {
-        suppressions.skipNextLine.erase(lineNumber);
         return true;
     }
     if (suppressions.checksToSkipByLine.find(LineAndCheckName(lineNumber, checkName)) != suppressions.checksToSkipByLine.cend())
-- 
2.43.0


From 82813cae64d3c70519b316a3e50c3253642c7624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:02 +0000
Subject: [PATCH 03/66] fix: honour all checks of a NOLINT(...) list

Only the first one was remembered for a line, and a line with such a list
ignored the NOLINTBEGIN ranges around it.
---
 src/SuppressionManager.cpp | 7 +++++--
 src/SuppressionManager.h   | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/SuppressionManager.cpp b/src/SuppressionManager.cpp
index 2ce1d3f..0e26395 100644
--- a/src/SuppressionManager.cpp
+++ b/src/SuppressionManager.cpp
@@ -109,8 +109,11 @@ bool SuppressionManager::isSuppressed(const std::string &checkName,
     if (suppressions.checksToSkipByLine.find(LineAndCheckName(lineNumber, checkName)) != suppressions.checksToSkipByLine.cend())
         return true;
 
-    if (auto it = suppressions.checkWildcardsToSkipByLine.find(lineNumber); it != suppressions.checkWildcardsToSkipByLine.end()) {
-        return it->second.match(checkName);
+    const auto [wildcardsBegin, wildcardsEnd] = suppressions.checkWildcardsToSkipByLine.equal_range(lineNumber);
+    for (auto wildcard = wildcardsBegin; wildcard != wildcardsEnd; ++wildcard) {
+        if (wildcard->second.match(checkName)) {
+            return true;
+        }
     }
 
     for (const auto &rangeSuppression : suppressions.checkWildcardsRanges) {
diff --git a/src/SuppressionManager.h b/src/SuppressionManager.h
index 0106a01..089733a 100644
--- a/src/SuppressionManager.h
+++ b/src/SuppressionManager.h
@@ -45,7 +45,7 @@ public:
         std::set<unsigned> skipNextLine;
         std::set<CheckName> checksToSkip;
         std::set<LineAndCheckName> checksToSkipByLine;
-        std::unordered_map<LineNumber, llvm::Regex> checkWildcardsToSkipByLine;
+        std::unordered_multimap<LineNumber, llvm::Regex> checkWildcardsToSkipByLine;
         std::vector<CheckBeginAndEnd> checkWildcardsRanges;
     };
 
-- 
2.43.0


From c9ac3594e347956f57a372330bbb2169c3a0886c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:02 +0000
Subject: [PATCH 04/66] fix: allow blanks after the commas of a NOLINT(...)
 list

As documented: NOLINTNEXTLINE(clazy-qfileinfo-exists, clazy-qstring-arg)
---
 src/SuppressionManager.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SuppressionManager.cpp b/src/SuppressionManager.cpp
index 0e26395..668c77f 100644
--- a/src/SuppressionManager.cpp
+++ b/src/SuppressionManager.cpp
@@ -54,8 +54,8 @@ static std::vector<llvm::Regex> splitDisabledChecksText(const std::string &disab
 {
     std::vector<llvm::Regex> disabledChecksRegexes;
     for (const auto &split : clazy::splitString(disableText, ',')) {
-        if (split.find("clazy-") == 0) {
-            StringRef sanitizedCheckName = llvm::StringRef(split).substr(strlen("clazy-")).rtrim();
+        if (llvm::StringRef(split).ltrim().starts_with("clazy-")) {
+            StringRef sanitizedCheckName = llvm::StringRef(split).trim().substr(strlen("clazy-"));
             disabledChecksRegexes.push_back(createRegexFromGlob(sanitizedCheckName));
         }
     }
-- 
2.43.0


From 1b2946471fb4a43bb0db06a0571c37c7aeb904df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:02 +0000
Subject: [PATCH 05/66] fix: consider all NOLINTBEGIN/NOLINTEND ranges around a
 warning

Only the first range containing the line was asked, so nested ranges hid
the outer ones.
---
 src/SuppressionManager.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/SuppressionManager.cpp b/src/SuppressionManager.cpp
index 668c77f..bccd9e6 100644
--- a/src/SuppressionManager.cpp
+++ b/src/SuppressionManager.cpp
@@ -118,10 +118,12 @@ bool SuppressionManager::isSuppressed(const std::string &checkName,
 
     for (const auto &rangeSuppression : suppressions.checkWildcardsRanges) {
         if (rangeSuppression.begin <= lineNumber && rangeSuppression.end >= lineNumber) {
-            return rangeSuppression.checksToSkipWildcard.empty()
+            if (rangeSuppression.checksToSkipWildcard.empty()
                 || std::ranges::any_of(rangeSuppression.checksToSkipWildcard, [&checkName](const llvm::Regex &regex) {
                        return regex.match(checkName);
-                   });
+                   })) {
+                return true;
+            }
         }
     }
 
-- 
2.43.0


From 4a90a429461248f80cde97a0264dc60949b3741d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:02 +0000
Subject: [PATCH 06/66] fix: NOLINTBEGIN(other-tool-check) doesn't suppress
 clazy's checks

---
 src/SuppressionManager.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/SuppressionManager.cpp b/src/SuppressionManager.cpp
index bccd9e6..f73d2ba 100644
--- a/src/SuppressionManager.cpp
+++ b/src/SuppressionManager.cpp
@@ -179,7 +179,11 @@ void SuppressionManager::parseFile(FileID id, const SourceManager &sm, const cla
                 } else {
                     const auto [beginLineNumber, disabledChecks] = checkRangeStack.top();
                     checkRangeStack.pop();
-                    suppressions.checkWildcardsRanges.push_back(CheckBeginAndEnd{splitDisabledChecksText(disabledChecks), beginLineNumber, lineNumber});
+                    std::vector<llvm::Regex> checksToSkip = splitDisabledChecksText(disabledChecks);
+                    // A list which only has checks of other tools doesn't suppress any of ours
+                    if (disabledChecks.empty() || !checksToSkip.empty()) {
+                        suppressions.checkWildcardsRanges.push_back(CheckBeginAndEnd{std::move(checksToSkip), beginLineNumber, lineNumber});
+                    }
                 }
 
             } else {
-- 
2.43.0


From 4931c37f1394349935aa41fd26506121c3c38f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:25 +0000
Subject: [PATCH 07/66] fix: don't use the warning text as a format string

It can have a '%', for example in the name of a type, which crashed.
---
 src/ClazyClangTidyModule.cpp | 3 ++-
 src/ClazyContext.cpp         | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ClazyClangTidyModule.cpp b/src/ClazyClangTidyModule.cpp
index 1573384..cf7f9a6 100644
--- a/src/ClazyClangTidyModule.cpp
+++ b/src/ClazyClangTidyModule.cpp
@@ -138,7 +138,8 @@ public:
                clang::DiagnosticIDs::Level level,
                std::string error,
                const std::vector<clang::FixItHint> &fixits) {
-            clangTidyContext->diag("clazy-" + checkName, loc, error, level) << fixits;
+            // The text isn't a format string, it can have a '%' (types or strings from the user's code)
+            clangTidyContext->diag("clazy-" + checkName, loc, "%0", level) << error << fixits;
         };
 };
 
diff --git a/src/ClazyContext.cpp b/src/ClazyContext.cpp
index c870795..073ffbe 100644
--- a/src/ClazyContext.cpp
+++ b/src/ClazyContext.cpp
@@ -101,8 +101,10 @@ ClazyContext::ClazyContext(clang::ASTContext *context,
                                                         std::string error,
                                                         const std::vector<clang::FixItHint> &fixits) {
         auto &engine = astContext->getDiagnostics();
-        unsigned id = engine.getDiagnosticIDs()->getCustomDiagID(level, error.c_str());
+        // The text isn't a format string, it can have a '%' (types or strings from the user's code)
+        unsigned id = engine.getDiagnosticIDs()->getCustomDiagID(level, "%0");
         DiagnosticBuilder B = engine.Report(loc, id);
+        B << error;
         for (const FixItHint &fixit : fixits) {
             if (!fixit.isNull()) {
                 B.AddFixItHint(fixit);
-- 
2.43.0


From 656e83d089c24443cd51ef2a1a11ebcb2e0804b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:25 +0000
Subject: [PATCH 08/66] fix: only-qt looks at the defines of each translation
 unit

---
 src/ClazyContext.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/ClazyContext.cpp b/src/ClazyContext.cpp
index 073ffbe..8847455 100644
--- a/src/ClazyContext.cpp
+++ b/src/ClazyContext.cpp
@@ -173,16 +173,13 @@ void ClazyContext::registerPreprocessorCallbacks(clang::Preprocessor &pp)
 
 bool ClazyContext::isQt() const
 {
-    static const bool s_isQt = [this] {
-        for (const auto &s : m_pp.Macros) {
-            if (s.first == "QT_CORE_LIB") {
-                return true;
-            }
+    // Not cached in a static, there can be several translation units with different defines
+    for (const auto &s : m_pp.Macros) {
+        if (s.first == "QT_CORE_LIB") {
+            return true;
         }
-        return false;
-    }();
-
-    return s_isQt;
+    }
+    return false;
 }
 std::string ClazyContext::qtNamespace() const
 {
-- 
2.43.0


From 8ca4c6938905a0783888037d0e247fc5b4b9f5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:07 +0000
Subject: [PATCH 09/66] fix: don't truncate line numbers of -line-filter

---
 src/ClazyContext.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ClazyContext.cpp b/src/ClazyContext.cpp
index 8847455..f3f4a88 100644
--- a/src/ClazyContext.cpp
+++ b/src/ClazyContext.cpp
@@ -17,7 +17,9 @@
 #include <llvm/Support/JSON.h>
 #include <llvm/Support/Regex.h>
 
+#include <algorithm>
 #include <cstdlib>
+#include <limits>
 
 using namespace clang;
 
@@ -64,7 +66,9 @@ static std::vector<ClazyContext::LineFilterEntry> parseLineFilter(const std::str
                 std::optional<int64_t> start = (*range)[0].getAsInteger();
                 std::optional<int64_t> end = (*range)[1].getAsInteger();
                 if (start && end) {
-                    entry.lineRanges.push_back({static_cast<unsigned>(*start), static_cast<unsigned>(*end)});
+                    constexpr int64_t maxLine = std::numeric_limits<unsigned>::max();
+                    entry.lineRanges.push_back(
+                        {static_cast<unsigned>(std::clamp<int64_t>(*start, 0, maxLine)), static_cast<unsigned>(std::clamp<int64_t>(*end, 0, maxLine))});
                 }
             }
         }
-- 
2.43.0


From 0b86d2602535937af8a07020777ae0c2ed4ad955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:15 +0000
Subject: [PATCH 10/66] fix: only-qt recognizes -DQT_CORE_LIB=1 and honours
 -UQT_CORE_LIB

---
 src/ClazyContext.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ClazyContext.cpp b/src/ClazyContext.cpp
index f3f4a88..2fa1a3b 100644
--- a/src/ClazyContext.cpp
+++ b/src/ClazyContext.cpp
@@ -178,12 +178,14 @@ void ClazyContext::registerPreprocessorCallbacks(clang::Preprocessor &pp)
 bool ClazyContext::isQt() const
 {
     // Not cached in a static, there can be several translation units with different defines
-    for (const auto &s : m_pp.Macros) {
-        if (s.first == "QT_CORE_LIB") {
-            return true;
+    bool defined = false;
+    for (const auto &[macro, isUndef] : m_pp.Macros) {
+        // It can have a value: -DQT_CORE_LIB=1, and the last of -D and -U counts
+        if (llvm::StringRef(macro).split('=').first == "QT_CORE_LIB") {
+            defined = !isUndef;
         }
     }
-    return false;
+    return defined;
 }
 std::string ClazyContext::qtNamespace() const
 {
-- 
2.43.0


From 59a87fb5ed38591fd09ce7046daddf85ad024d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:20 +0000
Subject: [PATCH 11/66] fix: run the checks on every file given to clang-tidy,
 not only the first

---
 src/ClazyClangTidyModule.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ClazyClangTidyModule.cpp b/src/ClazyClangTidyModule.cpp
index cf7f9a6..8b8b40f 100644
--- a/src/ClazyClangTidyModule.cpp
+++ b/src/ClazyClangTidyModule.cpp
@@ -58,6 +58,7 @@ public:
     ClazyCheck(StringRef CheckName, ClangTidyContext *Context)
         : ClangTidyCheck(CheckName, Context)
         , m_shouldRunClazyChecks(s_enabledChecks.empty() && clazy::VisitHelper::shouldCheckFile(Context->getCurrentFile()))
+        , m_checkName(CheckName)
         , clangTidyContext(Context)
     {
         // so that we later know which check was registered
@@ -71,6 +72,8 @@ public:
         }
         m_allChecks.clear();
         delete clazyContext;
+        // The checks are created anew for each file, the first one of the next file needs to run too
+        std::erase(s_enabledChecks, m_checkName);
     }
 
     void registerMatchers(ast_matchers::MatchFinder *Finder) override
@@ -126,6 +129,7 @@ public:
     }
 
     const bool m_shouldRunClazyChecks;
+    const std::string m_checkName;
 
     ClangTidyContext *clangTidyContext;
     ClazyContext *clazyContext = nullptr;
-- 
2.43.0


From 0bc48ee086fd6b490a5a6bdbaa365a65c6f42377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:44 +0000
Subject: [PATCH 12/66] fix: don't crash when the export-fixes argument is
 given twice

---
 src/Clazy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Clazy.cpp b/src/Clazy.cpp
index 04b9217..dec5783 100644
--- a/src/Clazy.cpp
+++ b/src/Clazy.cpp
@@ -181,7 +181,7 @@ bool ClazyASTAction::ParseArgs(const CompilerInstance &ci, const std::vector<std
         m_options |= ClazyContext::ClazyOption_IgnoreIncludedFiles;
     }
 
-    if (parseArgument("export-fixes", args)) {
+    if (parseArgument("export-fixes", args) && !args.empty()) {
         exportFixesFilename = args.at(0);
     }
 
-- 
2.43.0


From c349324f232f43719eacfa017d1b47782e48e940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:41 +0000
Subject: [PATCH 13/66] fix: errors reported by clazy don't end the analysis of
 the file

---
 src/ClazyContext.cpp     | 34 +++++++++++++++++++++++++++-------
 src/ClazyContext.h       |  8 ++++++++
 src/ClazyVisitHelper.cpp |  2 +-
 3 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/src/ClazyContext.cpp b/src/ClazyContext.cpp
index 2fa1a3b..8263280 100644
--- a/src/ClazyContext.cpp
+++ b/src/ClazyContext.cpp
@@ -105,18 +105,29 @@ ClazyContext::ClazyContext(clang::ASTContext *context,
                                                         std::string error,
                                                         const std::vector<clang::FixItHint> &fixits) {
         auto &engine = astContext->getDiagnostics();
-        // The text isn't a format string, it can have a '%' (types or strings from the user's code)
-        unsigned id = engine.getDiagnosticIDs()->getCustomDiagID(level, "%0");
-        DiagnosticBuilder B = engine.Report(loc, id);
-        B << error;
-        for (const FixItHint &fixit : fixits) {
-            if (!fixit.isNull()) {
-                B.AddFixItHint(fixit);
+        m_hadCompileErrors = hasCompileErrors();
+        {
+            // The text isn't a format string, it can have a '%' (types or strings from the user's code)
+            unsigned id = engine.getDiagnosticIDs()->getCustomDiagID(level, "%0");
+            DiagnosticBuilder B = engine.Report(loc, id);
+            B << error;
+            for (const FixItHint &fixit : fixits) {
+                if (!fixit.isNull()) {
+                    B.AddFixItHint(fixit);
+                }
             }
         }
+        if (m_errorTrap) {
+            m_errorTrap->reset();
+        }
     }))
     , m_isClangTidy(isClangTidy)
 {
+    if (context) {
+        m_hadCompileErrors = context->getDiagnostics().hasUnrecoverableErrorOccurred();
+        m_errorTrap.emplace(context->getDiagnostics());
+    }
+
     if (!headerFilter.empty()) {
         headerFilterRegex = std::make_unique<llvm::Regex>(headerFilter);
     }
@@ -191,6 +202,15 @@ std::string ClazyContext::qtNamespace() const
 {
     return accessSpecifierManager ? accessSpecifierManager->qtNamespace() : "";
 }
+bool ClazyContext::hasCompileErrors() const
+{
+    if (m_errorTrap) {
+        return m_hadCompileErrors || m_errorTrap->hasUnrecoverableErrorOccurred();
+    }
+
+    return astContext->getDiagnostics().hasUnrecoverableErrorOccurred();
+}
+
 bool ClazyContext::usingPreCompiledHeaders() const
 {
     return !m_pp.ImplicitPCHInclude.empty();
diff --git a/src/ClazyContext.h b/src/ClazyContext.h
index d532e2a..8af2d6a 100644
--- a/src/ClazyContext.h
+++ b/src/ClazyContext.h
@@ -178,6 +178,10 @@ public:
         return clazy::contains(m_checksPromotedToErrors, checkName);
     }
 
+    // Whether the code has errors, so the AST might be broken.
+    // Errors reported by clazy itself don't count, they say nothing about the AST.
+    bool hasCompileErrors() const;
+
     bool isQt() const;
 
     std::string qtNamespace() const;
@@ -210,6 +214,10 @@ public:
     const WarningReporter p_warningReporter;
 
     const bool m_isClangTidy;
+
+private:
+    bool m_hadCompileErrors = false;
+    std::optional<clang::DiagnosticErrorTrap> m_errorTrap; // Counts the errors since clazy's last report
 };
 
 #endif
diff --git a/src/ClazyVisitHelper.cpp b/src/ClazyVisitHelper.cpp
index d263a27..e438568 100644
--- a/src/ClazyVisitHelper.cpp
+++ b/src/ClazyVisitHelper.cpp
@@ -57,7 +57,7 @@ bool VisitStmt(Stmt *stmt, ClazyContext *context, const Visitors &visitors)
     }
 
     if (!context->parentMap) {
-        if (context->astContext->getDiagnostics().hasUnrecoverableErrorOccurred()) {
+        if (context->hasCompileErrors()) {
             return false; // ParentMap sometimes crashes when there were errors. Doesn't like a botched AST.
         }
 
-- 
2.43.0


From e14e760bca1b4b6d3d9c8e56859868aa3dc93790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:57 +0000
Subject: [PATCH 14/66] fix: measure the exported replacements with the
 language of the file

---
 src/Clazy.cpp         | 2 +-
 src/FixItExporter.cpp | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Clazy.cpp b/src/Clazy.cpp
index dec5783..5cd0ede 100644
--- a/src/Clazy.cpp
+++ b/src/Clazy.cpp
@@ -72,7 +72,7 @@ void ClazyASTConsumer::HandleTranslationUnit(ASTContext &ctx)
 {
     // FIXME: EndSourceFile() is called automatically, but not BeginsSourceFile()
     if (m_context->exporter) {
-        m_context->exporter->BeginSourceFile(clang::LangOptions());
+        m_context->exporter->BeginSourceFile(ctx.getLangOpts());
     }
 
     if ((m_context->options & ClazyContext::ClazyOption_OnlyQt) && !m_context->isQt()) {
diff --git a/src/FixItExporter.cpp b/src/FixItExporter.cpp
index 2e5fe40..654b721 100644
--- a/src/FixItExporter.cpp
+++ b/src/FixItExporter.cpp
@@ -120,11 +120,11 @@ tooling::Replacement FixItExporter::ConvertFixIt(const FixItHint &Hint)
             }
             clang::SourceLocation e(clang::Lexer::getLocForEndOfToken(_e, 0, SourceMgr, LangOpts));
             StringRef Text(SourceMgr.getCharacterData(b), SourceMgr.getCharacterData(e) - SourceMgr.getCharacterData(b));
-            return {SourceMgr, Hint.RemoveRange, Text};
+            return {SourceMgr, Hint.RemoveRange, Text, LangOpts};
         }
-        return {SourceMgr, Hint.RemoveRange, ""};
+        return {SourceMgr, Hint.RemoveRange, "", LangOpts};
     }
-    return {SourceMgr, Hint.RemoveRange, Hint.CodeToInsert};
+    return {SourceMgr, Hint.RemoveRange, Hint.CodeToInsert, LangOpts};
 }
 
 // This function should export diagnostics, even if they are not fixits! Needed for Qtcreator integration
-- 
2.43.0


From 565de9502ad495b90e6d85120ba8a1a3abe627b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 15/66] fix: export the fixes also if a translation unit is
 missing or compiled twice

---
 src/ClazyContext.cpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/ClazyContext.cpp b/src/ClazyContext.cpp
index 8263280..cde7123 100644
--- a/src/ClazyContext.cpp
+++ b/src/ClazyContext.cpp
@@ -159,17 +159,11 @@ ClazyContext::~ClazyContext()
     delete accessSpecifierManager;
     delete parentMap;
 
-    static unsigned long count = 0;
-    count++;
-
     if (exporter) {
-        // With clazy-standalone we use the same YAML file for all translation-units, so only
-        // write out the last one. With clazy-plugin there's a YAML file per translation unit.
-        const bool isClazyPlugin = m_translationUnitPaths.empty();
-        const bool isLast = count == m_translationUnitPaths.size();
-        if (isLast || isClazyPlugin) {
-            exporter->Export();
-        }
+        // With clazy-standalone we use the same YAML file for all translation-units. There's no telling which
+        // one is the last: a file can be missing, or have several compile commands. So each one writes what
+        // was recorded so far. With clazy-plugin there's a YAML file per translation unit.
+        exporter->Export();
         delete exporter;
     }
 
-- 
2.43.0


From 84746a043793cc2c0cc0266c84f8efe5d27c2027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 16/66] fix: keep the notes of exported diagnostics

---
 src/FixItExporter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FixItExporter.cpp b/src/FixItExporter.cpp
index 654b721..ce9a8e5 100644
--- a/src/FixItExporter.cpp
+++ b/src/FixItExporter.cpp
@@ -167,7 +167,7 @@ void FixItExporter::HandleDiagnostic(DiagnosticsEngine::Level DiagLevel, const D
         const auto FileName = SourceMgr.getFilename(Info.getLocation());
         llvm::errs() << "Handling Note for " << FileName.str() << "\n";
 #endif
-        auto diags = getTuDiag().Diagnostics.back();
+        auto &diags = getTuDiag().Diagnostics.back();
         auto diag = ConvertDiagnostic(Info);
         diags.Notes.append(1, diag.Message);
     } else {
-- 
2.43.0


From 020bdbb4c4fb23c368a0fb0f1e745bdede58918c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 17/66] fix: don't mangle exported messages without a tag

---
 src/FixItExporter.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/FixItExporter.cpp b/src/FixItExporter.cpp
index ce9a8e5..9398cb1 100644
--- a/src/FixItExporter.cpp
+++ b/src/FixItExporter.cpp
@@ -82,10 +82,13 @@ tooling::Diagnostic FixItExporter::ConvertDiagnostic(const Diagnostic &Info)
     std::string messageText;
 
     if (checkName.empty()) {
-        // Non-built-in clang warnings have the [checkName] in the message
-        messageText = TmpMessageText.slice(0, TmpMessageText.find_last_of('[') - 1).str();
-
-        checkName = TmpMessageText.slice(TmpMessageText.find_last_of('[') + 3, TmpMessageText.find_last_of(']')).str();
+        // Non-built-in clang warnings have the [checkName] in the message, if they have a tag at all
+        const llvm::StringRef text = TmpMessageText;
+        const size_t tagPos = text.ends_with("]") ? text.rfind(" [-W") : llvm::StringRef::npos;
+        messageText = text.substr(0, tagPos).str();
+        if (tagPos != llvm::StringRef::npos) {
+            checkName = text.substr(tagPos + 4).drop_back().str();
+        }
     } else {
         messageText = TmpMessageText.c_str();
     }
-- 
2.43.0


From 397b4fc05fdd84617d5a2ee910dd4a62c33926c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:34 +0000
Subject: [PATCH 18/66] fix: export the diagnostics that were promoted to
 errors

---
 src/FixItExporter.cpp | 11 ++++++++++-
 src/FixItExporter.h   |  1 +
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/FixItExporter.cpp b/src/FixItExporter.cpp
index 9398cb1..e9d7038 100644
--- a/src/FixItExporter.cpp
+++ b/src/FixItExporter.cpp
@@ -130,6 +130,12 @@ tooling::Replacement FixItExporter::ConvertFixIt(const FixItHint &Hint)
     return {SourceMgr, Hint.RemoveRange, Hint.CodeToInsert, LangOpts};
 }
 
+bool FixItExporter::isClazyError(DiagnosticsEngine::Level DiagLevel, const Diagnostic &Info)
+{
+    // Warnings can be promoted to errors, see CLAZY_CHECKS_AS_ERRORS. They are exported as well, unlike the errors of the compiler
+    return DiagLevel == DiagnosticsEngine::Error && llvm::StringRef(ConvertDiagnostic(Info).DiagnosticName).starts_with("clazy-");
+}
+
 // This function should export diagnostics, even if they are not fixits! Needed for Qtcreator integration
 void FixItExporter::HandleDiagnostic(DiagnosticsEngine::Level DiagLevel, const Diagnostic &Info)
 {
@@ -142,8 +148,11 @@ void FixItExporter::HandleDiagnostic(DiagnosticsEngine::Level DiagLevel, const D
     }
 
     // Convert and record warning diagnostics and their notes
-    if (DiagLevel == DiagnosticsEngine::Warning) {
+    if (DiagLevel == DiagnosticsEngine::Warning || isClazyError(DiagLevel, Info)) {
         auto ToolingDiag = ConvertDiagnostic(Info);
+        if (DiagLevel == DiagnosticsEngine::Error) {
+            ToolingDiag.DiagLevel = tooling::Diagnostic::Error;
+        }
         for (unsigned Idx = 0, Last = Info.getNumFixItHints(); Idx < Last; ++Idx) {
             const FixItHint &Hint = Info.getFixItHint(Idx);
             const auto replacement = ConvertFixIt(Hint);
diff --git a/src/FixItExporter.h b/src/FixItExporter.h
index 7ac084b..9058552 100644
--- a/src/FixItExporter.h
+++ b/src/FixItExporter.h
@@ -48,6 +48,7 @@ private:
     std::unique_ptr<DiagnosticConsumer> Owner;
     bool m_recordNotes = false;
     clang::tooling::Diagnostic ConvertDiagnostic(const clang::Diagnostic &Info);
+    bool isClazyError(clang::DiagnosticsEngine::Level DiagLevel, const clang::Diagnostic &Info);
     clang::tooling::Replacement ConvertFixIt(const clang::FixItHint &Hint);
 };
 
-- 
2.43.0


From d1c6141f1db0ff50fe69ea839379987f4ff3802b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:06 +0000
Subject: [PATCH 19/66] fix: use-chrono-in-qtimer doesn't crash on a division
 by zero

---
 src/checks/manuallevel/use-chrono-in-qtimer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/checks/manuallevel/use-chrono-in-qtimer.cpp b/src/checks/manuallevel/use-chrono-in-qtimer.cpp
index 28b00f5..961c24e 100644
--- a/src/checks/manuallevel/use-chrono-in-qtimer.cpp
+++ b/src/checks/manuallevel/use-chrono-in-qtimer.cpp
@@ -10,6 +10,7 @@
 #include "HierarchyUtils.h"
 #include "PreProcessorVisitor.h"
 #include <clang/AST/AST.h>
+#include <llvm/Support/MathExtras.h>
 
 using namespace clang;
 
@@ -32,10 +33,11 @@ static int unpackValue(clang::Expr *expr)
     }
 
     if (binaryOp->getOpcode() == BO_Mul) {
-        return left * right;
+        int product = 0;
+        return llvm::MulOverflow(left, right, product) ? -1 : product;
     }
 
-    if (binaryOp->getOpcode() == BO_Div) {
+    if (binaryOp->getOpcode() == BO_Div && right != 0) {
         return left / right;
     }
 
-- 
2.43.0


From 832aa6e0342e4c83685923d0c4a87bf5000ccb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:06 +0000
Subject: [PATCH 20/66] fix: use-chrono-in-qtimer looks at the called function
 only

The first member expression found anywhere below the call decided which
function is called, so arguments could make it warn about other functions
or keep it from warning.
---
 src/checks/manuallevel/use-chrono-in-qtimer.cpp | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/src/checks/manuallevel/use-chrono-in-qtimer.cpp b/src/checks/manuallevel/use-chrono-in-qtimer.cpp
index 961c24e..c6f3063 100644
--- a/src/checks/manuallevel/use-chrono-in-qtimer.cpp
+++ b/src/checks/manuallevel/use-chrono-in-qtimer.cpp
@@ -7,7 +7,6 @@
 #include "use-chrono-in-qtimer.h"
 #include "ClazyContext.h"
 #include "FixItUtils.h"
-#include "HierarchyUtils.h"
 #include "PreProcessorVisitor.h"
 #include <clang/AST/AST.h>
 #include <llvm/Support/MathExtras.h>
@@ -77,15 +76,6 @@ void UseChronoInQTimer::warn(const clang::Stmt *stmt, int value)
 
 static std::string functionName(CallExpr *callExpr)
 {
-    auto *memberCall = clazy::getFirstChildOfType<MemberExpr>(callExpr);
-    if (memberCall) {
-        auto *methodDecl = dyn_cast<CXXMethodDecl>(memberCall->getMemberDecl());
-        if (!methodDecl) {
-            return {};
-        }
-        return methodDecl->getQualifiedNameAsString();
-    }
-
     FunctionDecl *fdecl = callExpr->getDirectCallee();
     if (fdecl) {
         return fdecl->getQualifiedNameAsString();
-- 
2.43.0


From 7285cf8b682e3c212c199bf42b8f8d5b72326eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:07 +0000
Subject: [PATCH 21/66] fix: qcolor-from-literal replaces QColor::fromString
 only if the literal is the name

The first literal anywhere below the argument was taken for the name, e.g. of
a conditional or of another call, and literals of wide characters were
reported to have a wrong length.
---
 src/checks/level0/qcolor-from-literal.cpp | 28 +++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/checks/level0/qcolor-from-literal.cpp b/src/checks/level0/qcolor-from-literal.cpp
index 73c3fa7..192f136 100644
--- a/src/checks/level0/qcolor-from-literal.cpp
+++ b/src/checks/level0/qcolor-from-literal.cpp
@@ -52,6 +52,30 @@ static bool isStringColorLiteralPattern(StringRef str)
     return isSingleDigitRgb(str) || isDoubleDigitRgb(str) || isDoubleDigitRgba(str) || isTripleDigitRgb(str) || isQuadrupleDigitRgb(str);
 }
 
+// The narrow string literal the expression has the text of, looking only through conversions to other string types
+static const StringLiteral *literalOf(const Expr *expr)
+{
+    while (expr) {
+        expr = expr->IgnoreUnlessSpelledInSource();
+        if (auto *lt = dyn_cast<StringLiteral>(expr)) {
+            return lt->getCharByteWidth() == 1 ? lt : nullptr;
+        }
+
+        if (auto *call = dyn_cast<UserDefinedLiteral>(expr)) {
+            expr = call->getNumArgs() > 0 ? call->getArg(0) : nullptr;
+        } else if (auto *cast = dyn_cast<ExplicitCastExpr>(expr)) {
+            expr = cast->getSubExpr();
+        } else if (auto *ctor = dyn_cast<CXXConstructExpr>(expr)) {
+            const bool isConversion = ctor->getNumArgs() == 1 || (ctor->getNumArgs() > 1 && isa<CXXDefaultArgExpr>(ctor->getArg(1)));
+            expr = isConversion ? ctor->getArg(0) : nullptr;
+        } else {
+            return nullptr;
+        }
+    }
+
+    return nullptr;
+}
+
 class QColorFromLiteral_Callback : public ClazyAstMatcherCallback
 {
 public:
@@ -63,8 +87,8 @@ public:
         const Expr *replaceExpr = lt; // When QColor::fromString is used, we want to wrap the QColor constructor around it
         bool isStaticFromString = false;
         if (auto res = result.Nodes.getNodeAs<CallExpr>("methodCall"); res && res->getNumArgs() == 1) {
-            if (Expr *argExpr = const_cast<Expr *>(res->getArg(0))) {
-                lt = clazy::getFirstChildOfType<StringLiteral>(argExpr);
+            if (const Expr *argExpr = res->getArg(0)) {
+                lt = literalOf(argExpr);
                 replaceExpr = res;
                 isStaticFromString = true;
             }
-- 
2.43.0


From 482a5858ff407deead8db59ffe869d5578ab6f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:07 +0000
Subject: [PATCH 22/66] fix: qcolor-from-literal's fix-its compile for black
 and for conversions

0x000000 is a null pointer constant too, so the call of the constructor was
ambiguous, and four values can't replace a literal that is converted.
---
 src/checks/level0/qcolor-from-literal.cpp | 25 +++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/checks/level0/qcolor-from-literal.cpp b/src/checks/level0/qcolor-from-literal.cpp
index 192f136..284475e 100644
--- a/src/checks/level0/qcolor-from-literal.cpp
+++ b/src/checks/level0/qcolor-from-literal.cpp
@@ -127,17 +127,24 @@ public:
             std::string gColor = getHexValue(str, startPos, endPos, increment);
             std::string bColor = getHexValue(str, startPos, endPos, increment);
 
+            // For black the RGB int value would be ambiguous, as it's a null pointer constant too
+            const bool isBlack = rColor == "0" && gColor == "0" && bColor == "0";
+            const bool separateColors = doubleDigitA || isBlack;
+
             std::string fixit;
             std::string message;
-            if (doubleDigitA) {
+            if (separateColors) {
                 const static std::string sep = ", ";
-                fixit = prefixHex(rColor) + sep + prefixHex(gColor) + sep + prefixHex(bColor) + sep + prefixHex(aColor);
+                fixit = prefixHex(rColor) + sep + prefixHex(gColor) + sep + prefixHex(bColor);
+                if (doubleDigitA) {
+                    fixit += sep + prefixHex(aColor);
+                }
                 message = "The QColor ctor taking ints is cheaper than one taking string literals";
             } else {
                 fixit = "0x" + twoDigit(rColor) + twoDigit(gColor) + twoDigit(bColor);
                 message = "The QColor ctor taking RGB int value is cheaper than one taking string literals";
             }
-            if (isStaticFromString) {
+            if (isStaticFromString || (separateColors && isConversion(result))) {
                 fixit = "QColor(" + fixit + ")";
             }
             m_check->emitWarning(replaceExpr->getBeginLoc(), message, {clang::FixItHint::CreateReplacement(replaceExpr->getSourceRange(), fixit)});
@@ -146,6 +153,13 @@ public:
             m_check->emitWarning(replaceExpr->getBeginLoc(), "The QColor ctor taking QRgba64 is cheaper than one taking string literals");
         }
     }
+    // Without parentheses or braces of the QColor around the literal it can't be replaced by several arguments
+    static bool isConversion(const MatchFinder::MatchResult &result)
+    {
+        auto *ctor = result.Nodes.getNodeAs<CXXConstructExpr>("myCtor");
+        return ctor && (ctor->getParenOrBraceRange().isInvalid() || result.Nodes.getNodeAs<ExplicitCastExpr>("myCast"));
+    }
+
     inline std::string twoDigit(const std::string &in)
     {
         return in.length() == 1 ? in + in : in;
@@ -194,7 +208,10 @@ void QColorFromLiteral::VisitStmt(Stmt *stmt)
 void QColorFromLiteral::registerASTMatchers(MatchFinder &finder)
 {
     m_astMatcherCallBack = std::make_unique<QColorFromLiteral_Callback>(this);
-    finder.addMatcher(cxxConstructExpr(hasDeclaration(namedDecl(hasName("QColor"))), hasArgument(0, stringLiteral().bind("myLiteral"))),
+    finder.addMatcher(cxxConstructExpr(hasDeclaration(namedDecl(hasName("QColor"))),
+                                       hasArgument(0, stringLiteral().bind("myLiteral")),
+                                       optionally(hasParent(explicitCastExpr(unless(cxxFunctionalCastExpr())).bind("myCast"))))
+                          .bind("myCtor"),
                       m_astMatcherCallBack.get());
     finder.addMatcher(callExpr(hasDeclaration(cxxMethodDecl(hasName("fromString"), hasParent(cxxRecordDecl(hasName("QColor")))))).bind("methodCall"),
                       m_astMatcherCallBack.get());
-- 
2.43.0


From a9454b1e8142bca81b6b46fc92be8d2fed441573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:21 +0000
Subject: [PATCH 23/66] fix: a QT_NAMESPACE that is not a name doesn't crash

---
 src/AccessSpecifierManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AccessSpecifierManager.cpp b/src/AccessSpecifierManager.cpp
index 7fabf20..d61ca30 100644
--- a/src/AccessSpecifierManager.cpp
+++ b/src/AccessSpecifierManager.cpp
@@ -78,7 +78,7 @@ public:
         IdentifierInfo *ii = MacroNameTok.getIdentifierInfo();
         if (ii && ii->getName() == "QT_NAMESPACE") {
             const auto tokens = MD->getDefinition().getMacroInfo()->tokens();
-            if (tokens.size() == 1) {
+            if (tokens.size() == 1 && tokens.front().getIdentifierInfo()) {
                 m_qtNamespace = tokens.front().getIdentifierInfo()->getName();
             }
         }
-- 
2.43.0


From 79ec511b652706c2068d3414baded7cbc5174965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:21 +0000
Subject: [PATCH 24/66] fix: a connect() with too few arguments doesn't crash

---
 src/QtUtils.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/QtUtils.cpp b/src/QtUtils.cpp
index 402eb1b..d8d6935 100644
--- a/src/QtUtils.cpp
+++ b/src/QtUtils.cpp
@@ -180,6 +180,10 @@ std::unordered_map<std::string, std::vector<clazy::MemberConstcounterpartPair>>
 
 bool clazy::isQMetaMethod(CallExpr *Call, unsigned int argIndex, const std::string &qtNamespace)
 {
+    if (argIndex >= Call->getNumArgs()) {
+        return false;
+    }
+
     Expr *arg = Call->getArg(argIndex);
     QualType type = arg->getType();
     if (!type->isRecordType()) {
@@ -370,7 +374,7 @@ CXXMethodDecl *clazy::pmfFromConnect(CallExpr *funcCall, int argIndex, const std
     }
 
     const int numArgs = funcCall->getNumArgs();
-    if (argIndex >= numArgs) {
+    if (argIndex < 0 || argIndex >= numArgs) {
         return nullptr;
     }
 
-- 
2.43.0


From 422b2bc2eb723df1b0f6cf32efff907284eb5b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:21 +0000
Subject: [PATCH 25/66] fix: a template argument that is not a type doesn't
 crash missing-typeinfo

---
 src/TemplateUtils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/TemplateUtils.cpp b/src/TemplateUtils.cpp
index 5727631..5ebe6d1 100644
--- a/src/TemplateUtils.cpp
+++ b/src/TemplateUtils.cpp
@@ -94,7 +94,7 @@ std::string clazy::getTemplateArgumentTypeStr(ClassTemplateSpecializationDecl *s
     }
 
     const auto &args = specialization->getTemplateArgs();
-    if (args.size() <= index) {
+    if (args.size() <= index || args[index].getKind() != TemplateArgument::Type) {
         return {};
     }
 
@@ -116,7 +116,7 @@ clang::QualType clazy::getTemplateArgumentType(ClassTemplateSpecializationDecl *
     }
 
     const auto &args = specialization->getTemplateArgs();
-    if (args.size() <= index) {
+    if (args.size() <= index || args[index].getKind() != TemplateArgument::Type) {
         return {};
     }
 
-- 
2.43.0


From faeb46a1460a9e982274327e4b3d106a1e895736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:21 +0000
Subject: [PATCH 26/66] fix: fully-qualified-moc-types copes with template
 arguments that are not types

---
 src/checks/level0/fully-qualified-moc-types.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checks/level0/fully-qualified-moc-types.cpp b/src/checks/level0/fully-qualified-moc-types.cpp
index c2b038e..56ef9aa 100644
--- a/src/checks/level0/fully-qualified-moc-types.cpp
+++ b/src/checks/level0/fully-qualified-moc-types.cpp
@@ -203,7 +203,7 @@ std::string FullyQualifiedMocTypes::resolveTemplateType(const clang::TemplateSpe
             str += ", ";
         }
         firstArg = false;
-        if (arg.getKind() == TemplateArgument::Expression) {
+        if (arg.getKind() != TemplateArgument::Type) {
             // std::bitset<int(8)>, here int(8) is an expression!
             llvm::raw_string_ostream outputStream(str);
             arg.print(astContext()->getPrintingPolicy(), outputStream, true);
-- 
2.43.0


From bfb03eb90c6a0eb6aa8cf009f063735bf9ebbd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:21 +0000
Subject: [PATCH 27/66] fix: mutable-container-key copes with template
 arguments that are not types

---
 src/checks/level0/mutable-container-key.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checks/level0/mutable-container-key.cpp b/src/checks/level0/mutable-container-key.cpp
index 28b10cf..183ddbf 100644
--- a/src/checks/level0/mutable-container-key.cpp
+++ b/src/checks/level0/mutable-container-key.cpp
@@ -33,7 +33,7 @@ void MutableContainerKey::VisitDecl(clang::Decl *decl)
     }
 
     const TemplateArgumentList &templateArguments = tsdecl->getTemplateArgs();
-    if (templateArguments.size() != 2) {
+    if (templateArguments.size() != 2 || templateArguments[0].getKind() != TemplateArgument::Type) {
         return;
     }
 
-- 
2.43.0


From 0d10bbaad51cf5faf355f01e6e0a09a18c6ba8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:21 +0000
Subject: [PATCH 28/66] fix: qmap-with-pointer-key copes with template
 arguments that are not types

---
 src/checks/level0/qmap-with-pointer-key.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checks/level0/qmap-with-pointer-key.cpp b/src/checks/level0/qmap-with-pointer-key.cpp
index 95f4aa3..2ec4301 100644
--- a/src/checks/level0/qmap-with-pointer-key.cpp
+++ b/src/checks/level0/qmap-with-pointer-key.cpp
@@ -27,7 +27,7 @@ void QMapWithPointerKey::VisitDecl(clang::Decl *decl)
     }
 
     const TemplateArgumentList &templateArguments = tsdecl->getTemplateArgs();
-    if (templateArguments.size() != 2) {
+    if (templateArguments.size() != 2 || templateArguments[0].getKind() != TemplateArgument::Type) {
         return;
     }
 
-- 
2.43.0


From a15feeeff8e3c333c7a953e8e6f6fabb0ddbb022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:21 +0000
Subject: [PATCH 29/66] fix: qstring-arg copes with arg() that has few
 parameters

---
 src/checks/level0/qstring-arg.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/checks/level0/qstring-arg.cpp b/src/checks/level0/qstring-arg.cpp
index 3801f1d..54649a8 100644
--- a/src/checks/level0/qstring-arg.cpp
+++ b/src/checks/level0/qstring-arg.cpp
@@ -76,6 +76,10 @@ static bool isArgFuncWithOnlyQString(CallExpr *callExpr)
         return false;
     }
 
+    if (method->getNumParams() < 2 || callExpr->getNumArgs() < 2) {
+        return false;
+    }
+
     ParmVarDecl *secondParam = method->getParamDecl(1);
     if (clazy::classNameFor(secondParam) == "QString") {
         return true;
@@ -211,7 +215,7 @@ void QStringArg::VisitStmt(clang::Stmt *stmt)
     }
 
     CXXMethodDecl *method = isArgMethod(memberCall->getDirectCallee(), "QString");
-    if (!method) {
+    if (!method || method->getNumParams() < 3 || memberCall->getNumArgs() < 3) {
         return;
     }
 
-- 
2.43.0


From afc6477a1900c5b11d71d49e84d9915002bd012f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:21 +0000
Subject: [PATCH 30/66] fix: wrong-qglobalstatic copes with a class without
 definition

---
 src/checks/level0/wrong-qglobalstatic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checks/level0/wrong-qglobalstatic.cpp b/src/checks/level0/wrong-qglobalstatic.cpp
index 2f36054..12cfdea 100644
--- a/src/checks/level0/wrong-qglobalstatic.cpp
+++ b/src/checks/level0/wrong-qglobalstatic.cpp
@@ -71,7 +71,7 @@ void WrongQGlobalStatic::VisitStmt(clang::Stmt *stmt)
     }
 
     if (usersClass) {
-        if (usersClass->hasTrivialDefaultConstructor() && usersClass->hasTrivialDestructor()) {
+        if (usersClass->hasDefinition() && usersClass->hasTrivialDefaultConstructor() && usersClass->hasTrivialDestructor()) {
             emitWarning(loc, "Don't use Q_GLOBAL_STATIC with trivial type (" + usersClass->getNameAsString() + ')');
         }
     } else {
-- 
2.43.0


From de06cf52367639327f357ad3737ad6ccc874eb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:21 +0000
Subject: [PATCH 31/66] fix: install-event-filter copes with a class without
 definition

---
 src/checks/level1/install-event-filter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/checks/level1/install-event-filter.cpp b/src/checks/level1/install-event-filter.cpp
index 03a7cc0..6f43b1c 100644
--- a/src/checks/level1/install-event-filter.cpp
+++ b/src/checks/level1/install-event-filter.cpp
@@ -44,6 +44,10 @@ void InstallEventFilter::VisitStmt(clang::Stmt *stmt)
     arg1 = arg1 ? arg1->IgnoreCasts() : nullptr;
 
     const CXXRecordDecl *record = clazy::typeAsRecord(arg1);
+    if (record && !record->hasDefinition()) {
+        return; // We can't know if it overrides it
+    }
+
     auto methods = Utils::methodsFromString(record, "eventFilter");
 
     for (auto *method : methods) {
-- 
2.43.0


From ba5bbd1e6b82ba0fbb77176dd0a46419ce09fc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:21 +0000
Subject: [PATCH 32/66] fix: modernize-overloaded-connects copes with a call
 without known callee

---
 src/checks/level1/modernize-overloaded-connects.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checks/level1/modernize-overloaded-connects.cpp b/src/checks/level1/modernize-overloaded-connects.cpp
index cc9ad10..fe87528 100644
--- a/src/checks/level1/modernize-overloaded-connects.cpp
+++ b/src/checks/level1/modernize-overloaded-connects.cpp
@@ -73,7 +73,7 @@ void ModernizeOverloadedConnects::checkConnectArg(CallExpr *call, int numArgToCh
         }
     }
     if (auto callExpr = dyn_cast<CallExpr>(argToCheck)) {
-        if (auto calleeDecl = dyn_cast<CXXMethodDecl>(callExpr->getDirectCallee())) {
+        if (auto calleeDecl = dyn_cast_or_null<CXXMethodDecl>(callExpr->getDirectCallee())) {
             if (calleeDecl->getNameAsString() == "of" && calleeDecl->getParent()->getNameAsString() == "QNonConstOverload") {
                 if (isMethodOverloaded) {
                     std::vector<FixItHint> fixits{
-- 
2.43.0


From 5b78bee1585eedc80536cc22c748d85bc73dff2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:21 +0000
Subject: [PATCH 33/66] fix: readlock-detaching copes with pointers to members
 and locks outside of a block

---
 src/checks/level1/readlock-detaching.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/checks/level1/readlock-detaching.cpp b/src/checks/level1/readlock-detaching.cpp
index 59359b7..d0e89bb 100644
--- a/src/checks/level1/readlock-detaching.cpp
+++ b/src/checks/level1/readlock-detaching.cpp
@@ -91,7 +91,10 @@ public:
     }
     bool VisitCXXMemberCallExpr(CXXMemberCallExpr const *call)
     {
-        const auto recordName = call->getRecordDecl()->getNameAsString();
+        if (!call->getMethodDecl()) { // a call through a pointer to member
+            return true;
+        }
+        const auto recordName = call->getMethodDecl()->getParent()->getNameAsString();
         // We only care about members for now
         const bool isLocker = recordName == "QReadLocker" || recordName == "QReadWriteLock" || recordName == "QBasicReadWriteLock";
         if (!llvm::isa<MemberExpr>(call->getImplicitObjectArgument()) && !isLocker) {
@@ -155,6 +158,9 @@ public:
 
         if (const auto lockCall = result.Nodes.getNodeAs<CXXMemberCallExpr>("qreadwritelockCall")) {
             const auto surroundingStmt = getSorroundingCompondStmt(*lockCall);
+            if (!surroundingStmt) {
+                return;
+            }
             // The end location for sure needs to be adjusted within the visitor. We just assume it is going to be in the same block the lock was locked
             MemberCallVisitor visitor(result.Context, m_check, SourceRange(lockCall->getBeginLoc(), surroundingStmt->getEndLoc()));
             visitor.TraverseStmt(const_cast<CompoundStmt *>(surroundingStmt));
-- 
2.43.0


From 36ac1b2a68636ea0a770982d36437d82eb63439c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:21 +0000
Subject: [PATCH 34/66] fix: copyable-polymorphic copes with dependent base
 classes

---
 src/checks/level2/copyable-polymorphic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checks/level2/copyable-polymorphic.cpp b/src/checks/level2/copyable-polymorphic.cpp
index 9ade947..de4e901 100644
--- a/src/checks/level2/copyable-polymorphic.cpp
+++ b/src/checks/level2/copyable-polymorphic.cpp
@@ -44,7 +44,7 @@ static bool hasPublicCopyInAncestors(const CXXRecordDecl *record)
     for (auto base : record->bases()) {
         if (const Type *t = base.getType().getTypePtrOrNull()) {
             const CXXRecordDecl *baseRecord = t->getAsCXXRecordDecl();
-            if (hasPublicCopy(baseRecord)) {
+            if (baseRecord && hasPublicCopy(baseRecord)) {
                 return true;
             }
             if (hasPublicCopyInAncestors(t->getAsCXXRecordDecl())) {
-- 
2.43.0


From b14e2f5ee5a8ae2172bd95b0650c1248c52892de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:21 +0000
Subject: [PATCH 35/66] fix: ctor-missing-parent-argument copes with a class
 without known base

---
 src/checks/level2/ctor-missing-parent-argument.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/checks/level2/ctor-missing-parent-argument.cpp b/src/checks/level2/ctor-missing-parent-argument.cpp
index a7f8781..27ca87e 100644
--- a/src/checks/level2/ctor-missing-parent-argument.cpp
+++ b/src/checks/level2/ctor-missing-parent-argument.cpp
@@ -63,6 +63,10 @@ void CtorMissingParentArgument::VisitDecl(Decl *decl)
 
     if (numCtors > 0 && !hasQObjectParam) {
         clang::CXXRecordDecl *baseClass = clazy::getQObjectBaseClass(record, m_context->qtNamespace());
+        if (!baseClass) { // It's QObject itself
+            return;
+        }
+
         const bool baseHasQObjectParam = clazy::recordHasCtorWithParam(baseClass, parentType, /*by-ref*/ ok, /*by-ref*/ numCtors);
         if (ok && !baseHasQObjectParam && sm().isInSystemHeader(baseClass->getBeginLoc())) {
             // If the base class ctors don't accept QObject, and it's declared in a system header don't warn
-- 
2.43.0


From bf4b3a3af0be6812e6b7e6f104c1fe7ed02fbcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:22 +0000
Subject: [PATCH 36/66] fix: isempty-vs-count copes with pointers to members
 and with calls without a parent

---
 src/checks/manuallevel/isempty-vs-count.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/checks/manuallevel/isempty-vs-count.cpp b/src/checks/manuallevel/isempty-vs-count.cpp
index 2ffb9a5..c49feed 100644
--- a/src/checks/manuallevel/isempty-vs-count.cpp
+++ b/src/checks/manuallevel/isempty-vs-count.cpp
@@ -45,10 +45,11 @@ void IsEmptyVSCount::VisitStmt(clang::Stmt *stmt)
                 ? dyn_cast<IntegerLiteral>(dyn_cast<ImplicitCastExpr>(binaryOpt->getRHS())->getSubExpr())
                 : dyn_cast<IntegerLiteral>(binaryOpt->getRHS());
 
-            if (!intliteral) {
+            auto *calleeExpr = dyn_cast<MemberExpr>(method->getCallee());
+            if (!intliteral || !calleeExpr) {
                 return;
             }
-            auto *baseExpr = dyn_cast<MemberExpr>(method->getCallee())->getBase()->IgnoreParenImpCasts();
+            auto *baseExpr = calleeExpr->getBase()->IgnoreParenImpCasts();
             StringRef baseText = getSourceText(baseExpr);
 
             if ((isEqual && intliteral->getValue().isZero()) || (isSmaller && intliteral->getValue().isOne())) {
@@ -102,7 +103,7 @@ void IsEmptyVSCount::VisitStmt(clang::Stmt *stmt)
     SourceRange fixitRange = memberCall->getSourceRange();
     std::string operatorPrefix = "!";
     auto *parent = m_context->parentMap->getParent(stmt);
-    if (auto unaryOp = dyn_cast<UnaryOperator>(parent)) {
+    if (auto unaryOp = dyn_cast_or_null<UnaryOperator>(parent)) {
         if (unaryOp->getOpcode() == UnaryOperator::Opcode::UO_LNot) {
             operatorPrefix = "";
             fixitRange = unaryOp->getSourceRange();
-- 
2.43.0


From 128f529c72ce67af3f6dde75a416eac6133549ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:22 +0000
Subject: [PATCH 37/66] fix: modernize-list-initialization copes with several
 declarations and unary operators

---
 src/checks/manuallevel/modernize-list-initialization.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/checks/manuallevel/modernize-list-initialization.cpp b/src/checks/manuallevel/modernize-list-initialization.cpp
index 0b3c8ea..b51ebd3 100644
--- a/src/checks/manuallevel/modernize-list-initialization.cpp
+++ b/src/checks/manuallevel/modernize-list-initialization.cpp
@@ -16,7 +16,7 @@ using namespace clang;
 
 void ModernizeListInitialization::VisitStmt(clang::Stmt *stmt)
 {
-    if (auto expr = dyn_cast<DeclStmt>(stmt)) {
+    if (auto expr = dyn_cast<DeclStmt>(stmt); expr && expr->isSingleDecl()) {
         if (auto varDecl = dyn_cast<VarDecl>(expr->getSingleDecl()); varDecl && varDecl->hasInit()) {
             if (auto *initExpr = dyn_cast<ExprWithCleanups>(varDecl->getInit())) {
                 const std::string name = initExpr->getType().getUnqualifiedType().getAsString();
@@ -50,7 +50,7 @@ void ModernizeListInitialization::VisitStmt(clang::Stmt *stmt)
             return;
         }
         auto parent = m_context->parentMap->getParent(topLevelOperatorCall);
-        if (!isa<ImplicitCastExpr>(parent)) {
+        if (!parent || !isa<ImplicitCastExpr>(parent)) {
             return;
         }
         checkOperatorCallListInitialization({parent->getBeginLoc(), topLevelOperatorCall->getEndLoc()}, topLevelOperatorCall);
@@ -61,7 +61,7 @@ void ModernizeListInitialization::checkOperatorCallListInitialization(clang::Sou
 {
     std::vector<std::string> replacementTexts;
     auto opCall = operatorCall;
-    while (opCall && opCall->getNumArgs() > 0) {
+    while (opCall && opCall->getNumArgs() > 1) {
         auto firstArg = opCall->getArg(1);
         std::string sourceText = getSourceText(firstArg).str();
 #if LLVM_VERSION_MAJOR < 20
-- 
2.43.0


From 1c65be96dd48c4d5ee4afac335c2b74e2c3d2900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:22 +0000
Subject: [PATCH 38/66] fix: qhash-with-char-pointer-key copes with template
 arguments that are not types

---
 src/checks/manuallevel/qhash-with-char-pointer-key.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checks/manuallevel/qhash-with-char-pointer-key.cpp b/src/checks/manuallevel/qhash-with-char-pointer-key.cpp
index 10f543f..51a0f69 100644
--- a/src/checks/manuallevel/qhash-with-char-pointer-key.cpp
+++ b/src/checks/manuallevel/qhash-with-char-pointer-key.cpp
@@ -25,7 +25,7 @@ void QHashWithCharPointerKey::VisitDecl(clang::Decl *decl)
     }
 
     const TemplateArgumentList &templateArguments = tsdecl->getTemplateArgs();
-    if (templateArguments.size() != 2) {
+    if (templateArguments.size() != 2 || templateArguments[0].getKind() != TemplateArgument::Type) {
         return;
     }
 
-- 
2.43.0


From be0296b2cb4c56b0c92400e2dce83c0460c552ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:22 +0000
Subject: [PATCH 39/66] fix: qproperty-type-mismatch copes with a Q_PROPERTY
 without a name

---
 src/checks/manuallevel/qproperty-type-mismatch.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/checks/manuallevel/qproperty-type-mismatch.cpp b/src/checks/manuallevel/qproperty-type-mismatch.cpp
index 6ae66b0..70ae359 100644
--- a/src/checks/manuallevel/qproperty-type-mismatch.cpp
+++ b/src/checks/manuallevel/qproperty-type-mismatch.cpp
@@ -243,9 +243,12 @@ void QPropertyTypeMismatch::VisitMacroExpands(const clang::Token &MacroNameTok,
         return str == "*"sv || str == "&"sv;
     };
 
-    for (; isModifier(split[splitIndex]) || p.type.empty(); ++splitIndex) {
+    for (; splitIndex < split.size() && (isModifier(split[splitIndex]) || p.type.empty()); ++splitIndex) {
         p.type += split[splitIndex];
     }
+    if (splitIndex == split.size()) {
+        return; // there is no name
+    }
 
     // Handle name
     p.name = split[splitIndex];
-- 
2.43.0


From 6941b93534af28d1f610cda92e8959492177d76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:22 +0000
Subject: [PATCH 40/66] fix: qvariant-template-instantiation copes with
 template arguments that are not types

---
 src/checks/manuallevel/qvariant-template-instantiation.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/checks/manuallevel/qvariant-template-instantiation.cpp b/src/checks/manuallevel/qvariant-template-instantiation.cpp
index 498295d..9bbbb47 100644
--- a/src/checks/manuallevel/qvariant-template-instantiation.cpp
+++ b/src/checks/manuallevel/qvariant-template-instantiation.cpp
@@ -63,12 +63,14 @@ void QVariantTemplateInstantiation::VisitStmt(clang::Stmt *stm)
         if (const auto *templateDecl = specDecl->getSpecializedTemplate()) {
             if (templateDecl->getNameAsString() == "QHash" || templateDecl->getNameAsString() == "QMap") {
                 const TemplateArgumentList &templateArgs = specDecl->getTemplateArgs();
-                if (!(templateArgs.size() == 2) || !(templateArgs.get(1).getAsType().getAsString() == "QVariant")) {
+                if (!(templateArgs.size() == 2) || templateArgs.get(1).getKind() != TemplateArgument::Type
+                    || !(templateArgs.get(1).getAsType().getAsString() == "QVariant")) {
                     return;
                 }
             } else if (templateDecl->getNameAsString() == "QList") {
                 const TemplateArgumentList &templateArgs = specDecl->getTemplateArgs();
-                if (!(templateArgs.size() == 1) || !(templateArgs.get(0).getAsType().getAsString() == "QVariant")) {
+                if (!(templateArgs.size() == 1) || templateArgs.get(0).getKind() != TemplateArgument::Type
+                    || !(templateArgs.get(0).getAsType().getAsString() == "QVariant")) {
                     return;
                 }
             }
-- 
2.43.0


From 82ab4f181fd249d6273cbe39f264278b806e9530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:22 +0000
Subject: [PATCH 41/66] fix: reserve-candidates copes with methods without
 parameters

---
 src/checks/manuallevel/reserve-candidates.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checks/manuallevel/reserve-candidates.cpp b/src/checks/manuallevel/reserve-candidates.cpp
index 7950c4e..92b7c67 100644
--- a/src/checks/manuallevel/reserve-candidates.cpp
+++ b/src/checks/manuallevel/reserve-candidates.cpp
@@ -64,7 +64,7 @@ bool ReserveCandidates::isCandidateMethod(CXXMethodDecl *methodDecl)
         return false;
     }
 
-    if (!clazy::isAReserveClass(classDecl, m_context->qtNamespace())) {
+    if (!clazy::isAReserveClass(classDecl, m_context->qtNamespace()) || methodDecl->getNumParams() == 0) {
         return false;
     }
 
-- 
2.43.0


From 0640bf03ad483a6fde8337be588a21fd976fe06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:22 +0000
Subject: [PATCH 42/66] fix: unneeded-cast copes with other functions named
 qobject_cast

---
 src/checks/manuallevel/unneeded-cast.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/checks/manuallevel/unneeded-cast.cpp b/src/checks/manuallevel/unneeded-cast.cpp
index fe0bf35..3601b73 100644
--- a/src/checks/manuallevel/unneeded-cast.cpp
+++ b/src/checks/manuallevel/unneeded-cast.cpp
@@ -32,7 +32,7 @@ inline bool is_qobject_cast(clang::Stmt *s, clang::CXXRecordDecl **castTo = null
 {
     if (auto *callExpr = llvm::dyn_cast<clang::CallExpr>(s)) {
         clang::FunctionDecl *func = callExpr->getDirectCallee();
-        if (!func || clazy::name(func) != "qobject_cast") {
+        if (!func || clazy::name(func) != "qobject_cast" || callExpr->getNumArgs() == 0) {
             return false;
         }
 
@@ -52,7 +52,7 @@ inline bool is_qobject_cast(clang::Stmt *s, clang::CXXRecordDecl **castTo = null
 
         if (castTo) {
             const auto *templateArgs = func->getTemplateSpecializationArgs();
-            if (templateArgs->size() == 1) {
+            if (templateArgs && templateArgs->size() == 1 && templateArgs->get(0).getKind() == clang::TemplateArgument::Type) {
                 const clang::TemplateArgument &arg = templateArgs->get(0);
                 clang::QualType qt = clazy::pointeeQualType(arg.getAsType());
                 if (!qt.isNull()) {
@@ -133,6 +133,10 @@ bool UnneededCast::handleQObjectCast(Stmt *stm)
         return false;
     }
 
+    if (!castFrom || !castTo) {
+        return false;
+    }
+
     return maybeWarn(stm, castFrom, castTo, /*isQObjectCast=*/true);
 }
 
-- 
2.43.0


From 70d5d6df4c288c7830ffc526d7d872160e41b7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:22 +0000
Subject: [PATCH 43/66] fix: detaching-member copes with iterators that are
 pointers

---
 src/checks/manuallevel/detaching-member.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/checks/manuallevel/detaching-member.cpp b/src/checks/manuallevel/detaching-member.cpp
index ae7cdf2..bdad8cb 100644
--- a/src/checks/manuallevel/detaching-member.cpp
+++ b/src/checks/manuallevel/detaching-member.cpp
@@ -130,8 +130,10 @@ void DetachingMember::VisitStmt(clang::Stmt *stm)
                         ParmVarDecl *param = parentFunc->getParamDecl(i);
 
                         // Check that the record declarations have the same type
-                        if (param->getType().getTypePtr()->getAsRecordDecl()->getNameAsString()
-                            == memberCall->getType().getTypePtr()->getAsRecordDecl()->getNameAsString()) {
+                        // (there's none if the iterator is a pointer)
+                        const auto *paramRecord = param->getType().getTypePtr()->getAsRecordDecl();
+                        const auto *iteratorRecord = memberCall->getType().getTypePtr()->getAsRecordDecl();
+                        if (paramRecord && iteratorRecord && paramRecord->getNameAsString() == iteratorRecord->getNameAsString()) {
                             return;
                         }
                         break;
-- 
2.43.0


From 2cd10615e148c14c701fb8d6b382483816b59f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:22 +0000
Subject: [PATCH 44/66] fix: compare-member-check copes with a return without a
 value

---
 src/checks/manuallevel/compare-member-check.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/checks/manuallevel/compare-member-check.cpp b/src/checks/manuallevel/compare-member-check.cpp
index 7bc430c..533d445 100644
--- a/src/checks/manuallevel/compare-member-check.cpp
+++ b/src/checks/manuallevel/compare-member-check.cpp
@@ -81,6 +81,8 @@ public:
                 if (!returnStmt)
                     return;
                 const Expr *returnExpr = returnStmt->getRetValue();
+                if (!returnExpr)
+                    return;
                 if (const auto *exprWithCleanups = dyn_cast<ExprWithCleanups>(returnExpr)) {
                     if (auto opCallExpr = dyn_cast<CXXOperatorCallExpr>(exprWithCleanups->getSubExpr())) {
                         const Expr *lhs = opCallExpr->getArg(0);
-- 
2.43.0


From d87082699b82935785a747a4c873a630817ac778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:01 +0000
Subject: [PATCH 45/66] fix: missing-typeinfo copes with dependent types

---
 src/checks/level2/missing-typeinfo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checks/level2/missing-typeinfo.cpp b/src/checks/level2/missing-typeinfo.cpp
index ed8f3e3..ea38e03 100644
--- a/src/checks/level2/missing-typeinfo.cpp
+++ b/src/checks/level2/missing-typeinfo.cpp
@@ -48,7 +48,7 @@ void MissingTypeInfo::VisitDecl(clang::Decl *decl)
     QualType qt2 = clazy::getTemplateArgumentType(tstdecl, 0);
     const Type *t = qt2.getTypePtrOrNull();
     CXXRecordDecl *record = t ? t->getAsCXXRecordDecl() : nullptr;
-    if (!record || !record->getDefinition() || typeHasClassification(qt2)) {
+    if (!record || !record->getDefinition() || t->isDependentType() || typeHasClassification(qt2)) {
         return; // Don't crash if we only have a fwd decl
     }
 
-- 
2.43.0


From 9725a40f014e49e4ea2b7b8a696f5174afbe8c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:01 +0000
Subject: [PATCH 46/66] fix: finding the root class copes with a class that
 isn't defined yet

---
 src/Utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utils.cpp b/src/Utils.cpp
index 82c73f4..c0c04d9 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -773,7 +773,7 @@ std::vector<CallExpr *> Utils::callListForChain(CallExpr *lastCallExpr)
 
 CXXRecordDecl *Utils::rootBaseClass(CXXRecordDecl *derived)
 {
-    if (!derived || derived->getNumBases() == 0) {
+    if (!derived || !derived->hasDefinition() || derived->getNumBases() == 0) {
         return derived;
     }
 
-- 
2.43.0


From c0d6b51681097675efe994aab4952be6ddb758e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:01 +0000
Subject: [PATCH 47/66] fix: old-style-connect copes with connects that aren't
 member calls

---
 src/checks/level2/old-style-connect.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/checks/level2/old-style-connect.cpp b/src/checks/level2/old-style-connect.cpp
index 7461a27..1cac08a 100644
--- a/src/checks/level2/old-style-connect.cpp
+++ b/src/checks/level2/old-style-connect.cpp
@@ -331,14 +331,15 @@ std::vector<FixItHint> OldStyleConnect::fixits(int classification, T *callOrCtor
     std::string implicitCallee;
     std::string macroName;
     CXXMethodDecl *senderMethod = nullptr;
+    const CXXRecordDecl *lastRecordDecl = nullptr;
     for (auto arg : callOrCtor->arguments()) {
         SourceLocation s = arg->getBeginLoc();
-        static const CXXRecordDecl *lastRecordDecl = nullptr;
         if (isSignalOrSlot(s, macroName)) {
             macroNum++;
             if (!lastRecordDecl && (classification & ConnectFlag_4ArgsConnect)) {
                 // This means it's a connect with implicit receiver
-                lastRecordDecl = Utils::recordForMemberCall(dyn_cast<CXXMemberCallExpr>(callOrCtor), implicitCallee);
+                auto *memberCall = dyn_cast<CXXMemberCallExpr>(callOrCtor);
+                lastRecordDecl = memberCall ? Utils::recordForMemberCall(memberCall, implicitCallee) : nullptr;
 
                 if (macroNum == 1) {
                     llvm::errs() << "This first macro shouldn't enter this path";
-- 
2.43.0


From 5509753c0d0c3192e2e453dc57e3ebc3a8a52dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:01 +0000
Subject: [PATCH 48/66] fix: foreach copes with member calls on expressions
 without children

---
 src/checks/level1/foreach.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checks/level1/foreach.cpp b/src/checks/level1/foreach.cpp
index 07ff272..29a8f64 100644
--- a/src/checks/level1/foreach.cpp
+++ b/src/checks/level1/foreach.cpp
@@ -185,7 +185,7 @@ bool Foreach::containsDetachments(Stmt *stm, clang::ValueDecl *containerValueDec
                             auto *refExpr = dyn_cast<DeclRefExpr>(expr);
                             if (!refExpr) {
                                 auto *s = clazy::getFirstChildAtDepth(expr, 1);
-                                refExpr = dyn_cast<DeclRefExpr>(s);
+                                refExpr = dyn_cast_or_null<DeclRefExpr>(s);
                                 if (refExpr) {
                                     if (refExpr->getDecl()
                                         == containerValueDecl) { // Finally, check if this non-const member call is on the same container we're iterating
-- 
2.43.0


From 182433933fccf8a04bf545177cdec2726b2fab66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:01 +0000
Subject: [PATCH 49/66] fix: connect-3arg-lambda copes with missing arguments

---
 src/checks/level1/connect-3arg-lambda.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checks/level1/connect-3arg-lambda.cpp b/src/checks/level1/connect-3arg-lambda.cpp
index 7d3b509..6d34a4a 100644
--- a/src/checks/level1/connect-3arg-lambda.cpp
+++ b/src/checks/level1/connect-3arg-lambda.cpp
@@ -55,7 +55,7 @@ void Connect3ArgLambda::VisitStmt(clang::Stmt *stmt)
         return;
     }
 
-    if (numParams != 3 || !clazy::isConnect(fdecl, m_context->qtNamespace())) {
+    if (numParams != 3 || callExpr->getNumArgs() < 3 || !clazy::isConnect(fdecl, m_context->qtNamespace())) {
         return;
     }
 
-- 
2.43.0


From 64740144c5553ea1afbcc90206e261416fcf25e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:01 +0000
Subject: [PATCH 50/66] fix: qgetenv copes with a qgetenv() that takes no
 arguments

---
 src/checks/level0/qgetenv.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checks/level0/qgetenv.cpp b/src/checks/level0/qgetenv.cpp
index 71cf09b..cc56333 100644
--- a/src/checks/level0/qgetenv.cpp
+++ b/src/checks/level0/qgetenv.cpp
@@ -51,7 +51,7 @@ void QGetEnv::VisitStmt(clang::Stmt *stmt)
     }
 
     CallExpr *qgetEnvCall = calls.back();
-    if (const FunctionDecl *func = qgetEnvCall->getDirectCallee(); !func || clazy::name(func) != "qgetenv") {
+    if (const FunctionDecl *func = qgetEnvCall->getDirectCallee(); !func || clazy::name(func) != "qgetenv" || qgetEnvCall->getNumArgs() == 0) {
         return;
     }
 
-- 
2.43.0


From 08d0153bfd1c5dfd6f4b9994f4302476ee74e601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:01 +0000
Subject: [PATCH 51/66] fix: detaching checks cope with operator[] that doesn't
 take one argument

---
 src/checks/detachingbase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checks/detachingbase.cpp b/src/checks/detachingbase.cpp
index 9840940..3912445 100644
--- a/src/checks/detachingbase.cpp
+++ b/src/checks/detachingbase.cpp
@@ -42,7 +42,7 @@ std::vector<FixItHint> DetachingBase::getFixitHints(StringRef className, StringR
             if (auto *callee = dyn_cast<MemberExpr>(memberCall->getCallee())) {
                 hints.emplace_back(FixItHint::CreateReplacement(callee->getMemberLoc(), it->second));
             }
-        } else if (auto *operatorCall = dyn_cast<CXXOperatorCallExpr>(callExpr); operatorCall && it->first == "operator[]") {
+        } else if (auto *operatorCall = dyn_cast<CXXOperatorCallExpr>(callExpr); operatorCall && operatorCall->getNumArgs() == 2 && it->first == "operator[]") {
             StringRef argText = Lexer::getSourceText(CharSourceRange::getTokenRange(operatorCall->getArg(1)->getSourceRange()), sm(), lo());
             std::string operatorRepleacement = ("." + it->second + "(" + argText + ")").str();
             SourceLocation left;
-- 
2.43.0


From 02a0d257f5f060e3d2b9497d72bfa8520de6d1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:01 +0000
Subject: [PATCH 52/66] fix: strict-iterators copes with casts without a parent
 and calls through member pointers

---
 src/checks/level0/strict-iterators.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/checks/level0/strict-iterators.cpp b/src/checks/level0/strict-iterators.cpp
index f4d57bd..3c6255f 100644
--- a/src/checks/level0/strict-iterators.cpp
+++ b/src/checks/level0/strict-iterators.cpp
@@ -97,7 +97,7 @@ bool StrictIterators::handleImplicitCast(ImplicitCastExpr *implicitCast)
     if (implicitCast->getCastKind() == CK_ConstructorConversion) {
         if (auto *memberCall = dyn_cast_or_null<CXXMemberCallExpr>(m_context->parentMap->getParent(implicitCast))) {
             auto memberFunctionDecl = memberCall->getMethodDecl();
-            if (auto *parentClass = memberFunctionDecl->getParent()) {
+            if (auto *parentClass = memberFunctionDecl ? memberFunctionDecl->getParent() : nullptr) {
                 static const std::vector<std::string> allow = {
                     "QMap<>::insert",
                     "QMap<>::erase",
@@ -139,7 +139,7 @@ bool StrictIterators::handleImplicitCast(ImplicitCastExpr *implicitCast)
     }
 
     auto *p = m_context->parentMap->getParent(implicitCast);
-    if (isa<CXXOperatorCallExpr>(p)) {
+    if (isa_and_nonnull<CXXOperatorCallExpr>(p)) {
         return false;
     }
 
-- 
2.43.0


From c23ccc59ace62edbae729cd0da84b26eefde4588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:01 +0000
Subject: [PATCH 53/66] fix: qbytearray-conversion-to-c-style copes with
 arguments without source text

---
 src/checks/manuallevel/qbytearray-conversion-to-c-style.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checks/manuallevel/qbytearray-conversion-to-c-style.cpp b/src/checks/manuallevel/qbytearray-conversion-to-c-style.cpp
index fb62d1c..b3d6be1 100644
--- a/src/checks/manuallevel/qbytearray-conversion-to-c-style.cpp
+++ b/src/checks/manuallevel/qbytearray-conversion-to-c-style.cpp
@@ -62,7 +62,7 @@ void QBytearrayConversionToCStyle::VisitStmt(clang::Stmt *stmt)
         }
         std::string_view str = Lexer::getSourceText(cr, sm(), lo());
         // QByteArrayLiteral("foo") or QByteArray("foo")
-        if (str.back() != ')') {
+        if (str.empty() || str.back() != ')') {
             return;
         }
 
-- 
2.43.0


From 8be7062930007070bb6a83b7a774c7a0671e3689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:01 +0000
Subject: [PATCH 54/66] fix: qproperty-type-mismatch doesn't read past the
 macro's text

---
 src/checks/manuallevel/qproperty-type-mismatch.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/checks/manuallevel/qproperty-type-mismatch.cpp b/src/checks/manuallevel/qproperty-type-mismatch.cpp
index 70ae359..98a6343 100644
--- a/src/checks/manuallevel/qproperty-type-mismatch.cpp
+++ b/src/checks/manuallevel/qproperty-type-mismatch.cpp
@@ -212,10 +212,10 @@ void QPropertyTypeMismatch::VisitMacroExpands(const clang::Token &MacroNameTok,
 
     llvm::StringRef text = Lexer::getSourceText(crange, sm(), lo());
 
-    const auto openingLParen = std::find_if_not(text.begin() + q_property.size(), text.end(), [](char c) {
+    const auto openingLParen = std::find_if_not(text.begin() + std::min(q_property.size(), text.size()), text.end(), [](char c) {
         return std::isspace(c);
     });
-    if (*openingLParen != '(') {
+    if (openingLParen == text.end() || *openingLParen != '(') {
         emitWarning(range.getBegin(), "Could not parse argument of the Q_PROPERTY macro");
         return;
     }
-- 
2.43.0


From 80767bc5b639e74b34d3083cc88ce5580cd83751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:01 +0000
Subject: [PATCH 55/66] fix: don't ask for the size of dependent types

---
 src/TypeUtils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/TypeUtils.cpp b/src/TypeUtils.cpp
index cff4f49..05f608b 100644
--- a/src/TypeUtils.cpp
+++ b/src/TypeUtils.cpp
@@ -25,7 +25,7 @@ bool clazy::classifyQualType(const ClazyContext *context, clang::QualType qualTy
 {
     QualType unrefQualType = clazy::unrefQualType(qualType);
     const Type *paramType = unrefQualType.getTypePtrOrNull();
-    if (!paramType || paramType->isIncompleteType()) {
+    if (!paramType || paramType->isIncompleteType() || paramType->isDependentType()) {
         return false;
     }
 
@@ -85,7 +85,7 @@ bool clazy::isSmallTrivial(const ClazyContext *context, QualType qualType)
 
     QualType unrefQualType = clazy::unrefQualType(qualType);
     const Type *paramType = unrefQualType.getTypePtrOrNull();
-    if (!paramType || paramType->isIncompleteType()) {
+    if (!paramType || paramType->isIncompleteType() || paramType->isDependentType()) {
         return false;
     }
 
-- 
2.43.0


From 18bb45bf8dd5737f02b263ea60c5201ff5aaa6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:01 +0000
Subject: [PATCH 56/66] fix: derivesFrom() copes with a class that isn't
 defined yet

---
 src/TypeUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TypeUtils.cpp b/src/TypeUtils.cpp
index 05f608b..e799ecf 100644
--- a/src/TypeUtils.cpp
+++ b/src/TypeUtils.cpp
@@ -151,7 +151,7 @@ void clazy::heapOrStackAllocated(Expr *arg, const std::string &type, const clang
 
 bool clazy::derivesFrom(const CXXRecordDecl *derived, const CXXRecordDecl *possibleBase, std::vector<CXXRecordDecl *> *baseClasses)
 {
-    if (!derived || !possibleBase || derived == possibleBase) {
+    if (!derived || !derived->hasDefinition() || !possibleBase || derived == possibleBase) {
         return false;
     }
 
-- 
2.43.0


From 9cffb892382b5b3581a36445357f687df08fa6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:49 +0000
Subject: [PATCH 57/66] fix: signals/slots sections belong to the innermost
 class they're in

---
 src/AccessSpecifierManager.cpp | 19 ++++++++++++-------
 src/AccessSpecifierManager.h   |  2 +-
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/AccessSpecifierManager.cpp b/src/AccessSpecifierManager.cpp
index d61ca30..9ef1f1e 100644
--- a/src/AccessSpecifierManager.cpp
+++ b/src/AccessSpecifierManager.cpp
@@ -154,15 +154,20 @@ ClazySpecifierList &AccessSpecifierManager::entryForClassDefinition(CXXRecordDec
     return specifiers;
 }
 
-const CXXRecordDecl *AccessSpecifierManager::classDefinitionForLoc(SourceLocation loc) const
+// Returns true if loc is in the body of the class itself, and not for example in a nested class
+bool AccessSpecifierManager::isDirectlyInClass(SourceLocation loc, const CXXRecordDecl *record) const
 {
-    for (const auto &it : m_specifiersMap) {
-        const CXXRecordDecl *record = it.first;
-        if (record->getBeginLoc() < loc && loc < record->getEndLoc()) {
-            return record;
+    if (!(record->getBeginLoc() < loc && loc < record->getEndLoc())) {
+        return false;
+    }
+
+    for (const auto *decl : record->decls()) {
+        if (!decl->isImplicit() && !isa<AccessSpecDecl>(decl) && m_sm.getFileLoc(decl->getBeginLoc()) < loc && loc < m_sm.getFileLoc(decl->getEndLoc())) {
+            return false;
         }
     }
-    return nullptr;
+
+    return true;
 }
 
 void AccessSpecifierManager::VisitDeclaration(Decl *decl)
@@ -190,7 +195,7 @@ void AccessSpecifierManager::VisitDeclaration(Decl *decl)
 
     auto it = m_preprocessorCallbacks->m_qtAccessSpecifiers.begin();
     while (it != m_preprocessorCallbacks->m_qtAccessSpecifiers.end()) {
-        if (classDefinitionForLoc((*it).loc) == record) {
+        if (isDirectlyInClass((*it).loc, record)) {
             sorted_insert(specifiers, *it, m_sm);
             it = m_preprocessorCallbacks->m_qtAccessSpecifiers.erase(it);
         } else {
diff --git a/src/AccessSpecifierManager.h b/src/AccessSpecifierManager.h
index b61f6c6..ff77ac7 100644
--- a/src/AccessSpecifierManager.h
+++ b/src/AccessSpecifierManager.h
@@ -79,7 +79,7 @@ public:
 
 private:
     ClazySpecifierList &entryForClassDefinition(clang::CXXRecordDecl *);
-    const clang::CXXRecordDecl *classDefinitionForLoc(clang::SourceLocation loc) const;
+    bool isDirectlyInClass(clang::SourceLocation loc, const clang::CXXRecordDecl *record) const;
     const clang::SourceManager &m_sm;
     const clang::LangOptions m_lo;
     std::unordered_map<const clang::CXXRecordDecl *, ClazySpecifierList> m_specifiersMap;
-- 
2.43.0


From 2aa970a0b7a7a0b7ee4c550be29896b847bf6d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:49 +0000
Subject: [PATCH 58/66] fix: see Q_SIGNAL, Q_SLOT, Q_INVOKABLE and Q_SCRIPTABLE
 that aren't right before the declaration

---
 src/AccessSpecifierManager.cpp | 43 ++++++++++++++++++++++++++++++----
 src/AccessSpecifierManager.h   |  1 +
 2 files changed, 39 insertions(+), 5 deletions(-)

diff --git a/src/AccessSpecifierManager.cpp b/src/AccessSpecifierManager.cpp
index 9ef1f1e..30b6554 100644
--- a/src/AccessSpecifierManager.cpp
+++ b/src/AccessSpecifierManager.cpp
@@ -60,6 +60,17 @@ static void sorted_insert(ClazySpecifierList &v, const ClazyAccessSpecifier &ite
     v.insert(std::upper_bound(v.begin(), v.end(), item, pred), item);
 }
 
+// Q_SIGNAL, Q_SLOT, Q_INVOKABLE and Q_SCRIPTABLE can be anywhere before the name of the method
+static void resolveMarkers(std::vector<unsigned> &markers, SourceLocation after, SourceLocation before, SourceLocation methodLoc)
+{
+    for (unsigned &marker : markers) {
+        const SourceLocation loc = SourceLocation::getFromRawEncoding(marker);
+        if (after < loc && loc < before) {
+            marker = methodLoc.getRawEncoding();
+        }
+    }
+}
+
 class AccessSpecifierPreprocessorCallbacks : public clang::PPCallbacks
 {
 public:
@@ -112,11 +123,7 @@ public:
             QtAccessSpecifierType qtAccessSpecifier = isSlots ? QtAccessSpecifier_Slot : QtAccessSpecifier_Signal;
             m_qtAccessSpecifiers.push_back({loc, clang::AS_none, qtAccessSpecifier});
         } else {
-            // Get the location of the method declaration, so we can compare directly when we visit methods
-            loc = Utils::locForNextToken(loc, m_sm, m_lo);
-            if (loc.isInvalid()) {
-                return;
-            }
+            // Replaced by the location of the method declaration when we visit the class, so we can compare directly when we visit methods
             if (isSignal) {
                 m_individualSignals.push_back(loc.getRawEncoding());
             } else if (isSlot) {
@@ -170,6 +177,30 @@ bool AccessSpecifierManager::isDirectlyInClass(SourceLocation loc, const CXXReco
     return true;
 }
 
+void AccessSpecifierManager::resolveMarkersOfMethods(const CXXRecordDecl *record)
+{
+    SourceLocation previousEnd = record->getLocation();
+    for (const auto *decl : record->decls()) {
+        if (decl->isImplicit()) {
+            continue;
+        }
+
+        if (const auto *method = dyn_cast_or_null<CXXMethodDecl>(decl->getAsFunction())) {
+            const SourceLocation nameLoc = m_sm.getFileLoc(method->getLocation());
+            const SourceLocation methodLoc = method->getBeginLoc();
+            resolveMarkers(m_preprocessorCallbacks->m_individualSignals, previousEnd, nameLoc, methodLoc);
+            resolveMarkers(m_preprocessorCallbacks->m_individualSlots, previousEnd, nameLoc, methodLoc);
+            resolveMarkers(m_preprocessorCallbacks->m_invokables, previousEnd, nameLoc, methodLoc);
+            resolveMarkers(m_preprocessorCallbacks->m_scriptables, previousEnd, nameLoc, methodLoc);
+        }
+
+        const SourceLocation end = m_sm.getFileLoc(decl->getEndLoc());
+        if (previousEnd < end) {
+            previousEnd = end;
+        }
+    }
+}
+
 void AccessSpecifierManager::VisitDeclaration(Decl *decl)
 {
     auto *record = dyn_cast<CXXRecordDecl>(decl);
@@ -177,6 +208,8 @@ void AccessSpecifierManager::VisitDeclaration(Decl *decl)
         return;
     }
 
+    resolveMarkersOfMethods(record);
+
     const bool isQObject = clazy::isQObject(record, m_preprocessorCallbacks->m_qtNamespace);
     const bool visits = isQObject || (m_fixitsEnabled && m_visitsNonQObjects);
 
diff --git a/src/AccessSpecifierManager.h b/src/AccessSpecifierManager.h
index ff77ac7..11cb1f1 100644
--- a/src/AccessSpecifierManager.h
+++ b/src/AccessSpecifierManager.h
@@ -79,6 +79,7 @@ public:
 
 private:
     ClazySpecifierList &entryForClassDefinition(clang::CXXRecordDecl *);
+    void resolveMarkersOfMethods(const clang::CXXRecordDecl *);
     bool isDirectlyInClass(clang::SourceLocation loc, const clang::CXXRecordDecl *record) const;
     const clang::SourceManager &m_sm;
     const clang::LangOptions m_lo;
-- 
2.43.0


From 40da87909dbbba298d8519d1d029013119cdb054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:31 +0000
Subject: [PATCH 59/66] fix: compare the types of a signal's parameters and not
 how they are written

---
 src/FunctionUtils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FunctionUtils.h b/src/FunctionUtils.h
index 6944bef..e331134 100644
--- a/src/FunctionUtils.h
+++ b/src/FunctionUtils.h
@@ -53,7 +53,7 @@ inline bool parametersMatch(const clang::FunctionDecl *f1, const clang::Function
         clang::ParmVarDecl *p1 = params1[i];
         clang::ParmVarDecl *p2 = params2[i];
 
-        if (p1->getType() != p2->getType()) {
+        if (p1->getType().getCanonicalType().getUnqualifiedType() != p2->getType().getCanonicalType().getUnqualifiedType()) {
             return false;
         }
     }
-- 
2.43.0


From b0897c74492e27da9b67dac22b1066dddacd635d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:31 +0000
Subject: [PATCH 60/66] fix: find the signal of a connect() in parentheses,
 C-style casts and from using declarations

---
 src/QtUtils.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/QtUtils.cpp b/src/QtUtils.cpp
index d8d6935..cfe52b8 100644
--- a/src/QtUtils.cpp
+++ b/src/QtUtils.cpp
@@ -387,7 +387,7 @@ CXXMethodDecl *clazy::pmfFromConnect(CallExpr *funcCall, int argIndex, const std
                 std::vector<DeclRefExpr *> res;
                 clazy::getChilds<DeclRefExpr>(varDeclInit, res);
                 if (!res.empty()) {
-                    return dyn_cast<CXXMethodDecl>(res.at(res.size() - 1)->getFoundDecl());
+                    return dyn_cast<CXXMethodDecl>(res.at(res.size() - 1)->getDecl());
                 }
             }
         }
@@ -397,6 +397,7 @@ CXXMethodDecl *clazy::pmfFromConnect(CallExpr *funcCall, int argIndex, const std
 
 CXXMethodDecl *clazy::pmfFromExpr(Expr *expr, const std::string &qtNamespace)
 {
+    expr = expr->IgnoreParens();
     if (auto *uo = dyn_cast<UnaryOperator>(expr)) {
         return pmfFromUnary(uo);
     }
@@ -426,8 +427,8 @@ CXXMethodDecl *clazy::pmfFromExpr(Expr *expr, const std::string &qtNamespace)
         }
 
         return pmfFromUnary(dyn_cast<UnaryOperator>(call->getArg(1)));
-    } else if (auto *staticCast = dyn_cast<CXXStaticCastExpr>(expr)) {
-        return pmfFromExpr(staticCast->getSubExpr(), qtNamespace);
+    } else if (auto *explicitCast = dyn_cast<ExplicitCastExpr>(expr)) {
+        return pmfFromExpr(explicitCast->getSubExpr(), qtNamespace);
     } else if (auto *callexpr = dyn_cast<CallExpr>(expr)) {
         // QOverload case, go deeper one level to get to the UnaryOperator
         if (callexpr->getNumArgs() == 1) {
-- 
2.43.0


From bd7b875a470d70179cc76fddee47f4216008a509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:27 +0000
Subject: [PATCH 61/66] fix: arrays can't be passed by value
 (function-args-by-value)

---
 src/TypeUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TypeUtils.cpp b/src/TypeUtils.cpp
index e799ecf..6035b0c 100644
--- a/src/TypeUtils.cpp
+++ b/src/TypeUtils.cpp
@@ -25,7 +25,7 @@ bool clazy::classifyQualType(const ClazyContext *context, clang::QualType qualTy
 {
     QualType unrefQualType = clazy::unrefQualType(qualType);
     const Type *paramType = unrefQualType.getTypePtrOrNull();
-    if (!paramType || paramType->isIncompleteType() || paramType->isDependentType()) {
+    if (!paramType || paramType->isIncompleteType() || paramType->isDependentType() || paramType->isArrayType()) { // arrays can't be passed by value
         return false;
     }
 
-- 
2.43.0


From 6fe1a20ce75e2b6da4b6a04d50855ed5126f6f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:27 +0000
Subject: [PATCH 62/66] fix: a type whose destructor is deleted is not
 trivially destructible

---
 src/TypeUtils.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/TypeUtils.cpp b/src/TypeUtils.cpp
index 6035b0c..8875fb5 100644
--- a/src/TypeUtils.cpp
+++ b/src/TypeUtils.cpp
@@ -37,8 +37,10 @@ bool clazy::classifyQualType(const ClazyContext *context, clang::QualType qualTy
     classif.isBig = classif.size_of_T > 16;
     CXXRecordDecl *recordDecl = paramType->getAsCXXRecordDecl();
     CXXMethodDecl *copyCtor = recordDecl ? Utils::copyCtor(recordDecl) : nullptr;
-    classif.isNonTriviallyCopyable =
-        recordDecl && (recordDecl->hasNonTrivialCopyConstructor() || recordDecl->hasNonTrivialDestructor() || (copyCtor && copyCtor->isDeleted()));
+    CXXMethodDecl *dtor = recordDecl ? recordDecl->getDestructor() : nullptr;
+    classif.isNonTriviallyCopyable = recordDecl
+        && (recordDecl->hasNonTrivialCopyConstructor() || recordDecl->hasNonTrivialDestructor() || (copyCtor && copyCtor->isDeleted())
+            || (dtor && dtor->isDeleted()));
     classif.isReference = qualType->isLValueReferenceType();
     classif.isConst = unrefQualType.isConstQualified();
 
-- 
2.43.0


From 44656bee6eea1bbb4c6bfc03017bec37292e3a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:27 +0000
Subject: [PATCH 63/66] fix: function-args-by-value: the fix-it puts the name
 where the type wants it

---
 src/checks/level2/function-args-by-value.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/checks/level2/function-args-by-value.cpp b/src/checks/level2/function-args-by-value.cpp
index cd79933..dd3439e 100644
--- a/src/checks/level2/function-args-by-value.cpp
+++ b/src/checks/level2/function-args-by-value.cpp
@@ -203,8 +203,11 @@ FixItHint FunctionArgsByValue::fixit(FunctionDecl *func, const ParmVarDecl *para
 {
     QualType qt = clazy::unrefQualType(param->getType());
     qt.removeLocalConst();
-    const std::string typeName = qt.getAsString(PrintingPolicy(lo()));
-    std::string replacement = typeName + ' ' + std::string(clazy::name(param));
+    std::string replacement = clazy::name(param).str();
+    qt.getAsStringInternal(replacement, PrintingPolicy(lo()));
+    if (clazy::name(param).empty()) {
+        replacement += ' ';
+    }
     SourceLocation startLoc = param->getBeginLoc();
     SourceLocation endLoc = param->getEndLoc();
 
-- 
2.43.0


From f46c1ae76487ed7bbd17e82c86a0aad801e154e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:27 +0000
Subject: [PATCH 64/66] fix: a variable that is incremented or decremented
 can't become const

---
 src/Utils.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Utils.cpp b/src/Utils.cpp
index c0c04d9..985fb7b 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -318,6 +318,14 @@ bool Utils::containsNonConstMemberCall(clang::ParentMap * /*map*/, Stmt *body, c
         }
     }
 
+    std::vector<UnaryOperator *> unaryOperators;
+    clazy::getChilds<UnaryOperator>(body, unaryOperators);
+    for (auto *op : unaryOperators) {
+        if (op->isIncrementDecrementOp() && referencesVar(op, varDecl)) {
+            return true;
+        }
+    }
+
     return false;
 }
 
-- 
2.43.0


From 40fa9ae84d5a2fda6bbf8711665e23b31d737137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:24 +0000
Subject: [PATCH 65/66] fix: function-args-by-ref: "&" before the default
 argument of a parameter without name

---
 src/checks/level2/function-args-by-ref.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/checks/level2/function-args-by-ref.cpp b/src/checks/level2/function-args-by-ref.cpp
index 4aa2b31..af947ad 100644
--- a/src/checks/level2/function-args-by-ref.cpp
+++ b/src/checks/level2/function-args-by-ref.cpp
@@ -166,7 +166,9 @@ void FunctionArgsByRef::addFixits(std::vector<FixItHint> &fixits, FunctionDecl *
         }
 
         SourceLocation end = param->getLocation();
-        fixits.push_back(clazy::createInsertion(end, "&"));
+        // "&=" would be one token
+        const bool precedesDefaultArg = param->getName().empty() && param->hasDefaultArg() && !param->hasInheritedDefaultArg();
+        fixits.push_back(clazy::createInsertion(end, precedesDefaultArg ? "& " : "&"));
     }
 }
 
-- 
2.43.0


From 8a6b2ddc0b691f8c326c041f71652dd6845fd4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:24 +0000
Subject: [PATCH 66/66] fix: function-args-by-value: the fix-it leaves default
 arguments as they are, whichever declaration has them

---
 src/checks/level2/function-args-by-value.cpp | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/checks/level2/function-args-by-value.cpp b/src/checks/level2/function-args-by-value.cpp
index dd3439e..6621062 100644
--- a/src/checks/level2/function-args-by-value.cpp
+++ b/src/checks/level2/function-args-by-value.cpp
@@ -29,7 +29,6 @@
 #include <llvm/Support/Casting.h>
 #include <llvm/Support/raw_ostream.h>
 
-#include <iterator>
 #include <vector>
 
 using namespace clang;
@@ -199,7 +198,7 @@ void FunctionArgsByValue::processFunction(FunctionDecl *func)
     }
 }
 
-FixItHint FunctionArgsByValue::fixit(FunctionDecl *func, const ParmVarDecl *param, clazy::QualTypeClassification)
+FixItHint FunctionArgsByValue::fixit(FunctionDecl *, const ParmVarDecl *param, clazy::QualTypeClassification)
 {
     QualType qt = clazy::unrefQualType(param->getType());
     qt.removeLocalConst();
@@ -209,16 +208,8 @@ FixItHint FunctionArgsByValue::fixit(FunctionDecl *func, const ParmVarDecl *para
         replacement += ' ';
     }
     SourceLocation startLoc = param->getBeginLoc();
-    SourceLocation endLoc = param->getEndLoc();
-
-    const int numRedeclarations = std::distance(func->redecls_begin(), func->redecls_end());
-    const bool definitionIsAlsoDeclaration = numRedeclarations == 1;
-    const bool isDeclarationButNotDefinition = !func->doesThisDeclarationHaveABody();
-
-    if (param->hasDefaultArg() && (isDeclarationButNotDefinition || definitionIsAlsoDeclaration)) {
-        endLoc = param->getDefaultArg()->getBeginLoc().getLocWithOffset(-1);
-        replacement += " =";
-    }
+    // The declarator only, a default argument stays as it is
+    SourceLocation endLoc = param->DeclaratorDecl::getSourceRange().getEnd();
 
     if (!startLoc.isValid() || !endLoc.isValid()) {
         llvm::errs() << "Internal error could not apply fixit " << startLoc.printToString(sm()) << ';' << endLoc.printToString(sm()) << "\n";
-- 
2.43.0

