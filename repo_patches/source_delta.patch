From 6eab25c55b8f042e2773e99b15bc328090504fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:32 +0000
Subject: [PATCH 01/43] fix: report a failure to write the generated mock

MainCodeGenerator ignored the result of the code generation and the data
still buffered when the file is closed was not checked. EasyMockGenerate
exited with 0 although the mock could not be created or was truncated.
---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp     | 8 +++++++-
 src/easyMockGenerate/src/MainCodeGenerator.cpp            | 3 +--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 3eab7b3..087c613 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -2412,7 +2412,13 @@ bool CodeGeneratorCTemplate::generateCodeToFile(const std::string &p_outDir, con
 closeFile:
   if (f != nullptr)
   {
-    std::fclose(f);
+    // The buffered data might only be written when closing the file
+    const bool isClosed = std::fclose(f) == 0;
+    if (!isClosed && rv)
+    {
+      std::fprintf(stderr, "Error writing into %s: %s", outFilename.c_str(), strerror(errno));
+      rv = false;
+    }
   }
 
   return rv;
diff --git a/src/easyMockGenerate/src/MainCodeGenerator.cpp b/src/easyMockGenerate/src/MainCodeGenerator.cpp
index 186124c..4c9dddc 100644
--- a/src/easyMockGenerate/src/MainCodeGenerator.cpp
+++ b/src/easyMockGenerate/src/MainCodeGenerator.cpp
@@ -17,6 +17,5 @@ bool MainCodeGenerator::generateCode(const std::string &outDir, bool ignoreParse
     fprintf(stderr, "Parsing of %s failed.\n\r", m_filename.c_str());
     return false;
   }
-  m_codeGeneratorItf.generateCode(outDir, m_filename, ctxt);
-  return true;
+  return m_codeGeneratorItf.generateCode(outDir, m_filename, ctxt);
 }
-- 
2.43.0


From a2979b9fcac3276a0feffcf1c72df62e6d6e03ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:34 +0000
Subject: [PATCH 02/43] fix: take the namespace of a function from the scope it
 is declared in

The parser looked for any namespace visible in one of the enclosing scopes,
in the address order of a hash map. A header with more than one namespace got
functions mocked in the wrong one, and differently from one run to the next.
---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 2d6c2b0..594db94 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -472,16 +472,11 @@ private:
       return getGlobalNamespace();
     }
     const clang::DeclContext* parentContext = declContext->getParent();
-    for(auto lookup : declContext->lookups())
+    const auto* namespaceDecl = clang::dyn_cast<clang::NamespaceDecl>(declContext);
+    if(namespaceDecl && !namespaceDecl->isAnonymousNamespace())
     {
-      for (auto namedDecl: lookup)
-      {
-        if(namedDecl->getKind() == clang::Decl::Kind::Namespace)
-        {
-          const auto enclosingNamespace = getNamespace(parentContext);
-          return std::make_shared<const Namespace>(namedDecl->getNameAsString(), enclosingNamespace);
-        }
-      }
+      const auto enclosingNamespace = getNamespace(parentContext);
+      return std::make_shared<const Namespace>(namespaceDecl->getNameAsString(), enclosingNamespace);
     }
     return getNamespace(parentContext);
   }
-- 
2.43.0


From cba7de5f22e5b0b293e42c4c40ff2a970802cf4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:12 +0000
Subject: [PATCH 03/43] fix: check the allocation when a cstring moves to the
 heap

The process died on a null pointer instead of reporting that no memory was left.
---
 src/easyMockFramework/src/cstring.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/easyMockFramework/src/cstring.c b/src/easyMockFramework/src/cstring.c
index c37ada0..a352027 100644
--- a/src/easyMockFramework/src/cstring.c
+++ b/src/easyMockFramework/src/cstring.c
@@ -82,6 +82,11 @@ void cstring_append(cstring *s, const char *strToAppend)
     else
     {
       s->heap = malloc(newSize);
+      if(s->heap == NULL)
+      {
+        fprintf(stderr, "Couldn't allocate the memory: %s",strerror(errno));
+        exit(1);
+      }
       strncpy(s->heap, s->stack, currentSize + 1);
       ptrToUpdate = s->heap;
     }
-- 
2.43.0


From 2405568837496527eb9455bd94c63222d1930a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:12 +0000
Subject: [PATCH 04/43] fix: keep the error when the modules can't be read for
 its backtrace

Not being able to read /proc/<pid>/maps (e.g. no file descriptor left) aborted
the whole test process instead of reporting the error without backtrace.
---
 src/easyMockFramework/src/easyMock.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/easyMockFramework/src/easyMock.cpp b/src/easyMockFramework/src/easyMock.cpp
index 3a751e4..d08adc4 100644
--- a/src/easyMockFramework/src/easyMock.cpp
+++ b/src/easyMockFramework/src/easyMock.cpp
@@ -255,8 +255,12 @@ private:
       return -1;
     }
 
-    assert(dwfl_linux_proc_report(dwfl, getpid()) == 0);
-    assert(dwfl_report_end(dwfl, NULL, NULL) == 0);
+    if(dwfl_linux_proc_report(dwfl, getpid()) != 0 || dwfl_report_end(dwfl, NULL, NULL) != 0)
+    {
+      append_string(error, "<Backtrace unavailable: Couldn't report the modules of the process>");
+      rv = -1;
+      goto cleanup_dwfl;
+    }
 
     addr = (uintptr_t) ip;
 
-- 
2.43.0


From 3492a4533e83577abd377d2bebfa4ef2ba924bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:02 +0000
Subject: [PATCH 05/43] fix: look up -i and -o from the directory given to
 --cwd

The command line parser checked both paths from the initial working directory
and refused relative paths which are valid once --cwd is applied, although they
are documented to be taken from there.
---
 .../src/CmdLineParser/CmdLineParser.cpp       | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp b/src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp
index f6e7819..7b0819e 100644
--- a/src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp
+++ b/src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp
@@ -23,6 +23,22 @@ bool nextArgumentValid(int argIdx, const char* argv[])
 {
   return argv[argIdx+1][0] != '-';
 }
+
+/*
+ * Relative paths given to '-i' and '-o' are taken from the path given to '--cwd', whichever order
+ * the parameters are given in.
+ */
+fs::path getPathFromWorkingDir(const std::string& path, int argc, const char* argv[])
+{
+  for(int argIdx = 1; argIdx < argc && argv[argIdx] != nullptr; argIdx++)
+  {
+    if(argv[argIdx] == g_changeWorkingDir && hasOneMoreArgument(argIdx, argc) && nextArgumentValid(argIdx, argv))
+    {
+      return fs::path(argv[argIdx+1]) / path;
+    }
+  }
+  return path;
+}
 }
 
 EasyMockOptions CmdLineParser::getParsedArguments(int argc,const char* argv[]) const
@@ -51,7 +67,7 @@ EasyMockOptions CmdLineParser::getParsedArguments(int argc,const char* argv[]) c
       }
       else
       {
-        if(!fs::is_regular_file(opt.m_inputHeaderFile))
+        if(!fs::is_regular_file(getPathFromWorkingDir(opt.m_inputHeaderFile, argc, argv)))
         {
           opt.m_errorMessage = g_inputFileIsntRegular;
           opt.m_inputHeaderFile.clear();
@@ -74,7 +90,7 @@ EasyMockOptions CmdLineParser::getParsedArguments(int argc,const char* argv[]) c
       }
       else
       {
-        if(!fs::is_directory(opt.m_outputDir))
+        if(!fs::is_directory(getPathFromWorkingDir(opt.m_outputDir, argc, argv)))
         {
           opt.m_errorMessage = g_outputDirIsntDir;
           opt.m_outputDir.clear();
-- 
2.43.0


From 980eefef24c6fb0a3282a7eb5b04a67d7b469741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:31 +0000
Subject: [PATCH 06/43] fix: separate the class instance from the other
 parameters of the mock

The separator was emitted once per parameter, so the mock of a class member
function having no parameter or more than one of them did not compile.
---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 087c613..640403c 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -90,6 +90,7 @@
 #define FUNCTION_CLASS_NAME_VAR "FUNCTION_CLASS_NAME_VAR"
 #define FUNCTION_CLASS_NAME TEMPLATE_VAR(FUNCTION_CLASS_NAME_VAR)
 #define IS_FUNCTION_CLASS_NAME "IS_FUNCTION_CLASS_NAME"
+#define FUNCTION_CLASS_INSTANCE_SEPARATOR "FUNCTION_CLASS_INSTANCE_SEPARATOR"
 
 #define REFERENCE_MEMBER_SECTION "REFERENCE_MEMBER_SECTION"
 #define REGULAR_MEMBER_SECTION "REGULAR_MEMBER_SECTION"
@@ -368,7 +369,7 @@ IF_SECTION_EXISTS(C_ONLY_SECTION, FUNCTION_NAME "_") "ExpectAndReturn("
 
 #define FUNCTION_EXPECT_RETURN_AND_OUTPUT_PARAM \
 IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, "::" FUNCTION_CLASS_NAME "* instance" \
-                  IF_SECTION_EXISTS(FUNCTION_PARAM_SECTION, ", ") \
+                  IF_SECTION_EXISTS(FUNCTION_CLASS_INSTANCE_SEPARATOR, ", ") \
                   ) \
 FUNCTION_PARAM_LIST(FUNCTION_PARAM_SECTION, "") IF_RETURN_VALUE(IF_SECTION_EXISTS(FUNCTION_PARAM_LIST_SECTION, ", ") FUNCTION_TO_RETURN_VALUE_TYPE " to_return" TEMPLATE_INCL_SECTION(EXTRA_DECL_SECTION)) IF_SECTION_EXISTS(FUNCTION_PARAM_LIST_SECTION, ", ") FUNCTION_MATCHER_LIST
 
@@ -701,7 +702,7 @@ const char templateText[] =
         FUNCTION_EXPECT_AND_RETURN_SIGNATURE CARRIAGE_RETURN
         "{" CARRIAGE_RETURN
         "    " FUNCTION_EXPECT_RETURN_AND_OUTPUT_COMMON_NAME "("
-                IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, "instance" IF_SECTION_EXISTS(FUNCTION_PARAM_SECTION, ", "))
+                IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, "instance" IF_SECTION_EXISTS(FUNCTION_CLASS_INSTANCE_SEPARATOR, ", "))
                 FUNCTION_EXPECT_RETURN_COMMON_CALL_PARAM IF_SECTION_EXISTS(FUNCTION_PARAM_PTR_LIST_SECTION, ", ") FUNCTION_HARDCODED_PARAM_CALL(FUNCTION_PARAM_PTR_SECTION, "easyMock_null")
               ");" CARRIAGE_RETURN
         "}" CARRIAGE_RETURN
@@ -710,7 +711,7 @@ const char templateText[] =
              FUNCTION_EXPECT_RETURN_AND_OUTPUT_SIGNATURE CARRIAGE_RETURN
              "{" CARRIAGE_RETURN
              "    " FUNCTION_EXPECT_RETURN_AND_OUTPUT_COMMON_NAME "("
-                      IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, "instance" IF_SECTION_EXISTS(FUNCTION_PARAM_SECTION, ", "))
+                      IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, "instance" IF_SECTION_EXISTS(FUNCTION_CLASS_INSTANCE_SEPARATOR, ", "))
                       FUNCTION_EXPECT_RETURN_COMMON_CALL_PARAM IF_SECTION_EXISTS(FUNCTION_PARAM_PTR_LIST_SECTION, ", ") FUNCTION_PARAM_CALL(FUNCTION_PARAM_PTR_SECTION, MOCK_OUT_PREFIX)
                   ");" CARRIAGE_RETURN
              "}" CARRIAGE_RETURN
@@ -1521,6 +1522,10 @@ void CodeGeneratorCTemplate::generateFunctionSection(ctemplate::TemplateDictiona
     }
   }
   const Parameter::Vector& funParams = p_elemToMock->getFunctionsParameters();
+  if(parentData && (!isRvVoid || !funParams.empty()))
+  {
+    functionSectionDict->AddSectionDictionary(FUNCTION_CLASS_INSTANCE_SEPARATOR);
+  }
   generateFunctionParamSection(functionSectionDict, funParams);
   if(p_elemToMock->isVariadic())
   {
-- 
2.43.0


From b69f64a2b4ae4496c845a85881c566710ee5033a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:22 +0000
Subject: [PATCH 07/43] fix: qualify the class of a mocked member function with
 its namespace

---
 .../CTemplateGenerator/CodeGeneratorCTemplate.cpp    | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 640403c..cdeb9fb 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -89,6 +89,8 @@
 
 #define FUNCTION_CLASS_NAME_VAR "FUNCTION_CLASS_NAME_VAR"
 #define FUNCTION_CLASS_NAME TEMPLATE_VAR(FUNCTION_CLASS_NAME_VAR)
+#define FUNCTION_CLASS_SCOPE_VAR "FUNCTION_CLASS_SCOPE_VAR"
+#define FUNCTION_QUALIFIED_CLASS_NAME "::" TEMPLATE_VAR(FUNCTION_CLASS_SCOPE_VAR) FUNCTION_CLASS_NAME
 #define IS_FUNCTION_CLASS_NAME "IS_FUNCTION_CLASS_NAME"
 #define FUNCTION_CLASS_INSTANCE_SEPARATOR "FUNCTION_CLASS_INSTANCE_SEPARATOR"
 
@@ -368,7 +370,7 @@ SPACES "std::reference_wrapper<" DEREFERENCED_PARAM_TYPE "> " PARAM_NAME "{ defa
 IF_SECTION_EXISTS(C_ONLY_SECTION, FUNCTION_NAME "_") "ExpectAndReturn("
 
 #define FUNCTION_EXPECT_RETURN_AND_OUTPUT_PARAM \
-IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, "::" FUNCTION_CLASS_NAME "* instance" \
+IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, FUNCTION_QUALIFIED_CLASS_NAME "* instance" \
                   IF_SECTION_EXISTS(FUNCTION_CLASS_INSTANCE_SEPARATOR, ", ") \
                   ) \
 FUNCTION_PARAM_LIST(FUNCTION_PARAM_SECTION, "") IF_RETURN_VALUE(IF_SECTION_EXISTS(FUNCTION_PARAM_LIST_SECTION, ", ") FUNCTION_TO_RETURN_VALUE_TYPE " to_return" TEMPLATE_INCL_SECTION(EXTRA_DECL_SECTION)) IF_SECTION_EXISTS(FUNCTION_PARAM_LIST_SECTION, ", ") FUNCTION_MATCHER_LIST
@@ -566,7 +568,7 @@ const char templateText[] =
         IF_SECTION_EXISTS(C_ONLY_SECTION, "typedef ")
         "struct " IF_SECTION_EXISTS(CPP_ONLY_SECTION, FUNCTION_MOCK_DATA_TYPE) " {" CARRIAGE_RETURN
         IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME,
-          "    ::" FUNCTION_CLASS_NAME "* instance;" CARRIAGE_RETURN
+          "    " FUNCTION_QUALIFIED_CLASS_NAME "* instance;" CARRIAGE_RETURN
         )
         TEMPLATE_BEG_SECTION(FUNCTION_PARAM_SECTION)
         IF_SECTION_EXISTS(REFERENCE_MEMBER_SECTION,
@@ -1459,6 +1461,12 @@ void CodeGeneratorCTemplate::generateFunctionSection(ctemplate::TemplateDictiona
   {
     functionSectionDict->AddSectionDictionary(IS_FUNCTION_CLASS_NAME);
     functionSectionDict->SetValue(FUNCTION_CLASS_NAME_VAR, parentData->getName());
+    std::string classScope;
+    for(const Namespace* curNamespace = p_elemToMock->getNamespace().get(); !curNamespace->isGlobal(); curNamespace = curNamespace->m_parent.get())
+    {
+      classScope.insert(0, curNamespace->m_name + "::");
+    }
+    functionSectionDict->SetValue(FUNCTION_CLASS_SCOPE_VAR, classScope);
     generateDeclarationOfUsedType(p_parentDictionary, parentData.get(), false);
   }
   if(p_elemToMock->isClassConst())
-- 
2.43.0


From f72c982ce739e74a9d1ceb8965f017569bd6356f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:09 +0000
Subject: [PATCH 08/43] fix: include the header that is generated when the
 mocked one isn't a .h

---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp         | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index cdeb9fb..c06112f 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -52,6 +52,7 @@
 #define CARRIAGE_RETURN "\n"
 
 #define MOCKED_HEADER_FILENAME "MOCKED_HEADER_FILENAME"
+#define MOCKED_FILE_NAME_WITHOUT_EXT "MOCKED_FILE_NAME_WITHOUT_EXT"
 #define MOCKED_FILE_NAME_WITHOUT_EXT_UPPER "MOCKED_FILE_NAME_WITHOUT_EXT_UPPER"
 #define FUNCTION_SECTION "FUNCTION_SECTION"
 #define FUNCTION_PARAM_SECTION "FUNCTION_PARAM_SECTION"
@@ -495,7 +496,7 @@ const char templateText[] =
         "#include <tuple>" CARRIAGE_RETURN
         )
         CARRIAGE_RETURN
-        "#include \"" MOCK_FRAMEWORK_NAME "_" TEMPLATE_VAR(MOCKED_HEADER_FILENAME) "\"" CARRIAGE_RETURN
+        "#include \"" MOCK_FRAMEWORK_NAME "_" TEMPLATE_VAR(MOCKED_FILE_NAME_WITHOUT_EXT) ".h\"" CARRIAGE_RETURN
         CARRIAGE_RETURN
 
         FUNCTION_INIT_ALL_MOCK_SIGNATURE ";" CARRIAGE_RETURN
@@ -1309,6 +1310,7 @@ void CodeGeneratorCTemplate::fillInTemplateVariables(const std::string &p_mocked
 
   const auto& fList = p_ctxt.getElementToMock();
   std::string fileNameWithoutExtUpper = p_mockedHeader.substr(0, p_mockedHeader.find_last_of("."));
+  m_rootDictionary->SetValue(MOCKED_FILE_NAME_WITHOUT_EXT, fileNameWithoutExtUpper);
   std::transform(fileNameWithoutExtUpper.begin(), fileNameWithoutExtUpper.end(), fileNameWithoutExtUpper.begin(), ::toupper);
   std::replace( fileNameWithoutExtUpper.begin(), fileNameWithoutExtUpper.end(), '-', '_');
   m_rootDictionary->SetValue(MOCKED_FILE_NAME_WITHOUT_EXT_UPPER, fileNameWithoutExtUpper);
-- 
2.43.0


From 0e599937a477e1d77ff991d3ed42b27fb433b0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:13 +0000
Subject: [PATCH 09/43] fix: report a null pointer as a mismatch instead of
 dereferencing it

---
 src/easyMockFramework/src/easyMock_matcher.cpp             | 7 +++++++
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp      | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/src/easyMockFramework/src/easyMock_matcher.cpp b/src/easyMockFramework/src/easyMock_matcher.cpp
index ec659c2..fe267a6 100644
--- a/src/easyMockFramework/src/easyMock_matcher.cpp
+++ b/src/easyMockFramework/src/easyMock_matcher.cpp
@@ -22,6 +22,9 @@
   { \
     cType **currentCall_val = (cType **)currentCall_ptr; \
     cType **expectedCall_val = (cType **)expectedCall_ptr; \
+    if(!*currentCall_val || !*expectedCall_val) { \
+      return cmp_pointer(currentCall_ptr, expectedCall_ptr, paramName, errorMessage); \
+    } \
     return cmp_ ## typeName ((const void*)*currentCall_val, (const void*)*expectedCall_val, paramName, errorMessage); \
   }
 
@@ -45,6 +48,10 @@ extern "C" int cmp_str(const void *currentCall_ptr, const void *expectedCall_ptr
 {
   char* currentCall_val = *((char **)currentCall_ptr);
   char* expectedCall_val = *((char **)expectedCall_ptr);
+  if(!currentCall_val || !expectedCall_val)
+  {
+    return cmp_pointer(currentCall_ptr, expectedCall_ptr, paramName, errorMessage);
+  }
   if(std::strcmp(currentCall_val, expectedCall_val) == 0)
   {
     return 0;
diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index c06112f..3a20519 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -559,6 +559,10 @@ const char templateText[] =
         "{" CARRIAGE_RETURN
         "    " IF_SECTION_EXISTS(NON_TYPED_DEF_COMPOSED_TYPE_SECTION, COMPOSED_TYPE_TEMPLATE_VAR " ") COMPOSED_TYPED_COMPARE_SECTION_DECL_NAME_VAR " **currentCall_val = (" IF_SECTION_EXISTS(NON_TYPED_DEF_COMPOSED_TYPE_SECTION, COMPOSED_TYPE_TEMPLATE_VAR " ") COMPOSED_TYPED_COMPARE_SECTION_DECL_NAME_VAR " **)currentCall_ptr;" CARRIAGE_RETURN
         "    " IF_SECTION_EXISTS(NON_TYPED_DEF_COMPOSED_TYPE_SECTION, COMPOSED_TYPE_TEMPLATE_VAR " ") COMPOSED_TYPED_COMPARE_SECTION_DECL_NAME_VAR " **expectedCall_val = (" IF_SECTION_EXISTS(NON_TYPED_DEF_COMPOSED_TYPE_SECTION, COMPOSED_TYPE_TEMPLATE_VAR " ") COMPOSED_TYPED_COMPARE_SECTION_DECL_NAME_VAR " **)expectedCall_ptr;" CARRIAGE_RETURN
+        "    if(!*currentCall_val || !*expectedCall_val)" CARRIAGE_RETURN
+        "    {" CARRIAGE_RETURN
+        "        return cmp_pointer(currentCall_ptr, expectedCall_ptr, paramName, errorMessage);" CARRIAGE_RETURN
+        "    }" CARRIAGE_RETURN
         "    return cmp_" COMPOSED_TYPED_COMPARE_SECTION_UNIQUE_NAME_VAR "((const void*)*currentCall_val, (const void*)*expectedCall_val, paramName, errorMessage);" CARRIAGE_RETURN
         "}" CARRIAGE_RETURN
         CARRIAGE_RETURN
-- 
2.43.0


From af74a91cba4a09568805e34da37b78a7a6b6e5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:27 +0000
Subject: [PATCH 10/43] fix: keep signed char apart from char

---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 594db94..56dee4e 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -660,6 +660,11 @@ private:
       }
       else
 #endif
+      if(isSignedCharType(type))
+      {
+        cType = std::make_shared<CType>(CTYPE_SCHAR);
+      }
+      else
       {
         cType = std::make_shared<CType>(CTYPE_CHAR);
       }
@@ -1001,6 +1006,14 @@ private:
             kind == clang::BuiltinType::UInt;
   }
 
+  bool isSignedCharType(const clang::Type &type)
+  {
+    const clang::BuiltinType *bt = type.getAs<clang::BuiltinType>();
+
+    clang::BuiltinType::Kind kind = bt->getKind();
+    return kind == clang::BuiltinType::SChar;
+  }
+
   bool isFloatType(const clang::Type &type)
   {
     const clang::BuiltinType *bt = type.getAs<clang::BuiltinType>();
-- 
2.43.0


From ed6163470638663e6e1a79d5c7efcab0a4be1e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:42 +0000
Subject: [PATCH 11/43] fix: keep bool as bool instead of turning it into
 unsigned int

---
 src/easyMockGenerate/include/EasyMockGenerateTypes.h | 4 ++++
 src/easyMockGenerate/src/EasyMockGenerateTypes.cpp   | 2 ++
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp   | 6 +++++-
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/include/EasyMockGenerateTypes.h b/src/easyMockGenerate/include/EasyMockGenerateTypes.h
index 642ed23..95815c0 100644
--- a/src/easyMockGenerate/include/EasyMockGenerateTypes.h
+++ b/src/easyMockGenerate/include/EasyMockGenerateTypes.h
@@ -73,6 +73,10 @@ typedef enum
    * \brief <tt> unsigned __int128 </tt> type
    */
   CTYPE_UINT128,
+  /*!
+   * \brief @c _Bool type (@c bool in C++)
+   */
+  CTYPE_BOOL,
   /*!
    * \brief @c void type
    */
diff --git a/src/easyMockGenerate/src/EasyMockGenerateTypes.cpp b/src/easyMockGenerate/src/EasyMockGenerateTypes.cpp
index e9171d5..6c581e9 100644
--- a/src/easyMockGenerate/src/EasyMockGenerateTypes.cpp
+++ b/src/easyMockGenerate/src/EasyMockGenerateTypes.cpp
@@ -20,6 +20,7 @@ const char *easyMock_arrayCTypeStr[] =
   "long double",
   "__int128",
   "unsigned __int128",
+  "_Bool",
   "void",
   "invalid"
 };
@@ -44,6 +45,7 @@ const char *easyMock_printfFormat[] =
   "Lf",
   "lf%lf",
   "Lf%Lf",
+  "d",
   "voidInvalidPrintfFormat",
   "invalidPrintfFormat"
 };
diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 56dee4e..b1dba7e 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -699,7 +699,11 @@ private:
     }
     else if(isBoolType(type))
     {
-      cType = std::make_shared<CType>(CTYPE_INT);
+      cType = std::make_shared<CType>(CTYPE_BOOL);
+      if(m_context->getLangOpts().CPlusPlus)
+      {
+        cType->setName("bool");
+      }
     }
     else if(isInt128Type(type))
     {
-- 
2.43.0


From ae4656ef33df176124bf1b7bab018412450b1404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:50 +0000
Subject: [PATCH 12/43] fix: don't recurse forever on a class whose member
 functions use the class

---
 src/easyMockGenerate/src/ComposableType.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/easyMockGenerate/src/ComposableType.cpp b/src/easyMockGenerate/src/ComposableType.cpp
index b2f3fcb..50c36d1 100644
--- a/src/easyMockGenerate/src/ComposableType.cpp
+++ b/src/easyMockGenerate/src/ComposableType.cpp
@@ -45,8 +45,8 @@ std::size_t ComposableType::getHash() const noexcept
   boost::hash_combine(seed, m_is_forward_declared);
   for(const auto& function : m_functions)
   {
-    //const auto f_ptr = function.lock();
-    boost::hash_combine(seed, *function);
+    // The function can use this type in its parameters or return value.
+    boost::hash_combine(seed, function->getFunctionPrototype());
   }
 
   return seed;
-- 
2.43.0


From 322bbfcca008a5074e07a40e50ccd84b58b653aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:18 +0000
Subject: [PATCH 13/43] fix: don't loop forever on a declaration that starts in
 another file

---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index b1dba7e..f4873bd 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -442,6 +442,11 @@ private:
       dumpSourceRange.setEnd(rawToken.getEndLoc());
       clang::StringRef dumpStrRef = clang::Lexer::getSourceText(dumpSourceRange, *m_SM, *m_LO);
       const std::string currentTokenStr{dumpStrRef.str()};
+      if(currentTokenStr.empty())
+      {
+        // End of the file: the declaration goes on in another one.
+        break;
+      }
       if(m_ctxt.hasMacroDefine(currentTokenStr))
       {
         const MacroDefinition& md = m_ctxt.getMacroDefinition(currentTokenStr);
-- 
2.43.0


From 0e136e772073b9994bfade20f34492f0a6fa14cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:01 +0000
Subject: [PATCH 14/43] fix: keep the enumerators with a negative or an already
 used value

The values of an enum were stored in a map from unsigned int: with
--generate-types an enumerator with the value of another one was lost, and
a negative one became a large positive number.
---
 src/easyMockGenerate/include/Enum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/include/Enum.h b/src/easyMockGenerate/include/Enum.h
index 714131e..5608992 100644
--- a/src/easyMockGenerate/include/Enum.h
+++ b/src/easyMockGenerate/include/Enum.h
@@ -25,7 +25,7 @@ public:
   /*!
    * \brief Type used to store enum values
    */
-  using listOfValuesType = std::map<unsigned int, std::string>;
+  using listOfValuesType = std::multimap<int64_t, std::string>;
 
   /*!
    * \brief Creates an enum
-- 
2.43.0


From c6d3c5a2615fd2d76a8c3f4c10d2c8a32fb8adf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:22 +0000
Subject: [PATCH 15/43] fix: mock every function of the same name in C++

Functions of the same name and parameters in several namespaces or classes were taken for a
redeclaration and left out; overloaded functions made the mock impossible to compile.
---
 .../include/CodeGeneratorCTemplate.h          |  2 +
 .../CodeGeneratorCTemplate.cpp                | 42 ++++++++++++++++---
 2 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/src/easyMockGenerate/include/CodeGeneratorCTemplate.h b/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
index 6f67809..1caa627 100644
--- a/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
+++ b/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
@@ -83,6 +83,7 @@ private:
   ctemplate::TemplateDictionary* generateDeclarationOfComposableType(ctemplate::TemplateDictionary *compareDir, const ComposableType *p_composedType, int p_level, GenerateDeclarationOfComposableTypeOrigin p_origin);
   void generateDeclarationOfUsedType(ctemplate::TemplateDictionary* p_parentDict, const TypeItf* p_type, bool p_generateIncomplete);
   bool generateCodeToFile(const std::string &outDir, const std::string &filename, const std::string &extension, const std::string &generatedCode);
+  std::string getUniqueFunctionName(const FunctionDeclaration& p_function);
   std::string getDeclaratorString(const Declarator& p_decl);
   std::string getNonQualifiedDereferencedDeclaratorString(const Declarator& p_decl);
   const TypeItf& getDereferencedType(const TypeItf& p_decl);
@@ -107,6 +108,7 @@ private:
   const TypeItf* getMostPointedType(const TypeItf* p_type);
 
   std::unordered_set<std::string> m_generatedComparator;
+  std::unordered_set<std::string> m_uniqueFunctionNames;
   unsigned int m_nbUnamedParam;
   ctemplate::TemplateDictionary *m_rootDictionary;
   ctemplate::TemplateDictionary *m_generateMockedTypeSection;
diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 3a20519..e6c0107 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -7,6 +7,7 @@
 #include <cstring>
 #include "CodeGeneratorCTemplate.h"
 #include <boost/filesystem.hpp>
+#include <boost/functional/hash.hpp>
 #include <unordered_set>
 
 #include "TypeItf.h"
@@ -266,6 +267,8 @@
 #define FUNCTION_RETURN_VALUE_TYPE TEMPLATE_VAR(FUNCTION_RETURN_VALUE)
 #define FUNCTION_TO_RETURN_VALUE_TYPE TEMPLATE_VAR(FUNCTION_TO_RETURN_VALUE)
 #define FUNCTION_NAME TEMPLATE_VAR(FUNCTION_NAME_VAR)
+#define FUNCTION_UNIQUE_NAME_VAR "FUNCTION_UNIQUE_NAME_VAR"
+#define FUNCTION_UNIQUE_NAME TEMPLATE_VAR(FUNCTION_UNIQUE_NAME_VAR)
 #define FUNCTION_ACCESS_SPECIFIER TEMPLATE_VAR(FUNCTION_ACCESS_SPECIFIER_VAR)
 
 #define FUNCTION_NON_QUALIFIED_RETURN_VALUE "FUNCTION_NON_QUALIFIED_RETURN_VALUE"
@@ -383,7 +386,7 @@ FUNCTION_PARAM_LIST(FUNCTION_PARAM_SECTION, "") IF_RETURN_VALUE(IF_SECTION_EXIST
 IF_SECTION_EXISTS(C_ONLY_SECTION, FUNCTION_NAME "_") "ExpectReturnAndOutput"
 
 #define FUNCTION_EXPECT_RETURN_AND_OUTPUT_COMMON_NAME \
-FUNCTION_NAME "_ExpectReturnAndOutput_common"
+FUNCTION_UNIQUE_NAME "_ExpectReturnAndOutput_common"
 
 #define FUNCTION_EXPECT_RETURN_AND_OUTPUT_SIGNATURE_PARAM \
 FUNCTION_EXPECT_RETURN_AND_OUTPUT_PARAM IF_SECTION_EXISTS(FUNCTION_PARAM_PTR_LIST_SECTION, ", ") FUNCTION_PARAM_LIST(FUNCTION_PARAM_PTR_SECTION, MOCK_OUT_PREFIX)
@@ -416,7 +419,7 @@ MOCK_FRAMEWORK_NAME "_verifyAllMocksInThisHeader"
 "static easyMock_bool " VERIFY_ALL_MOCK_FUNCTION_NAME "()"
 
 #define FUNCTION_MOCK_DATA_TYPE \
-FUNCTION_CLASS_NAME "_" FUNCTION_NAME "_data"
+"_" FUNCTION_UNIQUE_NAME "_data"
 
 #define FUNCTION_MOCK_DATA_RETURN_VALUE_VARIABLE \
 FUNCTION_CLASS_NAME "_" FUNCTION_NAME "_returnValue"
@@ -436,7 +439,7 @@ FUNCTION_CLASS_NAME "_" FUNCTION_NAME "_match_" PARAMETER_NAME("")
 #define FUNCTION_PARAMETERS "("  FUNCTION_PARAM_LIST(FUNCTION_PARAM_SECTION, "") IF_SECTION_EXISTS(VARIADIC_SECTION, VARIADIC_TEMPLATE_VAR) ")"
 #define TEMPLATE_FUNCTION_TO_BE_MOCKED FUNCTION_ATTRIBUTE_DECLARATION_LIST FUNCTION_RETURN_VALUE_TYPE " " IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, FUNCTION_CLASS_NAME "::") FUNCTION_NAME FUNCTION_PARAMETERS TEMPLATE_INCL_SECTION(EXTRA_TOP_LEVEL_DECL_SECTION) IF_SECTION_EXISTS(IS_FUNCTION_CLASS_CONST, " const")
 #define MOCKED_FUN_CLASS(F_NAME) "mocked_" F_NAME
-#define TEMPLATE_MOCKED_FUN_CLASS MOCKED_FUN_CLASS(FUNCTION_NAME)
+#define TEMPLATE_MOCKED_FUN_CLASS MOCKED_FUN_CLASS(FUNCTION_UNIQUE_NAME)
 
 #define COMPOSED_TYPED_COMPARE_SECTION_DECL_NAME_VAR TEMPLATE_VAR(COMPOSED_TYPED_DECL_STRING)
 #define COMPOSED_TYPED_COMPARE_SECTION_UNIQUE_NAME_VAR TEMPLATE_VAR(COMPOSED_TYPED_UNIQUE_NAME)
@@ -607,7 +610,7 @@ const char templateText[] =
         IF_SECTION_EXISTS(C_ONLY_SECTION, "static MockedFunction " TEMPLATE_MOCKED_FUN_CLASS ";" CARRIAGE_RETURN)
         IF_SECTION_EXISTS(CPP_ONLY_SECTION, "static MockedCppFunction<" FUNCTION_MOCK_DATA_TYPE "> " TEMPLATE_MOCKED_FUN_CLASS ";" CARRIAGE_RETURN)
         IF_RETURN_VALUE(
-          "static " FUNCTION_NON_QUALIFIED_RETURN_VALUE_TYPE " dummyRes_" FUNCTION_NAME TEMPLATE_INCL_SECTION(EXTRA_DECL_SECTION)
+          "static " FUNCTION_NON_QUALIFIED_RETURN_VALUE_TYPE " dummyRes_" FUNCTION_UNIQUE_NAME TEMPLATE_INCL_SECTION(EXTRA_DECL_SECTION)
           IF_SECTION_EXISTS(CPP_ONLY_SECTION, "{}")
           ";"
           CARRIAGE_RETURN
@@ -621,11 +624,11 @@ const char templateText[] =
         CARRIAGE_RETURN
         IF_RETURN_VALUE(
           IF_SECTION_EXISTS(REFERENCE_RETURN_SECTION,
-              "    std::reference_wrapper<" FUNCTION_DEREFERENCED_RETURN_VALUE_TYPE "> default_res { dummyRes_" FUNCTION_NAME " };" CARRIAGE_RETURN
+              "    std::reference_wrapper<" FUNCTION_DEREFERENCED_RETURN_VALUE_TYPE "> default_res { dummyRes_" FUNCTION_UNIQUE_NAME " };" CARRIAGE_RETURN
           )
           IF_SECTION_EXISTS(REGULAR_RETURN_SECTION,
               "    " FUNCTION_NON_QUALIFIED_RETURN_VALUE_TYPE " default_res" TEMPLATE_INCL_SECTION(EXTRA_TOP_LEVEL_DECL_SECTION) ";" CARRIAGE_RETURN
-              "    easyMock_memcpy((void*)&default_res, (void*)&dummyRes_" FUNCTION_NAME ", sizeof(default_res));" CARRIAGE_RETURN
+              "    easyMock_memcpy((void*)&default_res, (void*)&dummyRes_" FUNCTION_UNIQUE_NAME ", sizeof(default_res));" CARRIAGE_RETURN
           )
           CARRIAGE_RETURN
         )
@@ -1231,6 +1234,7 @@ bool CodeGeneratorCTemplate::generateCodeImplementation(const std::string& p_out
   m_generatedTypeEnumSection.clear();
   m_typeToTypedef.clear();
   m_generatedComparator.clear();
+  m_uniqueFunctionNames.clear();
 
   std::string filenameToMock = boost::filesystem::path(p_fullPathToHeaderToMock).filename().string();
   fillInMacroDefinition(p_ctxt);
@@ -1364,7 +1368,15 @@ void CodeGeneratorCTemplate::fillInTemplateVariables(const std::string &p_mocked
       {
         continue;
       }
+      /*
+       * The namespace and the class tell apart the functions having the same name and the same parameters.
+       */
       std::size_t rawHash = fun->getRawHash();
+      boost::hash_combine(rawHash, *fun->getNamespace());
+      if(fun->isMemberClass())
+      {
+        boost::hash_combine(rawHash, fun->getParentData()->getName());
+      }
       if(generatedElements.find(rawHash) != generatedElements.end())
       {
         continue;
@@ -1481,6 +1493,7 @@ void CodeGeneratorCTemplate::generateFunctionSection(ctemplate::TemplateDictiona
   }
 
   functionSectionDict->SetValue(FUNCTION_NAME_VAR, *p_elemToMock->getName());
+  functionSectionDict->SetValue(FUNCTION_UNIQUE_NAME_VAR, getUniqueFunctionName(*p_elemToMock));
   std::string upperString(*p_elemToMock->getName());
   std::transform(upperString.begin(), upperString.end(), upperString.begin(), ::toupper);
   functionSectionDict->SetValue(FUNCTION_NAME_UPPER, upperString);
@@ -2443,6 +2456,23 @@ closeFile:
   return rv;
 }
 
+std::string CodeGeneratorCTemplate::getUniqueFunctionName(const FunctionDeclaration& p_function)
+{
+  const std::string& functionName = *p_function.getName();
+  std::string uniqueName { functionName };
+  if(m_isCpp)
+  {
+    /*
+     * Functions of several namespaces or classes, and overloaded functions, can have the same name.
+     */
+    for(unsigned int i = 2; !m_uniqueFunctionNames.insert(uniqueName).second; i++)
+    {
+      uniqueName = functionName + "_" + std::to_string(i);
+    }
+  }
+  return uniqueName;
+}
+
 std::string CodeGeneratorCTemplate::getNonQualifiedDereferencedDeclaratorString(const Declarator& p_decl)
 {
   const TypeItf& typeToDeclare = getDereferencedType(*p_decl.getType());
-- 
2.43.0


From b4f51a4a25100b3e64f9c1891c606bb208b29376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 16/43] fix: tell apart the functions of several namespaces
 when checking the order

The functions were registered without their namespaces: calls to a::f() and b::f() could be swapped
unnoticed and the messages didn't tell which one was meant.
---
 src/easyMockGenerate/include/Function.h         |  9 ++++++++-
 .../include/FunctionDeclaration.h               |  5 +++++
 .../CodeGeneratorCTemplate.cpp                  | 17 +++++++----------
 src/easyMockGenerate/src/Function.cpp           |  6 ++++++
 .../src/FunctionDeclaration.cpp                 | 10 ++++++++++
 5 files changed, 36 insertions(+), 11 deletions(-)

diff --git a/src/easyMockGenerate/include/Function.h b/src/easyMockGenerate/include/Function.h
index 54e082e..f8d611e 100644
--- a/src/easyMockGenerate/include/Function.h
+++ b/src/easyMockGenerate/include/Function.h
@@ -63,11 +63,18 @@ public:
   /*!
    * \brief Returns the string which represents the prototype of the function.
    *
-   * The function prototype specifies the function's name, parameters and
+   * The function prototype specifies the function's name (with its namespaces), parameters and
    * return type. It doesn't contain function's body.
    */
   std::string getFunctionPrototype() const;
 
+  /*!
+   * \brief Returns the namespaces in which the function is declared.
+   *
+   * E.g. "L1::L2::". The string is empty when the function is in the global namespace.
+   */
+  virtual std::string getScope() const;
+
   /*!
    * \copydoc ::Function::getFunctionsParameters()
    */
diff --git a/src/easyMockGenerate/include/FunctionDeclaration.h b/src/easyMockGenerate/include/FunctionDeclaration.h
index 510de1b..c00b2ad 100644
--- a/src/easyMockGenerate/include/FunctionDeclaration.h
+++ b/src/easyMockGenerate/include/FunctionDeclaration.h
@@ -76,6 +76,11 @@ public:
    */
   std::shared_ptr<const Namespace> getNamespace() const;
 
+  /*!
+   * \copydoc ::Function::getScope()
+   */
+  std::string getScope() const override;
+
   virtual ~FunctionDeclaration();
   static const FunctionDeclaration& toFunctionDeclaration(const ElementToMock& elem)
   {
diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index e6c0107..63e6d0c 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -91,8 +91,8 @@
 
 #define FUNCTION_CLASS_NAME_VAR "FUNCTION_CLASS_NAME_VAR"
 #define FUNCTION_CLASS_NAME TEMPLATE_VAR(FUNCTION_CLASS_NAME_VAR)
-#define FUNCTION_CLASS_SCOPE_VAR "FUNCTION_CLASS_SCOPE_VAR"
-#define FUNCTION_QUALIFIED_CLASS_NAME "::" TEMPLATE_VAR(FUNCTION_CLASS_SCOPE_VAR) FUNCTION_CLASS_NAME
+#define FUNCTION_SCOPE_VAR "FUNCTION_SCOPE_VAR"
+#define FUNCTION_QUALIFIED_CLASS_NAME "::" TEMPLATE_VAR(FUNCTION_SCOPE_VAR) FUNCTION_CLASS_NAME
 #define IS_FUNCTION_CLASS_NAME "IS_FUNCTION_CLASS_NAME"
 #define FUNCTION_CLASS_INSTANCE_SEPARATOR "FUNCTION_CLASS_INSTANCE_SEPARATOR"
 
@@ -437,7 +437,9 @@ FUNCTION_CLASS_NAME "_" FUNCTION_NAME "_match_" PARAMETER_NAME("")
 #define INSIDE_CLASS_FUNCTION_DECLARATION FUNCTION_ACCESS_SPECIFIER ": " FUNCTION_RETURN_VALUE_TYPE " " FUNCTION_NAME FUNCTION_PARAMETERS IF_SECTION_EXISTS(IS_FUNCTION_CLASS_CONST, " const") ";"
 
 #define FUNCTION_PARAMETERS "("  FUNCTION_PARAM_LIST(FUNCTION_PARAM_SECTION, "") IF_SECTION_EXISTS(VARIADIC_SECTION, VARIADIC_TEMPLATE_VAR) ")"
-#define TEMPLATE_FUNCTION_TO_BE_MOCKED FUNCTION_ATTRIBUTE_DECLARATION_LIST FUNCTION_RETURN_VALUE_TYPE " " IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, FUNCTION_CLASS_NAME "::") FUNCTION_NAME FUNCTION_PARAMETERS TEMPLATE_INCL_SECTION(EXTRA_TOP_LEVEL_DECL_SECTION) IF_SECTION_EXISTS(IS_FUNCTION_CLASS_CONST, " const")
+#define TEMPLATE_FUNCTION_SIGNATURE(SCOPE) FUNCTION_ATTRIBUTE_DECLARATION_LIST FUNCTION_RETURN_VALUE_TYPE " " SCOPE IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, FUNCTION_CLASS_NAME "::") FUNCTION_NAME FUNCTION_PARAMETERS TEMPLATE_INCL_SECTION(EXTRA_TOP_LEVEL_DECL_SECTION) IF_SECTION_EXISTS(IS_FUNCTION_CLASS_CONST, " const")
+#define TEMPLATE_FUNCTION_TO_BE_MOCKED TEMPLATE_FUNCTION_SIGNATURE("")
+#define TEMPLATE_FUNCTION_QUALIFIED_SIGNATURE TEMPLATE_FUNCTION_SIGNATURE(TEMPLATE_VAR(FUNCTION_SCOPE_VAR))
 #define MOCKED_FUN_CLASS(F_NAME) "mocked_" F_NAME
 #define TEMPLATE_MOCKED_FUN_CLASS MOCKED_FUN_CLASS(FUNCTION_UNIQUE_NAME)
 
@@ -771,7 +773,7 @@ const char templateText[] =
         FUNCTION_INIT_ALL_MOCK_SIGNATURE CARRIAGE_RETURN
         "{" CARRIAGE_RETURN
         TEMPLATE_BEG_SECTION(FUNCTION_SECTION)
-        "    MockedFunction_init(&" TEMPLATE_MOCKED_FUN_CLASS ", \"" TEMPLATE_FUNCTION_TO_BE_MOCKED "\", sizeof(" FUNCTION_MOCK_DATA_TYPE ") );" CARRIAGE_RETURN
+        "    MockedFunction_init(&" TEMPLATE_MOCKED_FUN_CLASS ", \"" TEMPLATE_FUNCTION_QUALIFIED_SIGNATURE "\", sizeof(" FUNCTION_MOCK_DATA_TYPE ") );" CARRIAGE_RETURN
         TEMPLATE_END_SECTION(FUNCTION_SECTION)
         "}"
         CARRIAGE_RETURN
@@ -1474,17 +1476,12 @@ void CodeGeneratorCTemplate::generateFunctionSection(ctemplate::TemplateDictiona
   }
   functionSectionDict->SetValue(ORIGIN_FILE_VAR, p_elemToMock->getOriginFile());
   generateFunctionAttributes(p_elemToMock, functionSectionDict);
+  functionSectionDict->SetValue(FUNCTION_SCOPE_VAR, p_elemToMock->getScope());
   const auto& parentData = p_elemToMock->getParentData();
   if(parentData)
   {
     functionSectionDict->AddSectionDictionary(IS_FUNCTION_CLASS_NAME);
     functionSectionDict->SetValue(FUNCTION_CLASS_NAME_VAR, parentData->getName());
-    std::string classScope;
-    for(const Namespace* curNamespace = p_elemToMock->getNamespace().get(); !curNamespace->isGlobal(); curNamespace = curNamespace->m_parent.get())
-    {
-      classScope.insert(0, curNamespace->m_name + "::");
-    }
-    functionSectionDict->SetValue(FUNCTION_CLASS_SCOPE_VAR, classScope);
     generateDeclarationOfUsedType(p_parentDictionary, parentData.get(), false);
   }
   if(p_elemToMock->isClassConst())
diff --git a/src/easyMockGenerate/src/Function.cpp b/src/easyMockGenerate/src/Function.cpp
index e2a113a..28651b3 100644
--- a/src/easyMockGenerate/src/Function.cpp
+++ b/src/easyMockGenerate/src/Function.cpp
@@ -269,6 +269,7 @@ std::string Function::getFunctionPrototype() const
   }
   rv_funcProto.append(m_returnType.getDeclareString());
   rv_funcProto.push_back(' ');
+  rv_funcProto.append(getScope());
   auto lockedParentData = m_parentData.lock();
   if(lockedParentData)
   {
@@ -307,3 +308,8 @@ std::string Function::getFunctionPrototype() const
 
   return rv_funcProto;
 }
+
+std::string Function::getScope() const
+{
+  return std::string{};
+}
diff --git a/src/easyMockGenerate/src/FunctionDeclaration.cpp b/src/easyMockGenerate/src/FunctionDeclaration.cpp
index 45a3c39..41d69f8 100644
--- a/src/easyMockGenerate/src/FunctionDeclaration.cpp
+++ b/src/easyMockGenerate/src/FunctionDeclaration.cpp
@@ -55,6 +55,16 @@ std::shared_ptr<const Namespace> FunctionDeclaration::getNamespace() const
   return m_namespace;
 }
 
+std::string FunctionDeclaration::getScope() const
+{
+  std::string scope;
+  for(const Namespace* curNamespace = m_namespace.get(); !curNamespace->isGlobal(); curNamespace = curNamespace->m_parent.get())
+  {
+    scope.insert(0, curNamespace->m_name + "::");
+  }
+  return scope;
+}
+
 bool FunctionDeclaration::operator==(const FunctionDeclaration& other) const
 {
   bool funEqual = Function::operator==(other);
-- 
2.43.0


From 1873e9f5522381eb8c7239fdd3a4f93bf7368dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 17/43] fix: find the file of a function whatever the name of
 the file

A header in a directory with a ':' in its name, or with a line directive naming a file that doesn't
exist, ended the generator with an uncaught exception.
---
 .../src/LLVMParser/LLVMParser.cpp             | 24 ++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index f4873bd..9859f57 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -150,9 +150,7 @@ public:
       return nullptr;
     }
     std::string originFileFullInfo = func->getLocation().printToString(*m_SM);
-    size_t posColumn = originFileFullInfo.find_first_of(':');
-    std::string originFile = originFileFullInfo.substr(0,posColumn);
-    boost::filesystem::path originCanon = boost::filesystem::canonical(originFile);
+    boost::filesystem::path originCanon = getOriginFile(func->getLocation());
 
     bool isFromMainFile = m_mainFile == originCanon;
     if(!m_parseIncludedFunctions && !isFromMainFile)
@@ -240,6 +238,26 @@ private:
     CLASS
   };
 
+  /*
+   * The file given by a line directive counts, unless it doesn't exist (e.g. the header was generated on
+   * another machine).
+   */
+  boost::filesystem::path getOriginFile(const clang::SourceLocation& location)
+  {
+    const clang::SourceLocation expansionLoc = m_SM->getExpansionLoc(location);
+    const clang::PresumedLoc presumedLoc = m_SM->getPresumedLoc(expansionLoc);
+    boost::system::error_code errorCode;
+    if(presumedLoc.isValid())
+    {
+      boost::filesystem::path originFile = boost::filesystem::canonical(presumedLoc.getFilename(), errorCode);
+      if(!errorCode)
+      {
+        return originFile;
+      }
+    }
+    return boost::filesystem::canonical(m_SM->getFilename(expansionLoc).str(), errorCode);
+  }
+
   void setFunctionAttribute(const clang::FunctionDecl* clangFunc, FunctionDeclaration& easyMockFun)
   {
     for(const auto& attr : clangFunc->attrs())
-- 
2.43.0


From 5a5729a8e424eca46c58f07726c9a11c75403019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:56 +0000
Subject: [PATCH 18/43] fix: use a valid include guard for every name of header

The dots of 'foo.pb.h' ended the name of the guard: the mock of 'foo.grpc.h' had the same one and was
left out when both were included.
---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 63e6d0c..31647e0 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -1322,7 +1322,7 @@ void CodeGeneratorCTemplate::fillInTemplateVariables(const std::string &p_mocked
   std::string fileNameWithoutExtUpper = p_mockedHeader.substr(0, p_mockedHeader.find_last_of("."));
   m_rootDictionary->SetValue(MOCKED_FILE_NAME_WITHOUT_EXT, fileNameWithoutExtUpper);
   std::transform(fileNameWithoutExtUpper.begin(), fileNameWithoutExtUpper.end(), fileNameWithoutExtUpper.begin(), ::toupper);
-  std::replace( fileNameWithoutExtUpper.begin(), fileNameWithoutExtUpper.end(), '-', '_');
+  std::replace_if(fileNameWithoutExtUpper.begin(), fileNameWithoutExtUpper.end(), [](unsigned char c){ return !std::isalnum(c); }, '_');
   m_rootDictionary->SetValue(MOCKED_FILE_NAME_WITHOUT_EXT_UPPER, fileNameWithoutExtUpper);
   std::unordered_set<std::size_t> generatedElements;
   for (const auto& fun: fList)
-- 
2.43.0


From 6bfb778bd090b04f56edd00a7bf1a5574e02f053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:25 +0000
Subject: [PATCH 19/43] fix: keep all the dimensions of an array field

The comparator of a field like 'int m[2][3]' compared the addresses of the
rows, so two equal structures always differed, and --generate-types lost
the inner dimensions as well as the flexible array member ('char d[]' became
'char d'), which changed the size of the structure.
---
 .../include/ComposableField.h                 | 25 ++++++++++
 .../CodeGeneratorCTemplate.cpp                | 24 +++++----
 src/easyMockGenerate/src/ComposableField.cpp  | 49 ++++++++++++++++++-
 .../src/LLVMParser/LLVMParser.cpp             | 15 +++++-
 4 files changed, 98 insertions(+), 15 deletions(-)

diff --git a/src/easyMockGenerate/include/ComposableField.h b/src/easyMockGenerate/include/ComposableField.h
index e2afd93..739cbf2 100644
--- a/src/easyMockGenerate/include/ComposableField.h
+++ b/src/easyMockGenerate/include/ComposableField.h
@@ -8,7 +8,9 @@
 #include "EasyMockGenerateTypes.h"
 #include "ComposableFieldItf.h"
 
+#include <cstdint>
 #include <string>
+#include <vector>
 
 //Forward declare TypeItf to avoid circular include dependencies
 class TypeItf;
@@ -58,6 +60,12 @@ public:
      * - <tt>arraySize > 0 </tt>: means that this fields is a bounded array. I.e isBoundSpecifiedArray() returns <tt>true</tt>
      */
     int64_t arraySize;
+    /*!
+     * \brief Sets the sizes of the other dimensions of a multidimensional array.
+     *
+     * In <tt>int f[2][3][4]</tt>, arraySize is 2 and innerArraySizes is {3, 4}.
+     */
+    std::vector<uint64_t> innerArraySizes = {};
   } attributes;
   ComposableField(const easyMock_cTypes_t p_ctype, std::string p_name);
   ComposableField(std::shared_ptr<TypeItf> p_type, std::string p_name);
@@ -166,6 +174,22 @@ public:
    */
   int64_t getArraySize() const;
 
+  /*!
+   * \brief Returns what follows the name of the field when it is declared.
+   *
+   * For instance <tt>[2][3]</tt>.
+   */
+  std::string getArrayDeclaration() const;
+
+  /*!
+   * \brief Returns the expression which accesses one element of the array.
+   *
+   * The elements of a multidimensional array are numbered consecutively.
+   *
+   * \param p_index The expression of the number of the element
+   */
+  std::string getArrayAccess(const std::string& p_index) const;
+
   /*!
    * \copydoc ::EasyMock::Hashable::getHash()
    */
@@ -185,6 +209,7 @@ private:
   bool isEqual(const Declarator& p_other) const override;
 
   int64_t m_arraySize;
+  std::vector<uint64_t> m_innerArraySizes;
   std::size_t m_cachedHash;
 };
 
diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 31647e0..b4b88a2 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -68,6 +68,7 @@
 #define COMPOSED_TYPED_UNIQUE_NAME "COMPOSED_TYPED_UNIQUE_NAME"
 #define STRUCT_COMPARE_PARAM_SECTION "STRUCT_COMPARE_PARAM_SECTION"
 #define STRUCT_COMPARE_ARRAY_SECTION "STRUCT_COMPARE_ARRAY_SECTION"
+#define STRUCT_COMPARE_ARRAY_FIRST_ELEMENT "STRUCT_COMPARE_ARRAY_FIRST_ELEMENT"
 #define STRUCT_PRINT_IDX_SECTION "STRUCT_PRINT_IDX_SECTION"
 #define COMPARE_CONDITION "COMPARE_CONDITION"
 #define STRUCT_COMPARE_ERROR "STRUCT_COMPARE_ERROR"
@@ -541,7 +542,7 @@ const char templateText[] =
         TEMPLATE_END_SECTION(STRUCT_COMPARE_PARAM_SECTION)
 
         TEMPLATE_BEG_SECTION(STRUCT_COMPARE_ARRAY_SECTION)
-        "    for(unsigned int idx = 0; idx < (sizeof(currentCall_val->" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_FIELD_VAR ")/sizeof(currentCall_val->" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_FIELD_VAR "[0])); idx++)" CARRIAGE_RETURN
+        "    for(unsigned int idx = 0; idx < (sizeof(currentCall_val->" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_FIELD_VAR ")/sizeof(currentCall_val->" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_FIELD_VAR TEMPLATE_VAR(STRUCT_COMPARE_ARRAY_FIRST_ELEMENT) ")); idx++)" CARRIAGE_RETURN
         "    {" CARRIAGE_RETURN
         TEMPLATE_BEG_SECTION(STRUCT_COMPARE_PRE_IF_SECTION)
         "        CSTRING_AUTOCLEAN(" TEMPLATE_VAR(STRUCT_COMPARE_PRE_IF_SECTION_VAR_NAME) ") = cstring_new_init(paramName);" CARRIAGE_RETURN
@@ -1781,7 +1782,7 @@ void CodeGeneratorCTemplate::generateFieldCmp(std::string& p_condition, const Co
   }
   if(curComposableField && curComposableField->isBoundSpecifiedArray())
   {
-    p_condition.append("[idx]");
+    p_condition.append(curComposableField->getArrayAccess("idx"));
   }
 }
 
@@ -1793,6 +1794,7 @@ void CodeGeneratorCTemplate::generateBodyStructCompare(ctemplate::TemplateDictio
     if(std::strcmp(p_ctemplateDictionarySectionToAdd, STRUCT_COMPARE_ARRAY_SECTION) == 0)
     {
       newDict->SetValue(STRUCT_COMPARE_FIELD, p_curField->getName());
+      newDict->SetValue(STRUCT_COMPARE_ARRAY_FIRST_ELEMENT, dynamic_cast<const ComposableField*>(p_curField)->getArrayAccess("0"));
     }
     return newDict;
   };
@@ -1923,20 +1925,20 @@ void CodeGeneratorCTemplate::generateBasicTypeField(const ComposableFieldItf *p_
   condition.append(p_curField->getName());
   if(curComposableField && curComposableField->isBoundSpecifiedArray())
   {
-    condition.append("[idx]");
+    condition.append(curComposableField->getArrayAccess("idx"));
   }
   condition.append(" != expectedCall_val->");
   condition.append(p_curField->getName());
   if(curComposableField && curComposableField->isBoundSpecifiedArray())
   {
-    condition.append("[idx]");
+    condition.append(curComposableField->getArrayAccess("idx"));
   }
   ctemplate::TemplateDictionary *errorDict = p_paramSectDict->AddSectionDictionary(STRUCT_COMPARE_ERROR);
   std::string compareField = p_curField->getName();
   if(curComposableField && curComposableField->isBoundSpecifiedArray())
   {
     errorDict->AddSectionDictionary(STRUCT_PRINT_IDX_SECTION); //This section needs to be added only once
-    compareField.append("[idx]");
+    compareField.append(curComposableField->getArrayAccess("idx"));
   }
   errorDict->SetValue(STRUCT_COMPARE_FIELD, compareField);
   std::string compareType;
@@ -2214,11 +2216,9 @@ ctemplate::TemplateDictionary* CodeGeneratorCTemplate::generateDeclarationOfComp
         if(!curFieldName.empty())
         {
           const ComposableField* curCompField = dynamic_cast<const ComposableField*>(&curField);
-          if(curCompField && curCompField->isBoundSpecifiedArray())
+          if(curCompField && curCompField->isArray())
           {
-            curFieldName.push_back('[');
-            curFieldName.append(std::to_string(curCompField->getArraySize()));
-            curFieldName.push_back(']');
+            curFieldName.append(curCompField->getArrayDeclaration());
           }
           subAnonymousDeclDict->AddSectionDictionary(COMPOSABLE_TYPE_INLINE_DECL_FIELD_NAME_SECTION)->SetValue(COMPOSABLE_TYPE_INLINE_DECL_FIELD_NAME_VAR, curFieldName);
         }
@@ -2232,11 +2232,9 @@ ctemplate::TemplateDictionary* CodeGeneratorCTemplate::generateDeclarationOfComp
         const std::string& curFieldName = curField.getName();
         std::string fieldName = curFieldName;
         generateSimpleTypeDef(getMostPointedType(curField.getType()));
-        if(curCompField && curCompField->isBoundSpecifiedArray())
+        if(curCompField && curCompField->isArray())
         {
-          fieldName.push_back('[');
-          fieldName.append(std::to_string(curCompField->getArraySize()));
-          fieldName.push_back(']');
+          fieldName.append(curCompField->getArrayDeclaration());
         }
         if(curField.isComposableBitfield())
         {
diff --git a/src/easyMockGenerate/src/ComposableField.cpp b/src/easyMockGenerate/src/ComposableField.cpp
index ef9c09c..d960723 100644
--- a/src/easyMockGenerate/src/ComposableField.cpp
+++ b/src/easyMockGenerate/src/ComposableField.cpp
@@ -21,6 +21,7 @@ ComposableField{std::move(p_type), std::move(p_name), {.arraySize = -1}}
 ComposableField::ComposableField(std::shared_ptr<TypeItf> p_type, std::string p_name, ComposableField::attributes p_attrib) :
 ComposableFieldItf{std::move(p_type), std::move(p_name)},
 m_arraySize{p_attrib.arraySize},
+m_innerArraySizes{std::move(p_attrib.innerArraySizes)},
 m_cachedHash{0}
 {}
 
@@ -42,6 +43,10 @@ std::size_t ComposableField::getHash() const noexcept
   }
   std::size_t seed { ComposableFieldItf::getHash() };
   boost::hash_combine(seed, m_arraySize);
+  for(uint64_t size : m_innerArraySizes)
+  {
+    boost::hash_combine(seed, size);
+  }
 
   return seed;
 }
@@ -61,7 +66,7 @@ bool ComposableField::isEqual(const Declarator& p_other) const
   {
     return false;
   }
-  const bool arraySizeEqual = this->m_arraySize == otherField->m_arraySize;
+  const bool arraySizeEqual = this->m_arraySize == otherField->m_arraySize && this->m_innerArraySizes == otherField->m_innerArraySizes;
 
   return parentEq && arraySizeEqual;
 }
@@ -102,5 +107,47 @@ int64_t ComposableField::getArraySize() const
   return m_arraySize;
 }
 
+std::string ComposableField::getArrayDeclaration() const
+{
+  std::string rv { '[' };
+  if(isBoundSpecifiedArray())
+  {
+    rv.append(std::to_string(m_arraySize));
+  }
+  rv.push_back(']');
+  for(uint64_t size : m_innerArraySizes)
+  {
+    rv.append("[" + std::to_string(size) + "]");
+  }
+  return rv;
+}
+
+std::string ComposableField::getArrayAccess(const std::string& p_index) const
+{
+  if(m_innerArraySizes.empty())
+  {
+    return "[" + p_index + "]";
+  }
+  uint64_t nbElem = 1;
+  for(uint64_t size : m_innerArraySizes)
+  {
+    nbElem *= size;
+  }
+  std::string rv { "[" + p_index + " / " + std::to_string(nbElem) + "]" };
+  for(uint64_t size : m_innerArraySizes)
+  {
+    //No modulo, because the expression is also part of a format string
+    const std::string curNbElem { std::to_string(nbElem) };
+    nbElem /= size;
+    rv.append("[(" + p_index + " - " + p_index + " / " + curNbElem + " * " + curNbElem + ")");
+    if(nbElem > 1)
+    {
+      rv.append(" / " + std::to_string(nbElem));
+    }
+    rv.push_back(']');
+  }
+  return rv;
+}
+
 ComposableField::~ComposableField()
 {}
diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 9859f57..766775a 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -944,7 +944,7 @@ private:
           {
             arraySize = -1;
           }
-          ComposableField sf{std::move(fieldType), fName, {.arraySize = arraySize}};
+          ComposableField sf{std::move(fieldType), fName, {.arraySize = arraySize, .innerArraySizes = getInnerArraySizes(qualType)}};
           setDeclaratorDeclareString(qualType, &sf, getDeclareString(FD->getBeginLoc(), FD->getEndLoc(), true));
           sType->addField(std::move(sf));
         }
@@ -1106,6 +1106,19 @@ private:
     return size;
   }
 
+  std::vector<uint64_t> getInnerArraySizes(const clang::QualType &type)
+  {
+    std::vector<uint64_t> sizes;
+    const clang::ArrayType *arrayType = m_context->getAsArrayType(type);
+    const clang::ConstantArrayType *innerArray = arrayType ? m_context->getAsConstantArrayType(arrayType->getElementType()) : nullptr;
+    while(innerArray)
+    {
+      sizes.push_back(innerArray->getSize().getZExtValue());
+      innerArray = m_context->getAsConstantArrayType(innerArray->getElementType());
+    }
+    return sizes;
+  }
+
   void setDeclaratorDeclareString(const clang::QualType &clangQualType, Declarator* decl, const std::string &newString)
   {
     bool isFuncType = isFunctionType(clangQualType);
-- 
2.43.0


From 591accb4a07bba15efc3d3606294aca1787579fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:24 +0000
Subject: [PATCH 20/43] fix: keep the packing and the alignment of the
 generated types

With --generate-types the attributes packed and aligned and the effect of
'#pragma pack' were lost, so the size and the layout of the type differed
from the ones of the header.
---
 .../include/ComposableFieldItf.h              | 15 ++++++++
 src/easyMockGenerate/include/ComposableType.h | 15 ++++++++
 .../CodeGeneratorCTemplate.cpp                | 16 ++++++++-
 .../src/ComposableFieldItf.cpp                | 10 ++++++
 src/easyMockGenerate/src/ComposableType.cpp   | 10 ++++++
 .../src/LLVMParser/LLVMParser.cpp             | 34 ++++++++++++++++++-
 6 files changed, 98 insertions(+), 2 deletions(-)

diff --git a/src/easyMockGenerate/include/ComposableFieldItf.h b/src/easyMockGenerate/include/ComposableFieldItf.h
index ed2e806..0a6caeb 100644
--- a/src/easyMockGenerate/include/ComposableFieldItf.h
+++ b/src/easyMockGenerate/include/ComposableFieldItf.h
@@ -102,6 +102,20 @@ public:
    */
   const std::string& getName() const;
 
+  /*!
+   * \brief Returns the attributes which influence the layout of the field.
+   *
+   * For instance <tt>__attribute__((aligned(16)))</tt>. The string is empty if there are none.
+   */
+  const std::string& getLayoutAttributes() const;
+
+  /*!
+   * \brief Sets the attributes which influence the layout of the field.
+   *
+   * \see getLayoutAttributes()
+   */
+  void setLayoutAttributes(std::string p_attributes);
+
   virtual bool isEqual(const Declarator& p_other) const override;
 
   /*!
@@ -117,6 +131,7 @@ public:
   virtual ~ComposableFieldItf() {}
 private:
   std::string m_name;
+  std::string m_layoutAttributes;
   std::size_t m_cachedHash;
 };
 
diff --git a/src/easyMockGenerate/include/ComposableType.h b/src/easyMockGenerate/include/ComposableType.h
index f7ebf40..8c62998 100644
--- a/src/easyMockGenerate/include/ComposableType.h
+++ b/src/easyMockGenerate/include/ComposableType.h
@@ -100,6 +100,20 @@ public:
    */
   void setForwardDecl(bool p_value);
 
+  /*!
+   * \brief Returns the attributes which influence the layout of the type.
+   *
+   * For instance <tt>__attribute__((packed))</tt>. The string is empty if there are none.
+   */
+  const std::string& getLayoutAttributes() const;
+
+  /*!
+   * \brief Sets the attributes which influence the layout of the type.
+   *
+   * \see getLayoutAttributes()
+   */
+  void setLayoutAttributes(std::string p_attributes);
+
   /*!
    * \brief Returns the keyword to declare the composable type.
    *
@@ -143,6 +157,7 @@ private:
   ComposableFieldTypeVector m_elem;
   bool m_is_declaration_embedded_in_other_type;
   bool m_is_forward_declared;
+  std::string m_layoutAttributes;
   std::size_t m_cachedHash;
   ComposableMethodVector m_functions;
 };
diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index b4b88a2..bdd9d91 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -127,6 +127,7 @@
 #define COMPOSABLE_TYPE_TYPEDEF_SECTION "COMPOSABLE_TYPE_TYPEDEF_SECTION"
 #define COMPOSABLE_TYPE_INLINE_DECL_FIELD_NAME_SECTION "COMPOSABLE_TYPE_INLINE_DECL_FIELD_NAME_SECTION"
 #define COMPOSABLE_TYPE_BODY_SECTION "COMPOSABLE_TYPE_BODY_SECTION"
+#define COMPOSABLE_TYPE_LAYOUT_ATTRIBUTES_VAR "COMPOSABLE_TYPE_LAYOUT_ATTRIBUTES_VAR"
 
 #define COMPOSABLE_TYPE_DECLARATION_TYPE_VAR "COMPOSABLE_TYPE_DECLARATION_TYPE_VAR"
 #define COMPOSABLE_TYPE_DECLARATION_TYPE_TEMPLATE_VAR TEMPLATE_VAR(COMPOSABLE_TYPE_DECLARATION_TYPE_VAR)
@@ -941,7 +942,7 @@ const char composableType_DeclareComposableType_template[] =
         "    " INSIDE_CLASS_FUNCTION_DECLARATION CARRIAGE_RETURN
              TEMPLATE_END_SECTION(FUNCTION_SECTION)
         "    " TEMPLATE_INCL_SECTION(COMPOSABLE_TYPE_DECLARE_TYPE_FIELD_OR_COMPOSABLE_TYPE_FIELD_SECTION) CARRIAGE_RETURN
-        "}"
+        "}" TEMPLATE_VAR(COMPOSABLE_TYPE_LAYOUT_ATTRIBUTES_VAR)
         )
         IF_SECTION_EXISTS(COMPOSABLE_TYPE_INLINE_DECL_FIELD_NAME_SECTION, " " COMPOSABLE_TYPE_INLINE_DECL_FIELD_NAME_TEMPLATE_VAR)
         ";" CARRIAGE_RETURN;
@@ -2190,6 +2191,10 @@ ctemplate::TemplateDictionary* CodeGeneratorCTemplate::generateDeclarationOfComp
   const auto& vectField = p_composedType->getContainedFields();
   ctemplate::TemplateDictionary* templateDictionary {nullptr};
   templateDictionary = anonymousDeclDict->AddSectionDictionary(COMPOSABLE_TYPE_BODY_SECTION);
+  if(!p_composedType->getLayoutAttributes().empty())
+  {
+    templateDictionary->SetValue(COMPOSABLE_TYPE_LAYOUT_ATTRIBUTES_VAR, " " + p_composedType->getLayoutAttributes());
+  }
   for (const auto& curFieldVar : vectField)
   {
     std::visit([this, &p_nbLevelToGenerate, &p_origin, &templateDictionary](const auto& curField)
@@ -2215,11 +2220,16 @@ ctemplate::TemplateDictionary* CodeGeneratorCTemplate::generateDeclarationOfComp
         ctemplate::TemplateDictionary* subAnonymousDeclDict = generateDeclarationOfComposableType(curFieldDict, composableType, nextNbLevelToGenerate, nextOrigin);
         if(!curFieldName.empty())
         {
+          const std::string& layoutAttributes = curField.getLayoutAttributes();
           const ComposableField* curCompField = dynamic_cast<const ComposableField*>(&curField);
           if(curCompField && curCompField->isArray())
           {
             curFieldName.append(curCompField->getArrayDeclaration());
           }
+          if(!layoutAttributes.empty())
+          {
+            curFieldName.append(" " + layoutAttributes);
+          }
           subAnonymousDeclDict->AddSectionDictionary(COMPOSABLE_TYPE_INLINE_DECL_FIELD_NAME_SECTION)->SetValue(COMPOSABLE_TYPE_INLINE_DECL_FIELD_NAME_VAR, curFieldName);
         }
       }
@@ -2242,6 +2252,10 @@ ctemplate::TemplateDictionary* CodeGeneratorCTemplate::generateDeclarationOfComp
           fieldName.push_back(':');
           fieldName.append(std::to_string(curComposableBitfield->getSize()));
         }
+        if(!curField.getLayoutAttributes().empty())
+        {
+          fieldName.append(" " + curField.getLayoutAttributes());
+        }
         curFieldValDict->SetValue(TYPE_NAME_VAR, fieldName);
         const Pointer* nonQualifiedFieldPtrType = fieldType->unqualify()->asPointer();
         if(nonQualifiedFieldPtrType)
diff --git a/src/easyMockGenerate/src/ComposableFieldItf.cpp b/src/easyMockGenerate/src/ComposableFieldItf.cpp
index 461b98e..dc10cd5 100644
--- a/src/easyMockGenerate/src/ComposableFieldItf.cpp
+++ b/src/easyMockGenerate/src/ComposableFieldItf.cpp
@@ -59,6 +59,16 @@ const std::string& ComposableFieldItf::getName() const
   return m_name;
 }
 
+const std::string& ComposableFieldItf::getLayoutAttributes() const
+{
+  return m_layoutAttributes;
+}
+
+void ComposableFieldItf::setLayoutAttributes(std::string p_attributes)
+{
+  m_layoutAttributes = std::move(p_attributes);
+}
+
 std::size_t ComposableFieldItf::getHash() const noexcept
 {
   if(m_cachedHash != 0)
diff --git a/src/easyMockGenerate/src/ComposableType.cpp b/src/easyMockGenerate/src/ComposableType.cpp
index 50c36d1..f794de8 100644
--- a/src/easyMockGenerate/src/ComposableType.cpp
+++ b/src/easyMockGenerate/src/ComposableType.cpp
@@ -32,6 +32,16 @@ void ComposableType::setForwardDecl(bool p_value)
   m_is_forward_declared = p_value;
 }
 
+const std::string& ComposableType::getLayoutAttributes() const
+{
+  return m_layoutAttributes;
+}
+
+void ComposableType::setLayoutAttributes(std::string p_attributes)
+{
+  m_layoutAttributes = std::move(p_attributes);
+}
+
 std::size_t ComposableType::getHash() const noexcept
 {
   if(m_cachedHash != 0)
diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 766775a..326cdfc 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -914,6 +914,7 @@ private:
 
     // If the type doesn't have a complete definition, it is forward declared.
     sType->setForwardDecl(!RD->isCompleteDefinition());
+    sType->setLayoutAttributes(getLayoutAttributes(RD));
 
     if(m_ignoreTypeFieldList.find(typeName) == m_ignoreTypeFieldList.end())
     {
@@ -936,7 +937,9 @@ private:
           }
           unsigned bitWidth = FD->getBitWidthValue(*m_context);
           assert(bitWidth < 256);
-          sType->addField(ComposableBitfield{std::move(fieldType), fName, static_cast<uint8_t>(bitWidth)});
+          ComposableBitfield sf{std::move(fieldType), fName, static_cast<uint8_t>(bitWidth)};
+          sf.setLayoutAttributes(getLayoutAttributes(FD));
+          sType->addField(std::move(sf));
         } else
         {
           int64_t arraySize = getArraySize(*typePtr);
@@ -945,6 +948,7 @@ private:
             arraySize = -1;
           }
           ComposableField sf{std::move(fieldType), fName, {.arraySize = arraySize, .innerArraySizes = getInnerArraySizes(qualType)}};
+          sf.setLayoutAttributes(getLayoutAttributes(FD));
           setDeclaratorDeclareString(qualType, &sf, getDeclareString(FD->getBeginLoc(), FD->getEndLoc(), true));
           sType->addField(std::move(sf));
         }
@@ -1106,6 +1110,34 @@ private:
     return size;
   }
 
+  /*!
+   * \brief Returns the attributes which make the layout of a type or a field different from the default one.
+   */
+  std::string getLayoutAttributes(const clang::Decl* p_decl)
+  {
+    std::string attributes;
+    const clang::MaxFieldAlignmentAttr* pack = p_decl->getAttr<clang::MaxFieldAlignmentAttr>();
+    if(p_decl->hasAttr<clang::PackedAttr>() || (pack && pack->getAlignment() == m_context->getCharWidth()))
+    {
+      attributes.append("packed");
+    }
+    if(p_decl->hasAttr<clang::AlignedAttr>())
+    {
+      if(!attributes.empty())
+      {
+        attributes.append(", ");
+      }
+      attributes.append("aligned(" + std::to_string(p_decl->getMaxAlignment() / m_context->getCharWidth()) + ")");
+    }
+    const clang::FieldDecl* field = clang::dyn_cast<clang::FieldDecl>(p_decl);
+    const clang::MaxFieldAlignmentAttr* parentPack = field ? field->getParent()->getAttr<clang::MaxFieldAlignmentAttr>() : nullptr;
+    if(attributes.empty() && parentPack && !field->isBitField() && parentPack->getAlignment() > m_context->getCharWidth() && m_context->getTypeAlign(field->getType()) > parentPack->getAlignment())
+    {
+      attributes = "packed, aligned(" + std::to_string(parentPack->getAlignment() / m_context->getCharWidth()) + ")";
+    }
+    return attributes.empty() ? attributes : "__attribute__((" + attributes + "))";
+  }
+
   std::vector<uint64_t> getInnerArraySizes(const clang::QualType &type)
   {
     std::vector<uint64_t> sizes;
-- 
2.43.0


From 0583b775701e1f8143dbf4998fce7be4ae305f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:04 +0000
Subject: [PATCH 21/43] fix: mock the C++ functions with a constant pointer
 parameter

The data of the mock had a constant member for 'int *const p', so the mock
did not compile.
---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp    | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index bdd9d91..6ad3fc6 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -1627,15 +1627,18 @@ void CodeGeneratorCTemplate::generateFunctionParamSection(ctemplate::TemplateDic
     {
       functionParamSection->AddSectionDictionary(REGULAR_MEMBER_SECTION);
     }
+    std::string memberType;
     if(!nonQualifiedParamPtrType)
     {
       functionParamSection->SetValue(FUNCTION_PARAM_NON_QUALIFIED_TYPE, dereferencedNonQualifiedArgType);
     }
     else
     {
-      functionParamSection->SetValue(FUNCTION_PARAM_NON_QUALIFIED_TYPE, argType);
       const TypeItf *paramPtrPointedType = getRawType(nonQualifiedParamPtrType);
       const FunctionType *ft = paramPtrPointedType->asFunctionType();
+      //A pointer which is itself constant cannot be a member of the data of the mock
+      memberType = paramType->isConst() && !ft ? dereferencedNonQualifiedArgType : argType;
+      functionParamSection->SetValue(FUNCTION_PARAM_NON_QUALIFIED_TYPE, memberType);
       if(ft)
       {
         generateDeclarationOfUsedType(m_rootDictionary, ft, false);
@@ -1685,7 +1688,7 @@ void CodeGeneratorCTemplate::generateFunctionParamSection(ctemplate::TemplateDic
         }
         ctemplate::TemplateDictionary* newPtrParamSection = p_functionSectionDict->AddSectionDictionary(FUNCTION_PARAM_PTR_SECTION);
         //No need to add the FUNCTION_PARAM_NON_QUALIFIED_TYPE because we will not generate output pointer for const
-        newPtrParamSection->SetValue(FUNCTION_PARAM_TYPE, argType);
+        newPtrParamSection->SetValue(FUNCTION_PARAM_TYPE, memberType);
         newPtrParamSection->SetValue(FUNCTION_PARAM_NAME, paramName);
         ctemplate::TemplateDictionary* subdict = nullptr;
         const ComposableType* composableTypeField = pointedType->asComposableType();
@@ -1697,7 +1700,7 @@ void CodeGeneratorCTemplate::generateFunctionParamSection(ctemplate::TemplateDic
         {
           subdict = newPtrParamSection->AddSectionDictionary(FUNCTION_NON_VOID_PTR_OUT_SECTION);
         }
-        subdict->SetValue(FUNCTION_PARAM_TYPE, argType);
+        subdict->SetValue(FUNCTION_PARAM_TYPE, memberType);
         subdict->SetValue(FUNCTION_PARAM_NAME, paramName);
       }
     }
-- 
2.43.0


From 8896a68135bc4b5e3f0a49ed05cb67ffdcb1a8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:05 +0000
Subject: [PATCH 22/43] fix: don't compute the alignment of a field with an
 incomplete type

A header with an error in a packed structure crashed the generator instead of reporting the error.
---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 326cdfc..c0074b1 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -1131,7 +1131,9 @@ private:
     }
     const clang::FieldDecl* field = clang::dyn_cast<clang::FieldDecl>(p_decl);
     const clang::MaxFieldAlignmentAttr* parentPack = field ? field->getParent()->getAttr<clang::MaxFieldAlignmentAttr>() : nullptr;
-    if(attributes.empty() && parentPack && !field->isBitField() && parentPack->getAlignment() > m_context->getCharWidth() && m_context->getTypeAlign(field->getType()) > parentPack->getAlignment())
+    const clang::QualType elementType = field ? m_context->getBaseElementType(field->getType()) : clang::QualType();
+    const bool hasAlignment = field && !field->isInvalidDecl() && !elementType->isIncompleteType() && !elementType->isDependentType();
+    if(attributes.empty() && parentPack && hasAlignment && !field->isBitField() && parentPack->getAlignment() > m_context->getCharWidth() && m_context->getTypeAlign(field->getType()) > parentPack->getAlignment())
     {
       attributes = "packed, aligned(" + std::to_string(parentPack->getAlignment() / m_context->getCharWidth()) + ")";
     }
-- 
2.43.0


From 28b52244acab69f53ad462c69da48d967faeb81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:57 +0000
Subject: [PATCH 23/43] fix: don't drop a function when its file can't be
 looked up

The error was ignored and the generator exited with 0 although the mock lacked the function.
---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index c0074b1..0cde572 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -254,8 +254,14 @@ private:
       {
         return originFile;
       }
+      if(errorCode != boost::system::errc::no_such_file_or_directory &&
+         errorCode != boost::system::errc::not_a_directory &&
+         errorCode != boost::system::errc::filename_too_long)
+      {
+        throw boost::filesystem::filesystem_error("Can't find the origin of a function", presumedLoc.getFilename(), errorCode);
+      }
     }
-    return boost::filesystem::canonical(m_SM->getFilename(expansionLoc).str(), errorCode);
+    return boost::filesystem::canonical(m_SM->getFilename(expansionLoc).str());
   }
 
   void setFunctionAttribute(const clang::FunctionDecl* clangFunc, FunctionDeclaration& easyMockFun)
-- 
2.43.0


From f27152179ad55f34faec8b58a9f082a84bb70b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:18 +0000
Subject: [PATCH 24/43] fix: a generated attribute with a string argument did
 not compile

---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp    | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 6ad3fc6..222cc16 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -439,9 +439,9 @@ FUNCTION_CLASS_NAME "_" FUNCTION_NAME "_match_" PARAMETER_NAME("")
 #define INSIDE_CLASS_FUNCTION_DECLARATION FUNCTION_ACCESS_SPECIFIER ": " FUNCTION_RETURN_VALUE_TYPE " " FUNCTION_NAME FUNCTION_PARAMETERS IF_SECTION_EXISTS(IS_FUNCTION_CLASS_CONST, " const") ";"
 
 #define FUNCTION_PARAMETERS "("  FUNCTION_PARAM_LIST(FUNCTION_PARAM_SECTION, "") IF_SECTION_EXISTS(VARIADIC_SECTION, VARIADIC_TEMPLATE_VAR) ")"
-#define TEMPLATE_FUNCTION_SIGNATURE(SCOPE) FUNCTION_ATTRIBUTE_DECLARATION_LIST FUNCTION_RETURN_VALUE_TYPE " " SCOPE IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, FUNCTION_CLASS_NAME "::") FUNCTION_NAME FUNCTION_PARAMETERS TEMPLATE_INCL_SECTION(EXTRA_TOP_LEVEL_DECL_SECTION) IF_SECTION_EXISTS(IS_FUNCTION_CLASS_CONST, " const")
-#define TEMPLATE_FUNCTION_TO_BE_MOCKED TEMPLATE_FUNCTION_SIGNATURE("")
-#define TEMPLATE_FUNCTION_QUALIFIED_SIGNATURE TEMPLATE_FUNCTION_SIGNATURE(TEMPLATE_VAR(FUNCTION_SCOPE_VAR))
+#define TEMPLATE_FUNCTION_SIGNATURE_WITHOUT_ATTRIBUTES(SCOPE) FUNCTION_RETURN_VALUE_TYPE " " SCOPE IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, FUNCTION_CLASS_NAME "::") FUNCTION_NAME FUNCTION_PARAMETERS TEMPLATE_INCL_SECTION(EXTRA_TOP_LEVEL_DECL_SECTION) IF_SECTION_EXISTS(IS_FUNCTION_CLASS_CONST, " const")
+#define TEMPLATE_FUNCTION_TO_BE_MOCKED FUNCTION_ATTRIBUTE_DECLARATION_LIST TEMPLATE_FUNCTION_SIGNATURE_WITHOUT_ATTRIBUTES("")
+#define TEMPLATE_FUNCTION_QUALIFIED_SIGNATURE TEMPLATE_FUNCTION_SIGNATURE_WITHOUT_ATTRIBUTES(TEMPLATE_VAR(FUNCTION_SCOPE_VAR))
 #define MOCKED_FUN_CLASS(F_NAME) "mocked_" F_NAME
 #define TEMPLATE_MOCKED_FUN_CLASS MOCKED_FUN_CLASS(FUNCTION_UNIQUE_NAME)
 
@@ -1414,7 +1414,8 @@ void CodeGeneratorCTemplate::generateFunctionAttributes(const std::shared_ptr<co
       for(const std::string& funAttrParam : funAttrParams)
       {
         ctemplate::TemplateDictionary *funAttrParamDict = funAttrParamsList->AddSectionDictionary(FUNCTION_ATTR_PARAMETER_LIST);
-        funAttrParamDict->SetValue(FUNCTION_PARAM_NAME, funAttrParam);
+        // The name of a section is a string, the parser gives it without the quotes
+        funAttrParamDict->SetValue(FUNCTION_PARAM_NAME, name == "section" ? "\"" + funAttrParam + "\"" : funAttrParam);
       }
     }
   }
-- 
2.43.0


From 4240735cdd6c7692133e3a5ec5ad609d4a269a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:43 +0000
Subject: [PATCH 25/43] fix: two structs whose names read the same when joined
 by '_' shared their parsed type

---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 0cde572..78b154c 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -863,8 +863,8 @@ private:
       return structKnownType.at(typeName);
     }
 
-    std::string declToCheck = typeName + std::string{"_"} + typedDefName;
-    if(declToCheck.compare("_") != 0)
+    std::string declToCheck = typeName + std::string{" "} + typedDefName;
+    if(declToCheck.compare(" ") != 0)
     {
       if(m_cachedStruct.find(declToCheck) != m_cachedStruct.end())
       {
@@ -971,7 +971,7 @@ private:
       structKnownType.erase(typeName);
     }
 
-    if(declToCheck.compare("_") != 0)
+    if(declToCheck.compare(" ") != 0)
     {
       if(m_cachedStruct.find(declToCheck) == m_cachedStruct.end())
       {
-- 
2.43.0


From cc9733cf202cbcdc54ac5c24ec9bf53e88d071ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:43 +0000
Subject: [PATCH 26/43] fix: an enum and a typedef of the same name shared
 their guard in the generated types

---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 222cc16..59aca8a 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -173,7 +173,7 @@
 #define GENERATED_TYPE_ENUM_VALUE_NAME_TEMPLATE_VAR TEMPLATE_VAR("GENERATED_TYPE_ENUM_VALUE_NAME_VAR")
 #define GENERATED_TYPE_ENUM_VALUE_VALUE_VAR "GENERATED_TYPE_ENUM_VALUE_VALUE_VAR"
 #define GENERATED_TYPE_ENUM_VALUE_VALUE_TEMPLATE_VAR TEMPLATE_VAR("GENERATED_TYPE_ENUM_VALUE_VALUE_VAR")
-#define GENERATED_TYPE_ENUM_GUARD_NAME MOCK_FRAMEWORK_NAME_UPPER "_" GENERATED_TYPE_ENUM_NAME_TEMPLATE_VAR "_GENERATED"
+#define GENERATED_TYPE_ENUM_GUARD_NAME MOCK_FRAMEWORK_NAME_UPPER "_enum_" GENERATED_TYPE_ENUM_NAME_TEMPLATE_VAR "_GENERATED"
 
 #define COMPOSABLE_TYPE_DECLARE_TYPE_SECTION "COMPOSABLE_TYPE_DECLARE_TYPE_SECTION"
 #define TYPE_DECLARATION_VAR "TYPE_DECLARATION_VAR"
-- 
2.43.0


From 8811a6a31443759920ee391cbb208eb204806966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:43 +0000
Subject: [PATCH 27/43] fix: a packed enum lost its attribute when the types
 are generated

---
 src/easyMockGenerate/include/Enum.h               | 15 +++++++++++++++
 .../CTemplateGenerator/CodeGeneratorCTemplate.cpp |  7 ++++++-
 src/easyMockGenerate/src/Enum.cpp                 | 10 ++++++++++
 .../src/LLVMParser/LLVMParser.cpp                 |  1 +
 4 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/include/Enum.h b/src/easyMockGenerate/include/Enum.h
index 5608992..8f4fc43 100644
--- a/src/easyMockGenerate/include/Enum.h
+++ b/src/easyMockGenerate/include/Enum.h
@@ -44,6 +44,20 @@ public:
    */
   const listOfValuesType& getValues() const;
 
+  /*!
+   * \brief Returns the attributes which influence the layout of the enum.
+   *
+   * For instance <tt>__attribute__((packed))</tt>. The string is empty if there are none.
+   */
+  const std::string& getLayoutAttributes() const;
+
+  /*!
+   * \brief Sets the attributes which influence the layout of the enum.
+   *
+   * \see getLayoutAttributes()
+   */
+  void setLayoutAttributes(std::string p_attributes);
+
   /*!
    * \copydoc ::TypeItf::getDeclarationPrefix
    */
@@ -68,6 +82,7 @@ protected:
 
 private:
   listOfValuesType m_listOfValues;
+  std::string m_layoutAttributes;
   std::size_t m_cachedHash;
 };
 
diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 59aca8a..0af7821 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -168,6 +168,7 @@
 #define GENERATED_TYPE_ENUM_SECTION "GENERATED_TYPE_ENUM_SECTION"
 #define GENERATED_TYPE_ENUM_NAME_VAR "GENERATED_TYPE_ENUM_NAME_VAR"
 #define GENERATED_TYPE_ENUM_NAME_TEMPLATE_VAR TEMPLATE_VAR(GENERATED_TYPE_ENUM_NAME_VAR)
+#define GENERATED_TYPE_ENUM_LAYOUT_ATTRIBUTES_VAR "GENERATED_TYPE_ENUM_LAYOUT_ATTRIBUTES_VAR"
 #define GENERATED_TYPE_ENUM_VALUE_SECTION "GENERATED_TYPE_ENUM_VALUE_SECTION"
 #define GENERATED_TYPE_ENUM_VALUE_NAME_VAR "GENERATED_TYPE_ENUM_VALUE_NAME_VAR"
 #define GENERATED_TYPE_ENUM_VALUE_NAME_TEMPLATE_VAR TEMPLATE_VAR("GENERATED_TYPE_ENUM_VALUE_NAME_VAR")
@@ -887,7 +888,7 @@ const char headerFileTemplate[] =
           TEMPLATE_BEG_SECTION(GENERATED_TYPE_ENUM_VALUE_SECTION)
           "  " GENERATED_TYPE_ENUM_VALUE_NAME_TEMPLATE_VAR " = " GENERATED_TYPE_ENUM_VALUE_VALUE_TEMPLATE_VAR "," CARRIAGE_RETURN
           TEMPLATE_END_SECTION(GENERATED_TYPE_ENUM_VALUE_SECTION)
-          "};" CARRIAGE_RETURN
+          "}" TEMPLATE_VAR(GENERATED_TYPE_ENUM_LAYOUT_ATTRIBUTES_VAR) ";" CARRIAGE_RETURN
           "#endif //" GENERATED_TYPE_ENUM_GUARD_NAME CARRIAGE_RETURN
           TEMPLATE_END_SECTION(GENERATED_TYPE_ENUM_SECTION)
 
@@ -2642,6 +2643,10 @@ void CodeGeneratorCTemplate::generateEnum(const TypeItf* p_type)
   }
   ctemplate::TemplateDictionary* enumSection = m_rootDictionary->AddSectionDictionary(GENERATED_TYPE_ENUM_SECTION);
   enumSection->SetValue(GENERATED_TYPE_ENUM_NAME_VAR, localTypeName);
+  if(!enumType->getLayoutAttributes().empty())
+  {
+    enumSection->SetValue(GENERATED_TYPE_ENUM_LAYOUT_ATTRIBUTES_VAR, " " + enumType->getLayoutAttributes());
+  }
   for(const auto& enumVal : enumType->getValues())
   {
     ctemplate::TemplateDictionary *curVal = enumSection->AddSectionDictionary(GENERATED_TYPE_ENUM_VALUE_SECTION);
diff --git a/src/easyMockGenerate/src/Enum.cpp b/src/easyMockGenerate/src/Enum.cpp
index 9c3d7b6..3dd81b9 100644
--- a/src/easyMockGenerate/src/Enum.cpp
+++ b/src/easyMockGenerate/src/Enum.cpp
@@ -33,6 +33,16 @@ bool Enum::isEqual(const TypeItf& p_other) const
   return parentEqual && listOfValueEqual;
 }
 
+const std::string& Enum::getLayoutAttributes() const
+{
+  return m_layoutAttributes;
+}
+
+void Enum::setLayoutAttributes(std::string p_attributes)
+{
+  m_layoutAttributes = std::move(p_attributes);
+}
+
 std::string Enum::getDeclarationPrefix(bool) const
 {
   std::string toReturn { std::string {"enum "} + m_name };
diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 78b154c..63a1fdb 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -813,6 +813,7 @@ private:
     const std::string name = ED->getNameAsString();
 
     std::shared_ptr<Enum> enumType = std::make_shared<Enum>(name);
+    enumType->setLayoutAttributes(getLayoutAttributes(ED));
     for(const auto enumConstantDeclaration : ED->enumerators())
     {
       int64_t enumValue = enumConstantDeclaration->getInitVal().getExtValue();
-- 
2.43.0


From 981b44813006f69dec945a23628d47511e09b948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:43 +0000
Subject: [PATCH 28/43] fix: a pointer to a typedef of an incomplete type was
 handled as a pointer to a complete type

---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 0af7821..4bfa72e 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -1693,7 +1693,7 @@ void CodeGeneratorCTemplate::generateFunctionParamSection(ctemplate::TemplateDic
         newPtrParamSection->SetValue(FUNCTION_PARAM_TYPE, memberType);
         newPtrParamSection->SetValue(FUNCTION_PARAM_NAME, paramName);
         ctemplate::TemplateDictionary* subdict = nullptr;
-        const ComposableType* composableTypeField = pointedType->asComposableType();
+        const ComposableType* composableTypeField = getRawType(pointedType)->asComposableType();
         if(pointedType->getCType() == CTYPE_VOID || (composableTypeField && composableTypeField->isForwardDeclared()))
         {
           subdict = newPtrParamSection->AddSectionDictionary(FUNCTION_VOID_PTR_OUT_SECTION);
-- 
2.43.0


From 9184a413758e08e2cc8005b127c72734c567b89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:43 +0000
Subject: [PATCH 29/43] fix: a bit-field of enum type stopped the generator or
 was generated without its type

---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp        | 4 ++--
 src/easyMockGenerate/src/ComposableBitfield.cpp              | 4 ++--
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp           | 5 +++--
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 4bfa72e..c2b8f77 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -2050,9 +2050,9 @@ void CodeGeneratorCTemplate::generateDeclarationOfUsedType(ctemplate::TemplateDi
               generateDeclarationOfUsedType(p_parentDictionary, composableFieldType, false);
             }
           },
-          [](const auto &)
+          [this, &p_parentDictionary](const ComposableBitfield &composableBitfield)
           {
-            //Nothing to do for types other than ComposableField
+            generateDeclarationOfUsedType(p_parentDictionary, composableBitfield.getType(), false);
           }
         },fItf);
       }
diff --git a/src/easyMockGenerate/src/ComposableBitfield.cpp b/src/easyMockGenerate/src/ComposableBitfield.cpp
index f0702c7..4abf113 100644
--- a/src/easyMockGenerate/src/ComposableBitfield.cpp
+++ b/src/easyMockGenerate/src/ComposableBitfield.cpp
@@ -21,11 +21,11 @@ m_cachedHash{0}
   TypedefType* typedefType = typeItf->asTypedefType();
   if(typedefType)
   {
-    assert(typedefType->getMostDefinedTypee()->isCType());
+    assert(typedefType->getMostDefinedTypee()->isCType() || typedefType->getMostDefinedTypee()->isEnum());
   }
   else
   {
-    assert(typeItf->isCType());
+    assert(typeItf->isCType() || typeItf->isEnum());
   }
 }
 
diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 63a1fdb..2ae2a43 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -936,9 +936,10 @@ private:
         if (FD->isBitField())
         {
           TypedefType *typedefFieldType = fieldType->asTypedefType();
-          if (!fieldType->isCType() && (typedefFieldType && !typedefFieldType->getMostDefinedTypee()->isCType()))
+          const TypeItf *bitfieldType = typedefFieldType ? typedefFieldType->getMostDefinedTypee() : fieldType.get();
+          if (!bitfieldType->isCType() && !bitfieldType->isEnum())
           {
-            fprintf(stderr, "Type must be CType for bitfields");
+            fprintf(stderr, "Type must be CType or enum for bitfields");
             typePtr->dump();
             assert(false);
           }
-- 
2.43.0


From be3aad05447d5a9e9144abe05f1c028373cdfd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:43 +0000
Subject: [PATCH 30/43] fix: the generated name of an unnamed type was put
 behind the asterisk of a pointer to it

---
 .../CTemplateGenerator/CodeGeneratorCTemplate.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index c2b8f77..2aa643b 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -985,6 +985,16 @@ inline std::string getAnonymousName(const TypeItf* p_type)
   return GENERATED_ANONYMOUS_TYPE_PREFIX + std::to_string(p_type->getHash());
 }
 
+/*
+ * The generated name stands behind the keyword but before the asterisks of a pointer to the anonymous type.
+ */
+inline std::string insertAnonymousName(std::string p_declaration, const TypeItf* p_type)
+{
+  const std::size_t pos = std::min(p_declaration.find('*'), p_declaration.size());
+  p_declaration.insert(pos, std::string{" "} + getAnonymousName(p_type));
+  return p_declaration;
+}
+
 const TypeItf* getUnqualifiedAndUntypedefType(const TypeItf* p_type)
 {
   const QualifiedType* qualifiedType = p_type->asQualifiedType();
@@ -2532,8 +2542,7 @@ std::string CodeGeneratorCTemplate::getDeclaratorString(const Declarator& p_decl
      * enum
      * So we must append the generated anonymous type name to it.
      */
-    rv.append(" ");
-    rv.append(getAnonymousName(declRawType));
+    rv = insertAnonymousName(std::move(rv), declRawType);
   }
   return rv;
 }
@@ -2588,7 +2597,7 @@ void CodeGeneratorCTemplate::generateSimpleTypeDef(const TypeItf* p_type)
   {
     if (rawType->getName().empty())
     {
-      localType += std::string{" "} + getAnonymousName(rawType);
+      localType = insertAnonymousName(std::move(localType), rawType);
     }
     typeDefDict->SetValue(GENERATED_TYPE_SIMPLE_TYPEDEF_TYPED_VAR, typedefName);
   }
-- 
2.43.0


From f9be0357d02b9281fe4fbb43dadbe26225d6d2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:43 +0000
Subject: [PATCH 31/43] fix: a generated field was declared from source text
 which isn't its whole declaration

---
 .../src/LLVMParser/LLVMParser.cpp             | 57 ++++++++++++++++++-
 1 file changed, 56 insertions(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 2ae2a43..37dbd55 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -957,7 +957,15 @@ private:
           }
           ComposableField sf{std::move(fieldType), fName, {.arraySize = arraySize, .innerArraySizes = getInnerArraySizes(qualType)}};
           sf.setLayoutAttributes(getLayoutAttributes(FD));
-          setDeclaratorDeclareString(qualType, &sf, getDeclareString(FD->getBeginLoc(), FD->getEndLoc(), true));
+          /*
+           * The source can't be used when the dimensions of the array are hidden in a typedef, neither
+           * when the asterisks of the field aren't directly behind the type (a further declarator or
+           * a pointer to a type which is declared in place).
+           */
+          if (!isTypedefOfArray(qualType) && !isFurtherDeclaratorOfOtherType(FD) && !isPointerToTypeDeclaredInPlace(FD))
+          {
+            setDeclaratorDeclareString(qualType, &sf, getDeclareString(FD->getBeginLoc(), FD->getEndLoc(), true));
+          }
           sType->addField(std::move(sf));
         }
       }
@@ -1161,6 +1169,53 @@ private:
     return sizes;
   }
 
+  bool isTypedefOfArray(clang::QualType type)
+  {
+    while(type->isArrayType())
+    {
+      if(type->getAs<clang::TypedefType>())
+      {
+        return true;
+      }
+      type = m_context->getAsArrayType(type)->getElementType();
+    }
+    return false;
+  }
+
+  /*
+   * E.g. b in "int a, *b;". All the declarators of a declaration begin at the same location.
+   */
+  bool isFurtherDeclaratorOfOtherType(const clang::FieldDecl *FD)
+  {
+    for(const clang::FieldDecl *other : FD->getParent()->fields())
+    {
+      if(other->getBeginLoc() == FD->getBeginLoc() && !other->getDeclName().isEmpty())
+      {
+        return !m_context->hasSameType(other->getType(), FD->getType());
+      }
+    }
+    return false;
+  }
+
+  /*
+   * E.g. a in "struct {int i;} *a;"
+   */
+  bool isPointerToTypeDeclaredInPlace(const clang::FieldDecl *FD)
+  {
+    clang::QualType type = FD->getType();
+    while(type->isArrayType())
+    {
+      type = m_context->getAsArrayType(type)->getElementType();
+    }
+    bool isPointer = type->isPointerType();
+    while(type->isPointerType())
+    {
+      type = type->getPointeeType();
+    }
+    const clang::TagDecl *pointee = type->getAsTagDecl();
+    return isPointer && pointee && pointee->getBeginLoc() == FD->getBeginLoc();
+  }
+
   void setDeclaratorDeclareString(const clang::QualType &clangQualType, Declarator* decl, const std::string &newString)
   {
     bool isFuncType = isFunctionType(clangQualType);
-- 
2.43.0


From ff70865c6390802019a0ccf961b72a1685136a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:22 +0000
Subject: [PATCH 32/43] fix: a generated macro lost its empty parentheses or
 its named variadic parameter

---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 37dbd55..3aa71b3 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -1299,6 +1299,11 @@ public:
     if(macroInfo->isFunctionLike())
     {
       const auto &params = macroInfo->params();
+      if(params.empty())
+      {
+        // The parentheses are part of the definition of a function-like macro.
+        parameters.emplace_back("");
+      }
       for(const auto &param: params)
       {
         const std::string& paramStr = param->getName().str();
@@ -1311,6 +1316,11 @@ public:
           parameters.emplace_back(paramStr);
         }
       }
+      if(macroInfo->isGNUVarargs())
+      {
+        // e.g. #define MACRO(args...)
+        parameters.back().append("...");
+      }
     }
     unsigned numToken = macroInfo->getNumTokens();
     for(unsigned i = 0; i < numToken; i++)
-- 
2.43.0


From a723b1cc9f20f3f1558c562c2f2195690e153cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:22 +0000
Subject: [PATCH 33/43] fix: a field was taken for the type being parsed when
 its typedef is called as the tag of that type

---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 3aa71b3..8d9ce62 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -859,9 +859,11 @@ private:
     {
       return structKnownType.at(typedDefName);
     }
-    if(structKnownType.find(typeName) != structKnownType.end())
+    // In C, a tag and a typedef of the same name can be different types.
+    const std::string knownTag = "tag " + typeName;
+    if(structKnownType.find(knownTag) != structKnownType.end())
     {
-      return structKnownType.at(typeName);
+      return structKnownType.at(knownTag);
     }
 
     std::string declToCheck = typeName + std::string{" "} + typedDefName;
@@ -916,7 +918,7 @@ private:
     }
     if(!typeName.empty())
     {
-      structKnownType.insert({typeName, std::make_shared<IncompleteType>(*sType, incType)});
+      structKnownType.insert({knownTag, std::make_shared<IncompleteType>(*sType, incType)});
     }
 
     // If the type doesn't have a complete definition, it is forward declared.
@@ -978,7 +980,7 @@ private:
     }
     if(!typeName.empty())
     {
-      structKnownType.erase(typeName);
+      structKnownType.erase(knownTag);
     }
 
     if(declToCheck.compare(" ") != 0)
-- 
2.43.0


From 0ff92c74081e672cfc6f0852321fb921840c2861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:23 +0000
Subject: [PATCH 34/43] fix: a typedef of an unnamed struct shared its guard
 with a struct of that tag

---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp          | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 2aa643b..e7eee4a 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -2076,7 +2076,8 @@ void CodeGeneratorCTemplate::generateDeclarationOfUsedType(ctemplate::TemplateDi
       std::string finalTypeName{typeName};
       if (finalTypeName.empty())
       {
-        finalTypeName = getAnonymousTypedefUniqueName(p_type);
+        // A struct tag may be the same as the name of the typedef.
+        finalTypeName = "_typedef_" + getAnonymousTypedefUniqueName(p_type);
       }
       guardName.append(finalTypeName);
       generatedType_section->SetValue(GENERATED_TYPE_DECLARE_TYPENAME_VAR, guardName);
-- 
2.43.0


From f14f6af17ed0dfc7678cf7f174c9253a79a0174b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:23 +0000
Subject: [PATCH 35/43] fix: a typedef of a pointer was generated before the
 typedef it points to or without it

---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp    | 9 ++++++++-
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp       | 5 +++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index e7eee4a..ef90e63 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -2589,6 +2589,13 @@ void CodeGeneratorCTemplate::generateSimpleTypeDef(const TypeItf* p_type)
    */
   std::string localType { typeeType->getFullDeclarationName(true) };
   const TypeItf *rawType = getRawType(typeeType);
+  // The typedef of which this one is made must be declared first.
+  const TypeItf *usedType = getMostPointedType(typeeType);
+  if(const QualifiedType *qualifiedType = usedType->asQualifiedType())
+  {
+    usedType = getMostPointedType(qualifiedType->getUnqualifiedType());
+  }
+  generateSimpleTypeDef(usedType);
   const FunctionType *functionType = rawType->asFunctionType();
   bool isRawTypeFunctionType = functionType != nullptr;
   ctemplate::TemplateDictionary *typeDefDict = m_rootDictionary->AddSectionDictionary(GENERATED_TYPE_SIMPLE_TYPEDEF_SECTION);
@@ -2596,7 +2603,7 @@ void CodeGeneratorCTemplate::generateSimpleTypeDef(const TypeItf* p_type)
 
   if(!isRawTypeFunctionType)
   {
-    if (rawType->getName().empty())
+    if (rawType->getName().empty() && !typeeType->containsTypeDef())
     {
       localType = insertAnonymousName(std::move(localType), rawType);
     }
diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 8d9ce62..3796dac 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -854,6 +854,11 @@ private:
 
     std::string typeName = RD->getNameAsString();
     std::string typedDefName = getTypedefName(p_type);
+    if(typeName.empty() && typedDefName.empty() && RD->getTypedefNameForAnonDecl())
+    {
+      // E.g. the type which is pointed to by B in typedef struct {int i;} A, *B;
+      typedDefName = RD->getTypedefNameForAnonDecl()->getNameAsString();
+    }
 
     if(structKnownType.find(typedDefName) != structKnownType.end())
     {
-- 
2.43.0


From 7c85e8a233d0c6f48ba87f410b774232095b477b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:10 +0000
Subject: [PATCH 36/43] fix: the comparator of a type embedded in another was
 called by a name it was not generated under

---
 .../include/CodeGeneratorCTemplate.h          |  2 +-
 .../CodeGeneratorCTemplate.cpp                | 38 ++++++++++---------
 2 files changed, 22 insertions(+), 18 deletions(-)

diff --git a/src/easyMockGenerate/include/CodeGeneratorCTemplate.h b/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
index 1caa627..5822ff0 100644
--- a/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
+++ b/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
@@ -107,7 +107,7 @@ private:
 
   const TypeItf* getMostPointedType(const TypeItf* p_type);
 
-  std::unordered_set<std::string> m_generatedComparator;
+  std::unordered_map<std::string, std::string> m_generatedComparator; // Maps the name of the type to the name of its generated comparator
   std::unordered_set<std::string> m_uniqueFunctionNames;
   unsigned int m_nbUnamedParam;
   ctemplate::TemplateDictionary *m_rootDictionary;
diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index ef90e63..7a27c90 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -1858,21 +1858,31 @@ void CodeGeneratorCTemplate::generateBodyStructCompare(ctemplate::TemplateDictio
         ifPreSectionDict->SetValue(STRUCT_COMPARE_PRE_IF_SECTION_FIELD_NAME, ifSectionFieldName);
       }
       ifPreSectionDict->SetValue(STRUCT_COMPARE_PRE_IF_SECTION_VAR_NAME, preFieldVarName.c_str());
-      std::string condition {};
-      condition.append("cmp_");
-      if(curFieldComposableType && curFieldComposableType->isDeclarationEmbeddedInOtherType() && p_uniquePrepend.size() > 0)
-      {
-        condition.append(p_uniquePrepend);
-        condition.push_back('_');
-      }
+      std::string comparatorName {};
       if(curFieldComposableType)
       {
-        condition.append(getComparatorName(curFieldComposableType));
+        if(curFieldComposableType->isDeclarationEmbeddedInOtherType() && p_uniquePrepend.size() > 0)
+        {
+          comparatorName.append(p_uniquePrepend);
+          comparatorName.push_back('_');
+        }
+        comparatorName.append(getComparatorName(curFieldComposableType));
+
+        generateComposedTypedCompareSection(curFieldComposableType, p_uniquePrepend + '_', p_declPrepend + "::");
+        //The comparator can have been generated earlier, from another nesting level
+        const auto& generatedComparator = m_generatedComparator.find(getComparatorName(curFieldComposableType));
+        if(generatedComparator != m_generatedComparator.end())
+        {
+          comparatorName = generatedComparator->second;
+        }
       }
       if(incompleteType)
       {
-        condition.append(getComparatorName(incompleteType));
+        comparatorName.append(getComparatorName(incompleteType));
       }
+      std::string condition {};
+      condition.append("cmp_");
+      condition.append(comparatorName);
       condition.push_back('(');
       generateFieldCmp(condition, p_parentComposedType, p_curField, p_previousField, "currentCall_val");
       condition.append(", ");
@@ -1881,13 +1891,6 @@ void CodeGeneratorCTemplate::generateBodyStructCompare(ctemplate::TemplateDictio
       condition.append(preFieldVarName);
       condition.append("), errorMessage)");
 
-      p_uniquePrepend.push_back('_');
-      p_declPrepend.append("::");
-      if(curFieldComposableType)
-      {
-        generateComposedTypedCompareSection(curFieldComposableType, p_uniquePrepend, p_declPrepend);
-      }
-
       paramSectDict->SetValue(COMPARE_CONDITION, condition);
     }
   }
@@ -2326,8 +2329,8 @@ void CodeGeneratorCTemplate::generateComposedTypedCompareSection(const Composabl
   {
     return;
   }
-  m_generatedComparator.insert(uniqueName);
 
+  const std::string comparatorName {uniqueName};
   if(p_composedType->isDeclarationEmbeddedInOtherType())
   {
     if(!(p_uniquePrepend.size() == 1 && p_uniquePrepend[0] == '_'))
@@ -2335,6 +2338,7 @@ void CodeGeneratorCTemplate::generateComposedTypedCompareSection(const Composabl
       uniqueName = p_uniquePrepend + uniqueName;
     }
   }
+  m_generatedComparator[comparatorName] = uniqueName;
 
   const std::string& composableTypeName = getMostDefinedName(p_composedType);
   p_declPrepend.append(composableTypeName);
-- 
2.43.0


From baeb3285c1b221633503bab1ea3b7e4847cde81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:38 +0000
Subject: [PATCH 37/43] fix: a backtrace through debug information without a
 compilation directory crashed

---
 src/easyMockFramework/src/easyMock.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/easyMockFramework/src/easyMock.cpp b/src/easyMockFramework/src/easyMock.cpp
index d08adc4..50970f3 100644
--- a/src/easyMockFramework/src/easyMock.cpp
+++ b/src/easyMockFramework/src/easyMock.cpp
@@ -290,7 +290,13 @@ private:
       int nline;
       Dwarf_Addr addr;
       const char* filename = dwfl_lineinfo(line, &addr, &nline, NULL, NULL, NULL);
-      append_string(error, "%s:%d", strrchr(filename, '/') + 1, nline);
+      //The name has no directory if the debug information doesn't tell any compilation directory
+      const char* lastSlash = filename ? strrchr(filename, '/') : nullptr;
+      if(lastSlash != nullptr)
+      {
+        filename = lastSlash + 1;
+      }
+      append_string(error, "%s:%d", filename ? filename : "<unknown file>", filename ? nline : 0);
     }
     else
     {
-- 
2.43.0


From 202e57979b7e0120e016857403a8741fc819dd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:38 +0000
Subject: [PATCH 38/43] fix: comments in a declaration hid parts of the type

---
 .../src/LLVMParser/LLVMParser.cpp             | 48 ++++++++++++++-----
 1 file changed, 37 insertions(+), 11 deletions(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 3796dac..2a362cb 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -549,19 +549,46 @@ private:
 
   std::string removeComments(std::string declareString)
   {
-    static std::regex oneLineCommentRegex{"//.*\n"};
-    declareString = std::regex_replace(declareString, oneLineCommentRegex, "");
-    for(auto& c : declareString)
-    {
-      if(c == '\n')
+    std::string withoutComments;
+    const size_t size = declareString.size();
+    char quote = '\0';
+    for(size_t pos = 0; pos < size; pos++)
+    {
+      const char c = declareString[pos];
+      const bool isOneLineComment = quote == '\0' && declareString.compare(pos, 2, "//") == 0;
+      const bool isComment = quote == '\0' && declareString.compare(pos, 2, "/*") == 0;
+      if(isOneLineComment || isComment)
+      {
+        const size_t endOfComment = declareString.find(isComment ? "*/" : "\n", pos + 2);
+        //A comment separates two words
+        if(!withoutComments.empty() && withoutComments.back() != ' ')
+        {
+          withoutComments.push_back(' ');
+        }
+        if(endOfComment == std::string::npos)
+        {
+          break;
+        }
+        pos = isComment ? endOfComment + 1 : endOfComment;
+        continue;
+      }
+      if(quote != '\0' && c == '\\' && pos + 1 < size)
+      {
+        withoutComments.push_back(c);
+        pos++;
+      }
+      else if(quote != '\0')
       {
-        c = ' ';
+        quote = c == quote ? '\0' : quote;
       }
+      else if(c == '"' || c == '\'')
+      {
+        quote = c;
+      }
+      withoutComments.push_back(declareString[pos] == '\n' ? ' ' : declareString[pos]);
     }
-    static std::regex commentRegex{"/\\*.*\\*/"};
-    declareString = std::regex_replace(declareString, commentRegex, "");
 
-    return declareString;
+    return withoutComments;
   }
 
   std::string getDeclareString(const clang::SourceLocation& startLoc, const clang::SourceLocation& endLoc, bool fieldDecl)
@@ -569,7 +596,7 @@ private:
     clang::CharSourceRange charSourceRange = clang::Lexer::getAsCharRange(startLoc, *m_SM, *m_LO);
     charSourceRange.setEnd(endLoc);
     clang::StringRef strRef = clang::Lexer::getSourceText(charSourceRange, *m_SM, *m_LO);
-    std::string declareString = strRef.str();
+    std::string declareString = removeComments(strRef.str());
     /*
      * When a declaration is inlined, we ignore the whole declaration in this way
      */
@@ -605,7 +632,6 @@ private:
         declareString.pop_back();
       }
     }
-    declareString = removeComments(std::move(declareString));
     declareString = trim(std::move(declareString));
 
     return declareString;
-- 
2.43.0


From 6e64fd60971f533d1903eccd4c024cc7c5ec607b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:56 +0000
Subject: [PATCH 39/43] fix: --generate-types declared a function pointer type
 before the types it is made of

---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp       | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 7a27c90..59bbcbe 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -2602,6 +2602,11 @@ void CodeGeneratorCTemplate::generateSimpleTypeDef(const TypeItf* p_type)
   generateSimpleTypeDef(usedType);
   const FunctionType *functionType = rawType->asFunctionType();
   bool isRawTypeFunctionType = functionType != nullptr;
+  if(isRawTypeFunctionType)
+  {
+    // The types of the return value and of the parameters must be declared first.
+    generateDeclarationOfUsedType(m_rootDictionary, functionType, false);
+  }
   ctemplate::TemplateDictionary *typeDefDict = m_rootDictionary->AddSectionDictionary(GENERATED_TYPE_SIMPLE_TYPEDEF_SECTION);
   typeDefDict->SetValue(GENERATED_TYPE_SIMPLE_TYPEDEF_GUARD_NAME_NAME, typedefName);
 
@@ -2615,7 +2620,6 @@ void CodeGeneratorCTemplate::generateSimpleTypeDef(const TypeItf* p_type)
   }
   else
   {
-    generateDeclarationOfUsedType(m_rootDictionary, functionType, false);
     localType += typedefName;
     localType += functionType->getDeclarationPostfix();
     /*
-- 
2.43.0


From fee4817dc502ee7d4ebc0daf89d1291f7d94a36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:51 +0000
Subject: [PATCH 40/43] fix: --generate-types used an enum in a typedef before
 declaring it, which C++ refuses

---
 .../CTemplateGenerator/CodeGeneratorCTemplate.cpp  | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 59bbcbe..05938a6 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -873,13 +873,6 @@ const char headerFileTemplate[] =
           "#endif //" GENERATED_TYPE_FORWARD_DECLARATION_GUARD_NAME CARRIAGE_RETURN
           TEMPLATE_END_SECTION(GENERATED_TYPE_FORWARD_DECLARATION_SECTION)
 
-          TEMPLATE_BEG_SECTION(GENERATED_TYPE_SIMPLE_TYPEDEF_SECTION)
-          "#ifndef " GENERATED_TYPE_SIMPLE_TYPEDEF_GUARD_NAME CARRIAGE_RETURN
-          "#define " GENERATED_TYPE_SIMPLE_TYPEDEF_GUARD_NAME CARRIAGE_RETURN
-          "typedef " GENERATED_TYPE_SIMPLE_TYPEDEF_TYPEE_TEMPLATE_VAR " " GENERATED_TYPE_SIMPLE_TYPEDEF_TYPED_TEMPLATE_VAR ";" CARRIAGE_RETURN
-          "#endif //" GENERATED_TYPE_SIMPLE_TYPEDEF_GUARD_NAME CARRIAGE_RETURN
-          TEMPLATE_END_SECTION(GENERATED_TYPE_SIMPLE_TYPEDEF_SECTION)
-
           TEMPLATE_BEG_SECTION(GENERATED_TYPE_ENUM_SECTION)
           "#ifndef " GENERATED_TYPE_ENUM_GUARD_NAME CARRIAGE_RETURN
           "#define " GENERATED_TYPE_ENUM_GUARD_NAME CARRIAGE_RETURN
@@ -892,6 +885,13 @@ const char headerFileTemplate[] =
           "#endif //" GENERATED_TYPE_ENUM_GUARD_NAME CARRIAGE_RETURN
           TEMPLATE_END_SECTION(GENERATED_TYPE_ENUM_SECTION)
 
+          TEMPLATE_BEG_SECTION(GENERATED_TYPE_SIMPLE_TYPEDEF_SECTION)
+          "#ifndef " GENERATED_TYPE_SIMPLE_TYPEDEF_GUARD_NAME CARRIAGE_RETURN
+          "#define " GENERATED_TYPE_SIMPLE_TYPEDEF_GUARD_NAME CARRIAGE_RETURN
+          "typedef " GENERATED_TYPE_SIMPLE_TYPEDEF_TYPEE_TEMPLATE_VAR " " GENERATED_TYPE_SIMPLE_TYPEDEF_TYPED_TEMPLATE_VAR ";" CARRIAGE_RETURN
+          "#endif //" GENERATED_TYPE_SIMPLE_TYPEDEF_GUARD_NAME CARRIAGE_RETURN
+          TEMPLATE_END_SECTION(GENERATED_TYPE_SIMPLE_TYPEDEF_SECTION)
+
           TEMPLATE_BEG_SECTION(GENERATED_TYPE_SECTION)
           "#ifndef " GENERATED_TYPE_DECLARE_MACRO_GUARD_NAME CARRIAGE_RETURN
           "#define " GENERATED_TYPE_DECLARE_MACRO_GUARD_NAME CARRIAGE_RETURN
-- 
2.43.0


From ed621580077c2c5f6e0c59aa729d7ddf9e5f713e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:40 +0000
Subject: [PATCH 41/43] fix: include the inherited fields of a C++ struct in
 its comparator

---
 .../src/LLVMParser/LLVMParser.cpp             | 35 ++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 2a362cb..8944e16 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -29,6 +29,7 @@
 
 #include <boost/filesystem.hpp>
 
+#include <algorithm>
 #include <string>
 #include <vector>
 #include <unordered_map>
@@ -959,7 +960,7 @@ private:
     if(m_ignoreTypeFieldList.find(typeName) == m_ignoreTypeFieldList.end())
     {
       for (clang::FieldDecl *FD:
-          RD->fields())
+          getFields(RD))
       {
         const clang::QualType &qualType = FD->getType();
         const clang::Type *typePtr = qualType.getTypePtr();
@@ -1159,6 +1160,38 @@ private:
     return size;
   }
 
+  /*!
+   * \brief Returns the fields of a type, the ones it inherits first. An inherited field which can't be
+   * accessed by its name is left out.
+   */
+  std::vector<clang::FieldDecl*> getFields(const clang::RecordDecl* p_recordDecl)
+  {
+    std::vector<clang::FieldDecl*> fields;
+    const clang::CXXRecordDecl* cxxRecordDecl = clang::dyn_cast<clang::CXXRecordDecl>(p_recordDecl);
+    if(cxxRecordDecl && cxxRecordDecl->hasDefinition())
+    {
+      for(const clang::CXXBaseSpecifier& base : cxxRecordDecl->bases())
+      {
+        const clang::CXXRecordDecl* baseDecl = base.getType()->getAsCXXRecordDecl();
+        if(!baseDecl || base.getAccessSpecifier() != clang::AccessSpecifier::AS_public)
+        {
+          continue;
+        }
+        for(clang::FieldDecl* field : getFields(baseDecl->getDefinition()))
+        {
+          const bool isHidden = std::any_of(p_recordDecl->field_begin(), p_recordDecl->field_end(),
+              [field](const clang::FieldDecl* p_ownField) { return field->getDeclName() && p_ownField->getDeclName() == field->getDeclName(); });
+          if(!isHidden && field->getAccess() == clang::AccessSpecifier::AS_public)
+          {
+            fields.push_back(field);
+          }
+        }
+      }
+    }
+    fields.insert(fields.end(), p_recordDecl->field_begin(), p_recordDecl->field_end());
+    return fields;
+  }
+
   /*!
    * \brief Returns the attributes which make the layout of a type or a field different from the default one.
    */
-- 
2.43.0


From a25bc4c76950b750863f4fa682afa413c92067d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:40 +0000
Subject: [PATCH 42/43] fix: keep the underlying type and the scope of C++
 enums when types are generated

---
 src/easyMockGenerate/include/Enum.h           | 26 +++++++++++++++++++
 .../CodeGeneratorCTemplate.cpp                | 12 ++++++++-
 src/easyMockGenerate/src/Enum.cpp             | 20 ++++++++++++++
 .../src/LLVMParser/LLVMParser.cpp             |  5 ++++
 4 files changed, 62 insertions(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/include/Enum.h b/src/easyMockGenerate/include/Enum.h
index 8f4fc43..4bfa80d 100644
--- a/src/easyMockGenerate/include/Enum.h
+++ b/src/easyMockGenerate/include/Enum.h
@@ -58,6 +58,30 @@ public:
    */
   void setLayoutAttributes(std::string p_attributes);
 
+  /*!
+   * \brief Returns the underlying type of the enum, or an empty string if the declaration doesn't fix it.
+   */
+  const std::string& getFixedType() const;
+
+  /*!
+   * \brief Sets the underlying type of the enum.
+   *
+   * \see getFixedType()
+   */
+  void setFixedType(std::string p_type);
+
+  /*!
+   * \brief Returns true if the enum is declared with <tt>enum class</tt> or <tt>enum struct</tt>.
+   */
+  bool isScoped() const;
+
+  /*!
+   * \brief Sets whether the enum is scoped.
+   *
+   * \see isScoped()
+   */
+  void setScoped(bool p_value);
+
   /*!
    * \copydoc ::TypeItf::getDeclarationPrefix
    */
@@ -83,6 +107,8 @@ protected:
 private:
   listOfValuesType m_listOfValues;
   std::string m_layoutAttributes;
+  std::string m_fixedType;
+  bool m_isScoped = false;
   std::size_t m_cachedHash;
 };
 
diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 05938a6..bb5b92e 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -168,6 +168,8 @@
 #define GENERATED_TYPE_ENUM_SECTION "GENERATED_TYPE_ENUM_SECTION"
 #define GENERATED_TYPE_ENUM_NAME_VAR "GENERATED_TYPE_ENUM_NAME_VAR"
 #define GENERATED_TYPE_ENUM_NAME_TEMPLATE_VAR TEMPLATE_VAR(GENERATED_TYPE_ENUM_NAME_VAR)
+#define GENERATED_TYPE_ENUM_SCOPE_VAR "GENERATED_TYPE_ENUM_SCOPE_VAR"
+#define GENERATED_TYPE_ENUM_FIXED_TYPE_VAR "GENERATED_TYPE_ENUM_FIXED_TYPE_VAR"
 #define GENERATED_TYPE_ENUM_LAYOUT_ATTRIBUTES_VAR "GENERATED_TYPE_ENUM_LAYOUT_ATTRIBUTES_VAR"
 #define GENERATED_TYPE_ENUM_VALUE_SECTION "GENERATED_TYPE_ENUM_VALUE_SECTION"
 #define GENERATED_TYPE_ENUM_VALUE_NAME_VAR "GENERATED_TYPE_ENUM_VALUE_NAME_VAR"
@@ -876,7 +878,7 @@ const char headerFileTemplate[] =
           TEMPLATE_BEG_SECTION(GENERATED_TYPE_ENUM_SECTION)
           "#ifndef " GENERATED_TYPE_ENUM_GUARD_NAME CARRIAGE_RETURN
           "#define " GENERATED_TYPE_ENUM_GUARD_NAME CARRIAGE_RETURN
-          "enum " GENERATED_TYPE_ENUM_NAME_TEMPLATE_VAR CARRIAGE_RETURN
+          "enum" TEMPLATE_VAR(GENERATED_TYPE_ENUM_SCOPE_VAR) " " GENERATED_TYPE_ENUM_NAME_TEMPLATE_VAR TEMPLATE_VAR(GENERATED_TYPE_ENUM_FIXED_TYPE_VAR) CARRIAGE_RETURN
           "{" CARRIAGE_RETURN
           TEMPLATE_BEG_SECTION(GENERATED_TYPE_ENUM_VALUE_SECTION)
           "  " GENERATED_TYPE_ENUM_VALUE_NAME_TEMPLATE_VAR " = " GENERATED_TYPE_ENUM_VALUE_VALUE_TEMPLATE_VAR "," CARRIAGE_RETURN
@@ -2668,6 +2670,14 @@ void CodeGeneratorCTemplate::generateEnum(const TypeItf* p_type)
   }
   ctemplate::TemplateDictionary* enumSection = m_rootDictionary->AddSectionDictionary(GENERATED_TYPE_ENUM_SECTION);
   enumSection->SetValue(GENERATED_TYPE_ENUM_NAME_VAR, localTypeName);
+  if(enumType->isScoped())
+  {
+    enumSection->SetValue(GENERATED_TYPE_ENUM_SCOPE_VAR, " class");
+  }
+  if(!enumType->getFixedType().empty())
+  {
+    enumSection->SetValue(GENERATED_TYPE_ENUM_FIXED_TYPE_VAR, " : " + enumType->getFixedType());
+  }
   if(!enumType->getLayoutAttributes().empty())
   {
     enumSection->SetValue(GENERATED_TYPE_ENUM_LAYOUT_ATTRIBUTES_VAR, " " + enumType->getLayoutAttributes());
diff --git a/src/easyMockGenerate/src/Enum.cpp b/src/easyMockGenerate/src/Enum.cpp
index 3dd81b9..cd51b8b 100644
--- a/src/easyMockGenerate/src/Enum.cpp
+++ b/src/easyMockGenerate/src/Enum.cpp
@@ -43,6 +43,26 @@ void Enum::setLayoutAttributes(std::string p_attributes)
   m_layoutAttributes = std::move(p_attributes);
 }
 
+const std::string& Enum::getFixedType() const
+{
+  return m_fixedType;
+}
+
+void Enum::setFixedType(std::string p_type)
+{
+  m_fixedType = std::move(p_type);
+}
+
+bool Enum::isScoped() const
+{
+  return m_isScoped;
+}
+
+void Enum::setScoped(bool p_value)
+{
+  m_isScoped = p_value;
+}
+
 std::string Enum::getDeclarationPrefix(bool) const
 {
   std::string toReturn { std::string {"enum "} + m_name };
diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 8944e16..32e653a 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -841,6 +841,11 @@ private:
 
     std::shared_ptr<Enum> enumType = std::make_shared<Enum>(name);
     enumType->setLayoutAttributes(getLayoutAttributes(ED));
+    enumType->setScoped(ED->isScoped());
+    if(ED->isFixed())
+    {
+      enumType->setFixedType(ED->getIntegerType().getCanonicalType().getAsString(m_context->getPrintingPolicy()));
+    }
     for(const auto enumConstantDeclaration : ED->enumerators())
     {
       int64_t enumValue = enumConstantDeclaration->getInitVal().getExtValue();
-- 
2.43.0


From 03f699514cc72d5ec0554840ddb01c7a2f00f16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:40 +0000
Subject: [PATCH 43/43] fix: generate the types which are only used through C++
 references

---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp      | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index bb5b92e..07d2d96 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -2015,12 +2015,13 @@ void CodeGeneratorCTemplate::generateDeclarationOfUsedType(ctemplate::TemplateDi
    */
   const QualifiedType* qualifiedType = p_type->asQualifiedType();
   const Pointer* pointerType = p_type->asPointer();
+  const Reference* referenceType = p_type->asReference();
   const IncompleteType* incompleteType = p_type->asIncompleteType();
   const ComposableType* composableType = p_type->asComposableType();
   const TypedefType *typedefType = p_type->asTypedefType();
   const FunctionType* functionType = p_type->asFunctionType();
   const Enum* enumType = p_type->asEnum();
-  if((!incompleteType && !pointerType && !qualifiedType && !functionType) && isTypeGenerated(p_type, true))
+  if((!incompleteType && !pointerType && !referenceType && !qualifiedType && !functionType) && isTypeGenerated(p_type, true))
   {
     return;
   }
@@ -2113,6 +2114,10 @@ void CodeGeneratorCTemplate::generateDeclarationOfUsedType(ctemplate::TemplateDi
   {
     generateDeclarationOfUsedType(p_parentDictionary, pointerType->getPointedType(), false);
   }
+  else if(referenceType)
+  {
+    generateDeclarationOfUsedType(p_parentDictionary, referenceType->getPointedType(), false);
+  }
   else if(functionType)
   {
     generateDeclarationOfUsedType(p_parentDictionary, functionType->getReturnValue()->getType(), false);
-- 
2.43.0

