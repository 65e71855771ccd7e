From d36566b600a7c1d741c96b4eb1ff03e16cf5c6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:10 +0000
Subject: [PATCH 01/50] fix: do not truncate symbol table keys to int

Keys are 64-bit hashes; with int parameters two live atoms whose hashes agree
in the low 32 bits shared one entry, so one name resolved to the other's term.
---
 Interpreter/include/Interpreter.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/Interpreter/include/Interpreter.hpp b/Interpreter/include/Interpreter.hpp
index d179b37..4f23977 100644
--- a/Interpreter/include/Interpreter.hpp
+++ b/Interpreter/include/Interpreter.hpp
@@ -38,7 +38,7 @@ namespace INTERPRETER
         map<string, size_t> dictionary_inv;
         map<size_t, int> count;
 
-        inline void put(int key, string name, void *object)
+        inline void put(size_t key, string name, void *object)
         {
             dictionary[key] = name;
             objects[key] = (pTerm *)object;
@@ -46,12 +46,12 @@ namespace INTERPRETER
             count[key] = (check_count(key) == 0) ? 1 : (count[key] + 1);
         }
 
-        inline string &get(int key) { return dictionary[key]; }
-        inline pTerm *get_object(int key) { return objects[key]; }
-        inline int get_by_name(string &name) { return dictionary_inv[name]; }
-        inline bool check(int key) { return dictionary.count(key) == 1; }
+        inline string &get(size_t key) { return dictionary[key]; }
+        inline pTerm *get_object(size_t key) { return objects[key]; }
+        inline size_t get_by_name(string &name) { return dictionary_inv[name]; }
+        inline bool check(size_t key) { return dictionary.count(key) == 1; }
         inline bool check_by_name(string &name) { return dictionary_inv.count(name) == 1; }
-        inline int check_count(int key)
+        inline int check_count(size_t key)
         {
             if (count.count(key) == 0)
             {
@@ -68,7 +68,7 @@ namespace INTERPRETER
             }
         }
 
-        inline bool remove(int key)
+        inline bool remove(size_t key)
         {
             if (check(key))
             {
@@ -118,7 +118,7 @@ namespace INTERPRETER
             }
         }
 
-        inline bool erase(int key)
+        inline bool erase(size_t key)
         {
             if (check_count(key) > 0)
             {
-- 
2.43.0


From 614680f3b824029e805b87cbf0af80c76f3a5ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:10 +0000
Subject: [PATCH 02/50] fix: look an operation up by its own name

The lookup tested the name without '^' and then fetched the one with it: the
same operation got a new term on every occurrence, and an atom of the same
name made the parser dereference a missing entry.
---
 Narsese/Parser/NarseseParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Narsese/Parser/NarseseParser.cpp b/Narsese/Parser/NarseseParser.cpp
index a90e80c..22e8b84 100644
--- a/Narsese/Parser/NarseseParser.cpp
+++ b/Narsese/Parser/NarseseParser.cpp
@@ -458,7 +458,7 @@ void *NARSESEPARSER::operation(Parser *self, const Args &args)
 	auto &str = *((std::string *)args[0]);
 	auto str_op = "^" + str;
 	pTerm *term;
-	if (INTERPRETER::interpreter.check_by_name(str) > 0)
+	if (INTERPRETER::interpreter.check_by_name(str_op) > 0)
 	{
 		auto key = INTERPRETER::interpreter.get_by_name(str_op);
 		term = (pTerm *)INTERPRETER::interpreter.get_object(key);
-- 
2.43.0


From 5e829ce44bcb1cee30dcc70695a40263f1d82d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:41 +0000
Subject: [PATCH 03/50] fix: initialise the parser's run-time fields

lexem is freed and ast and error_delay are tested before anything sets them:
a parser built in recycled memory freed a wild pointer, or answered a rejected
line with a wild syntax tree.
---
 Narsese/Parser/Parser.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Narsese/Parser/Parser.cpp b/Narsese/Parser/Parser.cpp
index fcb41a8..9b93fdf 100644
--- a/Narsese/Parser/Parser.cpp
+++ b/Narsese/Parser/Parser.cpp
@@ -7,7 +7,12 @@ Parser::Parser()
 {
     this->eof = '\n';
     this->stacksize = 0;
-    this->buf = NULL;
+    this->stack = this->tos = NULL;
+    this->lexem = NULL;
+    this->buf = this->bufend = NULL;
+    this->len = 0;
+    this->error_delay = this->error_count = 0;
+    this->ast = NULL;
     // const char *empty = "";
     // const char* start = "start";
     // auto len = sizeof(this->productions)/sizeof(this->productions[0]);
-- 
2.43.0


From aa7717095b08f1ef88540db68e913ab00f9613e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:41 +0000
Subject: [PATCH 04/50] fix: find grammar actions by name, not by string
 address

The map compared const char pointers, so it worked only where the compiler
merges equal literals (not with clang at -O0 or -fsanitize=address, where
every line was rejected).
---
 Narsese/Parser/Parser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Narsese/Parser/Parser.h b/Narsese/Parser/Parser.h
index 5ba51b6..fa3117b 100644
--- a/Narsese/Parser/Parser.h
+++ b/Narsese/Parser/Parser.h
@@ -25,7 +25,7 @@ namespace PARSER
     {
     public:
         /* function mappings from name to pointer */
-        std::unordered_map<const char *, long> _map;
+        std::unordered_map<std::string, long> _map;
 
         /* variable mappings from name to index */
         std::unordered_map<std::string, long> names_ivar;
-- 
2.43.0


From f8f7c6be4d43002b68f2f713062fd451f8773066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:58 +0000
Subject: [PATCH 05/50] fix: terminate the lexem of a token that is not
 representable

wcstombs() answers (size_t)-1 for a non-ASCII byte; the lexem then got zero
bytes and the error report read past it.
---
 Narsese/Parser/narsese.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Narsese/Parser/narsese.cpp b/Narsese/Parser/narsese.cpp
index 24d113f..0a94f2a 100644
--- a/Narsese/Parser/narsese.cpp
+++ b/Narsese/Parser/narsese.cpp
@@ -22,7 +22,9 @@ UNICC_SCHAR* _parser::get_lexem( void )
 #else
 	size_t		size;
 
-	size = wcstombs( (char*)NULL, this->buf, 0 );
+	/* (size_t)-1: the input holds something this locale can't represent */
+	if( ( size = wcstombs( (char*)NULL, this->buf, 0 ) ) == (size_t)-1 )
+		size = 0;
 
 	free( this->lexem );
 
@@ -33,7 +35,8 @@ UNICC_SCHAR* _parser::get_lexem( void )
 		return NULL;
 	}
 
-	wcstombs( this->lexem, this->buf, size + 1 );
+	if( wcstombs( this->lexem, this->buf, size + 1 ) == (size_t)-1 )
+		*this->lexem = 0;
 #endif
 
 #if UNICC_DEBUG	> 2
-- 
2.43.0


From 1b8189e859efc8426e26127fedf753f0d75cc682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:58 +0000
Subject: [PATCH 06/50] fix: keep the parser's input buffer terminated and
 inside its allocation

The end-of-file mark overwrote the terminator, so reporting an error read
uninitialised memory behind it, and clearing a token moved one character too
many, which lies past the allocation when the buffer is full.
---
 Narsese/Parser/narsese.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Narsese/Parser/narsese.cpp b/Narsese/Parser/narsese.cpp
index 0a94f2a..eba369b 100644
--- a/Narsese/Parser/narsese.cpp
+++ b/Narsese/Parser/narsese.cpp
@@ -265,6 +265,7 @@ UNICC_CHAR _parser::get_input( size_t offset )
 			fprintf( stderr, "%s: get input: can't get more input, "
 						"end-of-file reached\n", UNICC_PARSER );
 #endif
+			*( this->bufend ) = 0;
 			this->is_eof = true;
 			return this->eof;
 		}
@@ -326,7 +327,7 @@ void _parser::clear_input( void )
 #endif
 
 			memmove( this->buf, this->buf + this->len,
-						( ( this->bufend - ( this->buf + this->len ) ) + 1 + 1 )
+						( ( this->bufend - ( this->buf + this->len ) ) + 1 )
 							* sizeof( UNICC_CHAR ) );
 			this->bufend = this->buf + ( this->bufend - ( this->buf + this->len ) );
 
-- 
2.43.0


From 69f66c09f3d8f562cf17893a60c5077d5e098216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:58 +0000
Subject: [PATCH 07/50] fix: grow the parse stack before it overflows

The bound was checked one entry too late and not at all when a reduction
pushes, so about 128 open symbols wrote past the allocation.
---
 Narsese/Parser/narsese.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Narsese/Parser/narsese.cpp b/Narsese/Parser/narsese.cpp
index eba369b..88509bd 100644
--- a/Narsese/Parser/narsese.cpp
+++ b/Narsese/Parser/narsese.cpp
@@ -181,7 +181,7 @@ bool _parser::alloc_stack( void )
 
 		this->stacksize = UNICC_MALLOCSTEP;
 	}
-	else if( ( this->tos - this->stack ) == this->stacksize )
+	else if( (size_t)( this->tos - this->stack ) + 1 >= this->stacksize )
 	{
 		size_t			size = ( this->tos - this->stack );
 		_tok*	ptr;
@@ -802,6 +802,9 @@ int _parser::parse( void )
 
 			this->get_go();
 
+			if( !this->alloc_stack() )
+				return (int)NULL;
+
 			this->tos++;
 			this->tos->node = NULL;
 
-- 
2.43.0


From 5c7442235d37af63f784679f1e8d967f3f0a69bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:58 +0000
Subject: [PATCH 08/50] fix: free the syntax tree of a rejected line

The nodes on the parse stack were leaked on every syntax error.
---
 Narsese/Parser/narsese.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Narsese/Parser/narsese.cpp b/Narsese/Parser/narsese.cpp
index 88509bd..9599cbf 100644
--- a/Narsese/Parser/narsese.cpp
+++ b/Narsese/Parser/narsese.cpp
@@ -955,6 +955,11 @@ int _parser::parse( void )
 	// Clean up parser control block
 	UNICC_CLEARIN( this );
 
+	// Without success the nodes collected so far belong to nobody
+	if( this->act != UNICC_SUCCESS )
+		for( _tok* tok = this->stack; tok <= this->tos; tok++ )
+			tok->node = this->ast_free( tok->node );
+
 	free( this->stack );
 	this->stack = NULL;
 
-- 
2.43.0


From 6a93993472a7613f5e87e8011cb40b6a0d05db49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:48 +0000
Subject: [PATCH 09/50] fix: drop the syntax tree when building the task fails

An exception in a grammar action left the tree in the parser, so the next
rejected line was answered with the earlier line's task. Actions without
arguments no longer get a reference to a null argument list.
---
 Narsese/Parser/Parser.cpp | 60 +++++++++++++++++++++------------------
 Narsese/Parser/Parser.h   |  1 +
 2 files changed, 34 insertions(+), 27 deletions(-)

diff --git a/Narsese/Parser/Parser.cpp b/Narsese/Parser/Parser.cpp
index 9b93fdf..f6b3e3c 100644
--- a/Narsese/Parser/Parser.cpp
+++ b/Narsese/Parser/Parser.cpp
@@ -1,5 +1,6 @@
 #include "./Parser.h"
 #include <iostream>
+#include <memory>
 
 using namespace PARSER;
 
@@ -33,39 +34,46 @@ Parser::Parser()
 void *Parser::parse_string(std::string &input)
 {
     char_fetcher.switch_string_mode();
+    char_fetcher.clear();
     char_fetcher.fill(input);
 
     this->parse();
 
     char_fetcher.clear();
-    /* Print AST */
-    if (this->ast)
-    {
-        // this->ast_print( stderr, this->ast );
-        Args *rets = this->transform(this->ast);
-        this->ast = this->ast_free(this->ast);
-        auto ret = (*rets)[0];
-        delete rets;
-        return ret;
-    }
-    return nullptr;
+    return this->take_result();
 }
 
 void *Parser::parse_input()
 {
     char_fetcher.switch_stdin_mode();
     this->parse();
+    return this->take_result();
+}
+
+void *Parser::take_result()
+{
     /* Print AST */
-    if (this->ast)
+    if (!this->ast)
+        return nullptr;
+
+    /* The tree must not survive this call, even if an action throws. */
+    auto node = this->ast;
+    this->ast = nullptr;
+    // this->ast_print( stderr, node );
+    Args *rets = nullptr;
+    try
+    {
+        rets = this->transform(node);
+    }
+    catch (...)
     {
-        // this->ast_print( stderr, this->ast );
-        Args *rets = this->transform(this->ast);
-        this->ast = this->ast_free(this->ast);
-        auto ret = (*rets)[0];
-        delete rets;
-        return ret;
+        this->ast_free(node);
+        throw;
     }
-    return nullptr;
+    this->ast_free(node);
+    auto ret = (*rets)[0];
+    delete rets;
+    return ret;
 }
 
 Args *Parser::transform(_ast *node)
@@ -77,7 +85,7 @@ Args *Parser::transform(_ast *node)
     if (!node)
         return nullptr;
 
-    auto &rets = *(new Args);
+    auto rets = std::make_unique<Args>();
 
     while (node)
     {
@@ -96,22 +104,20 @@ Args *Parser::transform(_ast *node)
         }
         else
         {
-            auto ret_args = this->transform(node->child);
+            std::unique_ptr<Args> ret_args(this->transform(node->child));
+            if (ret_args == nullptr) // e.g., a copula has no children
+                ret_args = std::make_unique<Args>();
             auto fptr = this->get_function(name);
             if (fptr != 0)
             {
                 ret = ((METHOD)fptr)(this, *ret_args);
             }
-            if (ret_args != nullptr)
-            {
-                delete ret_args;
-            }
         }
-        rets.push_back(ret);
+        rets->push_back(ret);
 
         node = node->next;
     }
-    return &rets;
+    return rets.release();
 }
 
 void Parser::regist(const char *name, METHOD function)
diff --git a/Narsese/Parser/Parser.h b/Narsese/Parser/Parser.h
index fa3117b..bd82620 100644
--- a/Narsese/Parser/Parser.h
+++ b/Narsese/Parser/Parser.h
@@ -64,6 +64,7 @@ namespace PARSER
 
         void *parse_string(std::string &input);
         void *parse_input();
+        void *take_result();
         void regist(const char *name, METHOD function);
 
         inline long get_function(const char *name)
-- 
2.43.0


From 38de35e2d498445d24db49af61cc74219609b880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:48 +0000
Subject: [PATCH 10/50] fix: reject numbers out of range without leaking

std::stod threw in the middle of a tree of raw pointers (and also for values
too small), and an interval or time beyond int was an undefined conversion.
---
 Narsese/Parser/NarseseParser.cpp | 31 ++++++++++++++++++++++++-------
 Narsese/Parser/NarseseParser.h   |  8 ++++++--
 Narsese/Parser/Parser.h          |  3 +++
 3 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/Narsese/Parser/NarseseParser.cpp b/Narsese/Parser/NarseseParser.cpp
index 22e8b84..23ae108 100644
--- a/Narsese/Parser/NarseseParser.cpp
+++ b/Narsese/Parser/NarseseParser.cpp
@@ -14,7 +14,9 @@
 // #include "Narsese/include/Variable.h"
 #include "Narsese/include/Narsese.h"
 #include <functional> // std::reference_wrapper
+#include <cstdlib>
 #include <iostream>
+#include <limits>
 #include <memory>
 // #include <list>
 #include <tuple>
@@ -64,6 +66,21 @@ inline _T get(void *obj)
 	return ret;
 }
 
+/*
+A number out of range must not throw here, because the other arguments, which are raw pointers, would be lost.
+It is remembered, and reported once the task is complete.
+*/
+static double to_number(Parser *self, const void *token, double max = std::numeric_limits<double>::max())
+{
+	auto value = std::strtod((const char *)token, nullptr);
+	if (value > max)
+	{
+		self->error = "Number out of range: " + std::string((const char *)token);
+		return 0.0;
+	}
+	return value;
+}
+
 /*definitions*/
 void *NARSESEPARSER::task(Parser *self, const Args &args)
 {
@@ -869,43 +886,43 @@ void *NARSESEPARSER::string(Parser *self, const Args &args)
 void *NARSESEPARSER::quality(Parser *self, const Args &args)
 {
 	void *ret;
-	ret = new double(std::stod((char *)args[0]));
+	ret = new double(to_number(self, args[0]));
 	return ret;
 }
 void *NARSESEPARSER::durability(Parser *self, const Args &args)
 {
 	void *ret;
-	ret = new double(std::stod((char *)args[0]));
+	ret = new double(to_number(self, args[0]));
 	return ret;
 }
 void *NARSESEPARSER::priority(Parser *self, const Args &args)
 {
 	void *ret;
-	ret = new double(std::stod((char *)args[0]));
+	ret = new double(to_number(self, args[0]));
 	return ret;
 }
 void *NARSESEPARSER::k_evidence(Parser *self, const Args &args)
 {
 	void *ret;
-	ret = new double(std::stod((char *)args[0])); // e.g., "1"
+	ret = new double(to_number(self, args[0], std::numeric_limits<float>::max())); // e.g., "1"
 	return ret;
 }
 void *NARSESEPARSER::confidence(Parser *self, const Args &args)
 {
 	void *ret;
-	ret = new double(std::stod((char *)args[0])); // e.g., "0.90"
+	ret = new double(to_number(self, args[0])); // e.g., "0.90"
 	return ret;
 }
 void *NARSESEPARSER::frequency(Parser *self, const Args &args)
 {
 	void *ret;
-	ret = new double(std::stod((char *)args[0])); // e.g., "0.90"
+	ret = new double(to_number(self, args[0])); // e.g., "0.90"
 	return ret;
 }
 void *NARSESEPARSER::integer(Parser *self, const Args &args)
 {
 	void *ret;
-	ret = new double(std::stod((char *)args[0])); // e.g., 123
+	ret = new double(to_number(self, args[0], std::numeric_limits<signed int>::max())); // e.g., 123
 	return ret;
 }
 
diff --git a/Narsese/Parser/NarseseParser.h b/Narsese/Parser/NarseseParser.h
index 6eac2d5..de0c54f 100644
--- a/Narsese/Parser/NarseseParser.h
+++ b/Narsese/Parser/NarseseParser.h
@@ -3,6 +3,7 @@
 
 #include "./Parser.h"
 #include <pybind11/pybind11.h>
+#include <stdexcept>
 
 namespace NARSESEPARSER
 {
@@ -18,8 +19,11 @@ namespace NARSESEPARSER
 			names_ivar.clear();
 			names_dvar.clear();
 			names_qvar.clear();
-			TASK::Task *task = ((TASK::Task *)this->parse_string(input));
-			return TASK::pTask(task);
+			error.clear();
+			TASK::pTask task((TASK::Task *)this->parse_string(input));
+			if (!error.empty())
+				throw std::out_of_range(error);
+			return task;
 		}
 		TASK::pTask parse_task(const char *input)
 		{
diff --git a/Narsese/Parser/Parser.h b/Narsese/Parser/Parser.h
index bd82620..96b1e4b 100644
--- a/Narsese/Parser/Parser.h
+++ b/Narsese/Parser/Parser.h
@@ -32,6 +32,9 @@ namespace PARSER
         std::unordered_map<std::string, long> names_dvar;
         std::unordered_map<std::string, long> names_qvar;
 
+        /* what is wrong with a line whose syntax is right, if anything */
+        std::string error;
+
         Parser();
         ~Parser()
         {
-- 
2.43.0


From 4419acb159567b665bb97a777631fcf9cddac148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:12 +0000
Subject: [PATCH 11/50] fix: destroy terms and sentences through virtual
 destructors

A variable was deleted as a plain Term, which leaked its name; a goal was
deleted as a plain Sentence, which has another size.
---
 Narsese/include/Sentence.h |    2 +
 Narsese/include/Term.h     | 1009 ++++++++++++++++++------------------
 2 files changed, 507 insertions(+), 504 deletions(-)

diff --git a/Narsese/include/Sentence.h b/Narsese/include/Sentence.h
index c8f6933..476e832 100755
--- a/Narsese/include/Sentence.h
+++ b/Narsese/include/Sentence.h
@@ -130,6 +130,8 @@ namespace SENTENCE
                 stamp = pStamp(new Stamp(true));
         }
 
+        virtual ~Sentence() = default; // `pSentence` owns judgements, goals, ... as `Sentence`
+
         inline bool is_judgement() { return punct == PUNCTUATION::Judgement; }
         inline bool is_question() { return punct == PUNCTUATION::Question; }
         inline bool is_goal() { return punct == PUNCTUATION::Goal; }
diff --git a/Narsese/include/Term.h b/Narsese/include/Term.h
index 336ee18..a95902a 100755
--- a/Narsese/include/Term.h
+++ b/Narsese/include/Term.h
@@ -1,505 +1,506 @@
-#ifndef _TERM_H
-#define _TERM_H
-
-#include "Connector.h"
-#include "Copula.h"
-#include "utils/IndexVar.h"
-#include "utils/hash.h"
-#include <algorithm>
-#include <array>
-#include <list>
-#include <memory>
-#include <string>
-#include <unordered_set>
-#include <fmt/core.h>
-#include <pybind11/pybind11.h>
-
-// #include "../utils/repr.h"
-namespace VARIABLE
-{
-    class Variable;
-}
-
-namespace COMPOUND
-{
-    class Compound;
-}
-
-namespace STATEMENT
-{
-    class Statement;
-}
-
-namespace TERM
-{
-    namespace py = pybind11;
-    
-    using CONNECTOR::Connector;
-    using COPULA::Copula;
-    // using REPR::repr;
-    using INDEXVAR::IndexVar;
-    using INDEXVAR::pIndexVar;
-    using std::string;
-    using std::unordered_set;
-    using UTILS::Hash;
-    using UTILS::hash;
-
-
-    class Terms;
-    class Term;
-    // typedef std::shared_ptr<Term> pTerm;
-    class PYBIND11_EXPORT pTerm : public std::shared_ptr<Term>
-    {
-    public:
-        void *_interpreter = nullptr;
-
-    public:
-        // using std::shared_ptr<Term>::shared_ptr;
-        pTerm() : std::shared_ptr<Term>::shared_ptr() {}
-        pTerm(Term *term, void *interpreter = nullptr) : std::shared_ptr<Term>(term), _interpreter(interpreter) {}
-        // pTerm() : std::shared_ptr<Term>() {}
-
-        ~pTerm();
-
-        std::string __repr__(void *interpreter = nullptr) const;
-
-    private:
-        void _free_from_interpreter();
-        // void _free_from_interpreter() {}
-    };
-
-    typedef std::shared_ptr<Terms> pTerms;
-
-    enum PYBIND11_EXPORT TermType
-    {
-        ATOM = 0,
-        STATEMENT = 1,
-        COMPOUND = 2,
-        INTERVAL = -1,
-        OPERATION = -2,
-        VARIABLE = -3
-    };
-
-    class PYBIND11_EXPORT Term
-    {
-    public:
-        /* for statement */
-        pTerm subject;
-        pTerm predicate;
-        Copula copula = COPULA::None;
-
-        /* for compound */
-        Connector connector = CONNECTOR::None;
-        pTerms terms;
-
-        /* for all */
-        TermType type = TermType::ATOM;
-
-        bool is_var : 1 = false;
-        bool is_ivar : 1 = false;
-        bool is_dvar : 1 = false;
-        bool is_qvar : 1 = false;
-        bool has_var : 1 = false;  // Whether the term contains variable(s).
-        bool has_ivar : 1 = false; // Whether the term contains independent variable(s).
-        bool has_dvar : 1 = false; // Whether the term contains dependent variable(s).
-        bool has_qvar : 1 = false; // Whether the term contains query variable(s).
-
-        bool is_closed : 1 = true; // Whether the term is closed or open in terms of variable.
-        bool is_interval : 1 = false;
-        bool is_operation : 1 = false;
-
-        bool is_higher_order : 1 = false;
-
-        bool is_hashed : 1 = false;
-        size_t hash_value = 0;
-
-        int complexity = 1; // The complexity of the term. Read only.
-
-        pIndexVar _vars_independent = IndexVar::create();
-        pIndexVar _vars_dependent = IndexVar::create();
-        pIndexVar _vars_query = IndexVar::create();
-
-        // Term(int hash_value);
-        // Term(char *_word);
-        // string word;
-        Term() : hash_value(Hash{}(std::initializer_list<size_t>{(size_t)TermType::ATOM, (size_t)this})), is_hashed(true){};
-        Term(const TermType _type) : type(_type) {}
-        // ~Term()
-        // {
-        //     std::cout << (size_t)this << " Term freed" << std::endl;
-        // }
-        size_t __hash__()
-        {
-            return this->is_hashed ? this->hash_value : this->do_hashing();
-        }
-
-        virtual size_t do_hashing()
-        {
-            this->hash_value = Hash{}(std::initializer_list<size_t>{(size_t)TermType::ATOM, (size_t)this});
-            this->is_hashed = true;
-            return this->hash_value;
-        }
-
-        inline bool is_atom() const { return this->type == TermType::ATOM; }
-        inline bool is_statement() const { return this->type == TermType::STATEMENT; }
-        inline bool is_compound() const { return this->type == TermType::COMPOUND; }
-
-        static pTerm create()
-        {
-            auto term = new Term();
-            // std::cout << "create Term " << (size_t)term << std::endl;
-            return pTerm(term);
-        }
-
-        static pTerm create(const char *word, void *interpreter = nullptr);
-
-        static pTerm clone(pTerm term);
-
-        bool operator==(Term &other);
-
-        bool operator<(Term &other);
-
-    protected:
-        template <typename _Container>
-        void _refresh_var_status(const _Container &terms)
-        {
-            this->has_var = std::any_of(terms.begin(), terms.end(), [](const pTerm &term)
-                                        { return term->has_var; });
-            this->has_ivar = std::any_of(terms.begin(), terms.end(), [](const pTerm &term)
-                                         { return term->has_ivar; });
-            this->has_dvar = std::any_of(terms.begin(), terms.end(), [](const pTerm &term)
-                                         { return term->has_dvar; });
-            this->has_qvar = std::any_of(terms.begin(), terms.end(), [](const pTerm &term)
-                                         { return term->has_qvar; });
-        }
-
-        void _init_indexvars(const std::array<pIndexVar, 3> &variables, const Terms &terms);
-
-        void _init_indexvars(const std::array<pIndexVar, 3> &variables, std::initializer_list<pTerm> terms);
-
-        void _build_indexvars()
-        {
-            if (this->has_ivar)
-                this->_vars_independent->build();
-            else
-                this->_vars_independent->_is_built = true;
-            if (this->has_dvar)
-                this->_vars_dependent->build();
-            else
-                this->_vars_dependent->_is_built = true;
-            if (this->has_qvar)
-                this->_vars_query->build();
-            else
-                this->_vars_query->_is_built = true;
-        }
-
-        std::array<pIndexVar, 3> _index_vars() const
-        {
-            return {this->_vars_independent, this->_vars_dependent, this->_vars_query};
-        }
-    };
-
-    class PYBIND11_EXPORT Iterator
-    {
-    public:
-        // using iterator_category = typename std::iterator_traits<pTerm *>::iterator_category;
-        // using value_type = typename std::iterator_traits<pTerm *>::value_type;
-        using value_type = pTerm;
-        // using reference = pTerm&;
-        // using pointer = pTerm*;
-        using difference_type = std::ptrdiff_t;
-        using iterator_category = std::input_iterator_tag;
-
-    public:
-        Iterator(const Iterator &iterator)
-        {
-            *this = iterator;
-            if (this->_is_commutative)
-                it_ = new auto(*(std::set<pTerm>::iterator *)(iterator.it_));
-            else
-                it_ = new auto(*(std::vector<pTerm>::iterator *)(iterator.it_));
-        }
-        Iterator(std::vector<pTerm>::const_iterator it) : it_((void *)new auto(it)), _is_commutative(false) {}
-        Iterator(std::set<pTerm>::iterator it) : it_((void *)new auto(it)), _is_commutative(true) {}
-
-        ~Iterator()
-        {
-            if (it_ == nullptr)
-                return;
-            if (this->_is_commutative)
-                delete ((std::vector<pTerm>::iterator *)it_);
-            else
-                delete ((std::set<pTerm>::iterator *)it_);
-            it_ = nullptr;
-        }
-
-        const pTerm &operator*()
-        {
-            if (this->_is_commutative)
-                return **((std::set<pTerm>::iterator *)it_);
-            else
-                return **((std::vector<pTerm>::iterator *)it_);
-        }
-
-        Iterator &operator++()
-        {
-            if (this->_is_commutative)
-                (*((std::set<pTerm>::iterator *)it_))++;
-            else
-                (*((std::vector<pTerm>::iterator *)it_))++;
-            return *this;
-        }
-
-        Iterator &operator++(int)
-        {
-            return ++(*this);
-        }
-
-        bool operator!=(const Iterator &other) const
-        {
-            if (this->_is_commutative)
-                return (*((std::set<pTerm>::iterator *)this->it_)) != (*((std::set<pTerm>::iterator *)other.it_));
-            else
-                return (*((std::vector<pTerm>::iterator *)this->it_)) != (*((std::vector<pTerm>::iterator *)other.it_));
-        }
-
-        bool operator==(const Iterator &other) const
-        {
-            if (this->_is_commutative)
-                return (*((std::set<pTerm>::iterator *)this->it_)) == (*((std::set<pTerm>::iterator *)other.it_));
-            else
-                return (*((std::vector<pTerm>::iterator *)this->it_)) == (*((std::vector<pTerm>::iterator *)other.it_));
-        }
-
-        Iterator operator+(int n) const
-        {
-            if (this->_is_commutative)
-            {
-                std::set<pTerm>::iterator newIt = *(std::set<pTerm>::iterator *)it_;
-                std::advance(newIt, n);
-                return Iterator(newIt);
-            }
-            else
-            {
-                std::vector<pTerm>::iterator newIt = *(std::vector<pTerm>::iterator *)it_;
-                std::advance(newIt, n);
-                return Iterator(newIt);
-            }
-        }
-        Iterator operator-(int n) const
-        {
-            if (this->_is_commutative)
-            {
-                std::set<pTerm>::iterator newIt = *(std::set<pTerm>::iterator *)it_;
-                std::advance(newIt, -n);
-                return Iterator(newIt);
-            }
-            else
-            {
-                std::vector<pTerm>::iterator new_it = *(std::vector<pTerm>::iterator *)it_;
-                std::advance(new_it, -n);
-                return Iterator(new_it);
-            }
-        }
-
-    private:
-        bool _is_commutative;
-        void *it_;
-    };
-
-    class PYBIND11_EXPORT Terms
-    {
-    public:
-        struct compare
-        {
-            bool operator()(const pTerm &a, const pTerm &b) const
-            {
-                auto &term1 = *a;
-                auto &term2 = *b;
-                return term1 < term2;
-                // return a < b;
-            }
-        };
-
-    public:
-        // std::vector<pTerm> terms;
-        std::vector<pTerm> terms_ordered;
-        std::set<pTerm, compare> terms_unordered;
-
-        // IndexVar _vars_independent = IndexVar();
-        // IndexVar _vars_dependent = IndexVar();
-        // IndexVar _vars_query = IndexVar();
-
-        bool _is_commutative;
-
-        Terms(bool is_commutative) : _is_commutative(is_commutative) {}
-
-        // Terms(std::list<pTerm> terms, bool is_commutative);
-        Terms(std::list<pTerm> terms, bool is_commutative) : _is_commutative(is_commutative)
-        {
-            this->fill_terms(terms);
-        }
-        template <typename _Compare>
-        Terms(std::set<pTerm, _Compare> terms, bool is_commutative) : _is_commutative(is_commutative)
-        {
-            this->fill_terms(terms);
-        }
-        Terms(std::vector<pTerm> &terms, bool is_commutative) : _is_commutative(is_commutative)
-        {
-            this->fill_terms(terms);
-        }
-
-        Terms(std::initializer_list<pTerm> terms, bool is_commutative) : _is_commutative(is_commutative)
-        {
-            this->fill_terms(terms);
-        }
-
-        Terms(Terms &terms, bool is_commutative) : _is_commutative(is_commutative)
-        {
-            this->fill_terms(terms);
-        }
-
-        inline static pTerms create(bool is_commutative)
-        {
-            return pTerms(new Terms(is_commutative));
-        }
-
-        template <typename _T>
-        inline static pTerms create(_T terms, bool is_commutative)
-        {
-            return pTerms(new Terms(terms, is_commutative));
-        }
-
-        inline static auto intersection(std::vector<pTerms> terms_all)
-        {
-            if (terms_all.size() == 0)
-                throw std::runtime_error("Empty input.");
-
-            auto it = terms_all.begin();
-            std::set<pTerm, compare> intersection((*it)->terms_unordered);
-            for (++it; it != terms_all.end(); ++it)
-            {
-                const auto &terms = *(*it);
-                if (!terms._is_commutative)
-                    throw std::runtime_error("Each `Terms` should be commutative.");
-                std::set<pTerm, compare> temp{};
-                std::set_intersection(
-                    intersection.begin(), intersection.end(),
-                    terms.begin(), terms.end(),
-                    std::inserter(temp, temp.begin()), compare{});
-                intersection = temp;
-            }
-            return Terms::create(intersection, true);
-        }
-
-        inline static auto union_(std::vector<pTerms> terms_all)
-        {
-            if (terms_all.size() == 0)
-                throw std::runtime_error("Empty input.");
-
-            auto it = terms_all.begin();
-            std::set<pTerm, compare> union_((*it)->terms_unordered);
-            for (++it; it != terms_all.end(); ++it)
-            {
-                const auto &terms = *(*it);
-                if (!terms._is_commutative)
-                    throw std::runtime_error("Each `Terms` should be commutative.");
-                std::set<pTerm, compare> temp;
-                std::set_union(
-                    union_.begin(), union_.end(),
-                    terms.begin(), terms.end(),
-                    std::inserter(temp, temp.begin()), compare{});
-                union_ = temp;
-            }
-            return Terms::create(union_, true);
-        }
-
-        inline static auto difference(std::vector<pTerms> terms_all)
-        {
-            if (terms_all.size() == 0)
-                throw std::runtime_error("Empty input.");
-
-            auto it = terms_all.begin();
-            std::set<pTerm, compare> difference((*it)->terms_unordered);
-            for (++it; it != terms_all.end(); ++it)
-            {
-                const auto &terms = *(*it);
-                if (!terms._is_commutative)
-                    throw std::runtime_error("Each `Terms` should be commutative.");
-                std::set<pTerm, compare> temp;
-                std::set_difference(
-                    difference.begin(), difference.end(),
-                    terms.begin(), terms.end(),
-                    std::inserter(temp, temp.begin()), compare{});
-                difference = temp;
-            }
-            return Terms::create(difference, true);
-        }
-
-        inline void push_back(pTerm term)
-        {
-            if (this->_is_commutative)
-                this->terms_unordered.insert(term);
-            else
-                this->terms_ordered.push_back(term);
-        }
-
-        inline auto size()
-        {
-            if (this->_is_commutative)
-                return this->terms_unordered.size();
-            else
-                return this->terms_ordered.size();
-        }
-
-        Iterator begin() const
-        {
-            if (this->_is_commutative)
-                return Iterator(this->terms_unordered.begin());
-            else
-                return Iterator(this->terms_ordered.begin());
-        }
-
-        Iterator end() const
-        {
-            if (this->_is_commutative)
-                return Iterator(this->terms_unordered.end());
-            else
-                return Iterator(this->terms_ordered.end());
-        }
-
-        operator std::vector<pTerm>() const
-        {
-            if (this->_is_commutative)
-                return std::vector<pTerm>(this->terms_unordered.begin(), this->terms_unordered.end());
-            else
-                return this->terms_ordered;
-        }
-
-    private:
-        template <typename _T>
-        void fill_terms(_T terms)
-        {
-            if (this->_is_commutative)
-            {
-                for (auto it = terms.begin(); it != terms.end(); it++)
-                {
-                    this->terms_unordered.insert((*it));
-                }
-            }
-            else
-            {
-                for (auto it = terms.begin(); it != terms.end(); it++)
-                {
-                    this->terms_ordered.push_back((*it));
-                }
-            }
-        }
-    };
-    void pybind_term(py::module &m);
-    void pybind_terms(py::module &m);
-
-} // namespace Term
-// #include "Term.inl"
-
+#ifndef _TERM_H
+#define _TERM_H
+
+#include "Connector.h"
+#include "Copula.h"
+#include "utils/IndexVar.h"
+#include "utils/hash.h"
+#include <algorithm>
+#include <array>
+#include <list>
+#include <memory>
+#include <string>
+#include <unordered_set>
+#include <fmt/core.h>
+#include <pybind11/pybind11.h>
+
+// #include "../utils/repr.h"
+namespace VARIABLE
+{
+    class Variable;
+}
+
+namespace COMPOUND
+{
+    class Compound;
+}
+
+namespace STATEMENT
+{
+    class Statement;
+}
+
+namespace TERM
+{
+    namespace py = pybind11;
+    
+    using CONNECTOR::Connector;
+    using COPULA::Copula;
+    // using REPR::repr;
+    using INDEXVAR::IndexVar;
+    using INDEXVAR::pIndexVar;
+    using std::string;
+    using std::unordered_set;
+    using UTILS::Hash;
+    using UTILS::hash;
+
+
+    class Terms;
+    class Term;
+    // typedef std::shared_ptr<Term> pTerm;
+    class PYBIND11_EXPORT pTerm : public std::shared_ptr<Term>
+    {
+    public:
+        void *_interpreter = nullptr;
+
+    public:
+        // using std::shared_ptr<Term>::shared_ptr;
+        pTerm() : std::shared_ptr<Term>::shared_ptr() {}
+        pTerm(Term *term, void *interpreter = nullptr) : std::shared_ptr<Term>(term), _interpreter(interpreter) {}
+        // pTerm() : std::shared_ptr<Term>() {}
+
+        ~pTerm();
+
+        std::string __repr__(void *interpreter = nullptr) const;
+
+    private:
+        void _free_from_interpreter();
+        // void _free_from_interpreter() {}
+    };
+
+    typedef std::shared_ptr<Terms> pTerms;
+
+    enum PYBIND11_EXPORT TermType
+    {
+        ATOM = 0,
+        STATEMENT = 1,
+        COMPOUND = 2,
+        INTERVAL = -1,
+        OPERATION = -2,
+        VARIABLE = -3
+    };
+
+    class PYBIND11_EXPORT Term
+    {
+    public:
+        /* for statement */
+        pTerm subject;
+        pTerm predicate;
+        Copula copula = COPULA::None;
+
+        /* for compound */
+        Connector connector = CONNECTOR::None;
+        pTerms terms;
+
+        /* for all */
+        TermType type = TermType::ATOM;
+
+        bool is_var : 1 = false;
+        bool is_ivar : 1 = false;
+        bool is_dvar : 1 = false;
+        bool is_qvar : 1 = false;
+        bool has_var : 1 = false;  // Whether the term contains variable(s).
+        bool has_ivar : 1 = false; // Whether the term contains independent variable(s).
+        bool has_dvar : 1 = false; // Whether the term contains dependent variable(s).
+        bool has_qvar : 1 = false; // Whether the term contains query variable(s).
+
+        bool is_closed : 1 = true; // Whether the term is closed or open in terms of variable.
+        bool is_interval : 1 = false;
+        bool is_operation : 1 = false;
+
+        bool is_higher_order : 1 = false;
+
+        bool is_hashed : 1 = false;
+        size_t hash_value = 0;
+
+        int complexity = 1; // The complexity of the term. Read only.
+
+        pIndexVar _vars_independent = IndexVar::create();
+        pIndexVar _vars_dependent = IndexVar::create();
+        pIndexVar _vars_query = IndexVar::create();
+
+        // Term(int hash_value);
+        // Term(char *_word);
+        // string word;
+        Term() : hash_value(Hash{}(std::initializer_list<size_t>{(size_t)TermType::ATOM, (size_t)this})), is_hashed(true){};
+        Term(const TermType _type) : type(_type) {}
+        virtual ~Term() = default; // `pTerm` owns variables, statements, ... as `Term`
+        // ~Term()
+        // {
+        //     std::cout << (size_t)this << " Term freed" << std::endl;
+        // }
+        size_t __hash__()
+        {
+            return this->is_hashed ? this->hash_value : this->do_hashing();
+        }
+
+        virtual size_t do_hashing()
+        {
+            this->hash_value = Hash{}(std::initializer_list<size_t>{(size_t)TermType::ATOM, (size_t)this});
+            this->is_hashed = true;
+            return this->hash_value;
+        }
+
+        inline bool is_atom() const { return this->type == TermType::ATOM; }
+        inline bool is_statement() const { return this->type == TermType::STATEMENT; }
+        inline bool is_compound() const { return this->type == TermType::COMPOUND; }
+
+        static pTerm create()
+        {
+            auto term = new Term();
+            // std::cout << "create Term " << (size_t)term << std::endl;
+            return pTerm(term);
+        }
+
+        static pTerm create(const char *word, void *interpreter = nullptr);
+
+        static pTerm clone(pTerm term);
+
+        bool operator==(Term &other);
+
+        bool operator<(Term &other);
+
+    protected:
+        template <typename _Container>
+        void _refresh_var_status(const _Container &terms)
+        {
+            this->has_var = std::any_of(terms.begin(), terms.end(), [](const pTerm &term)
+                                        { return term->has_var; });
+            this->has_ivar = std::any_of(terms.begin(), terms.end(), [](const pTerm &term)
+                                         { return term->has_ivar; });
+            this->has_dvar = std::any_of(terms.begin(), terms.end(), [](const pTerm &term)
+                                         { return term->has_dvar; });
+            this->has_qvar = std::any_of(terms.begin(), terms.end(), [](const pTerm &term)
+                                         { return term->has_qvar; });
+        }
+
+        void _init_indexvars(const std::array<pIndexVar, 3> &variables, const Terms &terms);
+
+        void _init_indexvars(const std::array<pIndexVar, 3> &variables, std::initializer_list<pTerm> terms);
+
+        void _build_indexvars()
+        {
+            if (this->has_ivar)
+                this->_vars_independent->build();
+            else
+                this->_vars_independent->_is_built = true;
+            if (this->has_dvar)
+                this->_vars_dependent->build();
+            else
+                this->_vars_dependent->_is_built = true;
+            if (this->has_qvar)
+                this->_vars_query->build();
+            else
+                this->_vars_query->_is_built = true;
+        }
+
+        std::array<pIndexVar, 3> _index_vars() const
+        {
+            return {this->_vars_independent, this->_vars_dependent, this->_vars_query};
+        }
+    };
+
+    class PYBIND11_EXPORT Iterator
+    {
+    public:
+        // using iterator_category = typename std::iterator_traits<pTerm *>::iterator_category;
+        // using value_type = typename std::iterator_traits<pTerm *>::value_type;
+        using value_type = pTerm;
+        // using reference = pTerm&;
+        // using pointer = pTerm*;
+        using difference_type = std::ptrdiff_t;
+        using iterator_category = std::input_iterator_tag;
+
+    public:
+        Iterator(const Iterator &iterator)
+        {
+            *this = iterator;
+            if (this->_is_commutative)
+                it_ = new auto(*(std::set<pTerm>::iterator *)(iterator.it_));
+            else
+                it_ = new auto(*(std::vector<pTerm>::iterator *)(iterator.it_));
+        }
+        Iterator(std::vector<pTerm>::const_iterator it) : it_((void *)new auto(it)), _is_commutative(false) {}
+        Iterator(std::set<pTerm>::iterator it) : it_((void *)new auto(it)), _is_commutative(true) {}
+
+        ~Iterator()
+        {
+            if (it_ == nullptr)
+                return;
+            if (this->_is_commutative)
+                delete ((std::vector<pTerm>::iterator *)it_);
+            else
+                delete ((std::set<pTerm>::iterator *)it_);
+            it_ = nullptr;
+        }
+
+        const pTerm &operator*()
+        {
+            if (this->_is_commutative)
+                return **((std::set<pTerm>::iterator *)it_);
+            else
+                return **((std::vector<pTerm>::iterator *)it_);
+        }
+
+        Iterator &operator++()
+        {
+            if (this->_is_commutative)
+                (*((std::set<pTerm>::iterator *)it_))++;
+            else
+                (*((std::vector<pTerm>::iterator *)it_))++;
+            return *this;
+        }
+
+        Iterator &operator++(int)
+        {
+            return ++(*this);
+        }
+
+        bool operator!=(const Iterator &other) const
+        {
+            if (this->_is_commutative)
+                return (*((std::set<pTerm>::iterator *)this->it_)) != (*((std::set<pTerm>::iterator *)other.it_));
+            else
+                return (*((std::vector<pTerm>::iterator *)this->it_)) != (*((std::vector<pTerm>::iterator *)other.it_));
+        }
+
+        bool operator==(const Iterator &other) const
+        {
+            if (this->_is_commutative)
+                return (*((std::set<pTerm>::iterator *)this->it_)) == (*((std::set<pTerm>::iterator *)other.it_));
+            else
+                return (*((std::vector<pTerm>::iterator *)this->it_)) == (*((std::vector<pTerm>::iterator *)other.it_));
+        }
+
+        Iterator operator+(int n) const
+        {
+            if (this->_is_commutative)
+            {
+                std::set<pTerm>::iterator newIt = *(std::set<pTerm>::iterator *)it_;
+                std::advance(newIt, n);
+                return Iterator(newIt);
+            }
+            else
+            {
+                std::vector<pTerm>::iterator newIt = *(std::vector<pTerm>::iterator *)it_;
+                std::advance(newIt, n);
+                return Iterator(newIt);
+            }
+        }
+        Iterator operator-(int n) const
+        {
+            if (this->_is_commutative)
+            {
+                std::set<pTerm>::iterator newIt = *(std::set<pTerm>::iterator *)it_;
+                std::advance(newIt, -n);
+                return Iterator(newIt);
+            }
+            else
+            {
+                std::vector<pTerm>::iterator new_it = *(std::vector<pTerm>::iterator *)it_;
+                std::advance(new_it, -n);
+                return Iterator(new_it);
+            }
+        }
+
+    private:
+        bool _is_commutative;
+        void *it_;
+    };
+
+    class PYBIND11_EXPORT Terms
+    {
+    public:
+        struct compare
+        {
+            bool operator()(const pTerm &a, const pTerm &b) const
+            {
+                auto &term1 = *a;
+                auto &term2 = *b;
+                return term1 < term2;
+                // return a < b;
+            }
+        };
+
+    public:
+        // std::vector<pTerm> terms;
+        std::vector<pTerm> terms_ordered;
+        std::set<pTerm, compare> terms_unordered;
+
+        // IndexVar _vars_independent = IndexVar();
+        // IndexVar _vars_dependent = IndexVar();
+        // IndexVar _vars_query = IndexVar();
+
+        bool _is_commutative;
+
+        Terms(bool is_commutative) : _is_commutative(is_commutative) {}
+
+        // Terms(std::list<pTerm> terms, bool is_commutative);
+        Terms(std::list<pTerm> terms, bool is_commutative) : _is_commutative(is_commutative)
+        {
+            this->fill_terms(terms);
+        }
+        template <typename _Compare>
+        Terms(std::set<pTerm, _Compare> terms, bool is_commutative) : _is_commutative(is_commutative)
+        {
+            this->fill_terms(terms);
+        }
+        Terms(std::vector<pTerm> &terms, bool is_commutative) : _is_commutative(is_commutative)
+        {
+            this->fill_terms(terms);
+        }
+
+        Terms(std::initializer_list<pTerm> terms, bool is_commutative) : _is_commutative(is_commutative)
+        {
+            this->fill_terms(terms);
+        }
+
+        Terms(Terms &terms, bool is_commutative) : _is_commutative(is_commutative)
+        {
+            this->fill_terms(terms);
+        }
+
+        inline static pTerms create(bool is_commutative)
+        {
+            return pTerms(new Terms(is_commutative));
+        }
+
+        template <typename _T>
+        inline static pTerms create(_T terms, bool is_commutative)
+        {
+            return pTerms(new Terms(terms, is_commutative));
+        }
+
+        inline static auto intersection(std::vector<pTerms> terms_all)
+        {
+            if (terms_all.size() == 0)
+                throw std::runtime_error("Empty input.");
+
+            auto it = terms_all.begin();
+            std::set<pTerm, compare> intersection((*it)->terms_unordered);
+            for (++it; it != terms_all.end(); ++it)
+            {
+                const auto &terms = *(*it);
+                if (!terms._is_commutative)
+                    throw std::runtime_error("Each `Terms` should be commutative.");
+                std::set<pTerm, compare> temp{};
+                std::set_intersection(
+                    intersection.begin(), intersection.end(),
+                    terms.begin(), terms.end(),
+                    std::inserter(temp, temp.begin()), compare{});
+                intersection = temp;
+            }
+            return Terms::create(intersection, true);
+        }
+
+        inline static auto union_(std::vector<pTerms> terms_all)
+        {
+            if (terms_all.size() == 0)
+                throw std::runtime_error("Empty input.");
+
+            auto it = terms_all.begin();
+            std::set<pTerm, compare> union_((*it)->terms_unordered);
+            for (++it; it != terms_all.end(); ++it)
+            {
+                const auto &terms = *(*it);
+                if (!terms._is_commutative)
+                    throw std::runtime_error("Each `Terms` should be commutative.");
+                std::set<pTerm, compare> temp;
+                std::set_union(
+                    union_.begin(), union_.end(),
+                    terms.begin(), terms.end(),
+                    std::inserter(temp, temp.begin()), compare{});
+                union_ = temp;
+            }
+            return Terms::create(union_, true);
+        }
+
+        inline static auto difference(std::vector<pTerms> terms_all)
+        {
+            if (terms_all.size() == 0)
+                throw std::runtime_error("Empty input.");
+
+            auto it = terms_all.begin();
+            std::set<pTerm, compare> difference((*it)->terms_unordered);
+            for (++it; it != terms_all.end(); ++it)
+            {
+                const auto &terms = *(*it);
+                if (!terms._is_commutative)
+                    throw std::runtime_error("Each `Terms` should be commutative.");
+                std::set<pTerm, compare> temp;
+                std::set_difference(
+                    difference.begin(), difference.end(),
+                    terms.begin(), terms.end(),
+                    std::inserter(temp, temp.begin()), compare{});
+                difference = temp;
+            }
+            return Terms::create(difference, true);
+        }
+
+        inline void push_back(pTerm term)
+        {
+            if (this->_is_commutative)
+                this->terms_unordered.insert(term);
+            else
+                this->terms_ordered.push_back(term);
+        }
+
+        inline auto size()
+        {
+            if (this->_is_commutative)
+                return this->terms_unordered.size();
+            else
+                return this->terms_ordered.size();
+        }
+
+        Iterator begin() const
+        {
+            if (this->_is_commutative)
+                return Iterator(this->terms_unordered.begin());
+            else
+                return Iterator(this->terms_ordered.begin());
+        }
+
+        Iterator end() const
+        {
+            if (this->_is_commutative)
+                return Iterator(this->terms_unordered.end());
+            else
+                return Iterator(this->terms_ordered.end());
+        }
+
+        operator std::vector<pTerm>() const
+        {
+            if (this->_is_commutative)
+                return std::vector<pTerm>(this->terms_unordered.begin(), this->terms_unordered.end());
+            else
+                return this->terms_ordered;
+        }
+
+    private:
+        template <typename _T>
+        void fill_terms(_T terms)
+        {
+            if (this->_is_commutative)
+            {
+                for (auto it = terms.begin(); it != terms.end(); it++)
+                {
+                    this->terms_unordered.insert((*it));
+                }
+            }
+            else
+            {
+                for (auto it = terms.begin(); it != terms.end(); it++)
+                {
+                    this->terms_ordered.push_back((*it));
+                }
+            }
+        }
+    };
+    void pybind_term(py::module &m);
+    void pybind_terms(py::module &m);
+
+} // namespace Term
+// #include "Term.inl"
+
 #endif // _TERM_H
\ No newline at end of file
-- 
2.43.0


From 28a039e3a2ce853d996aa8b93214d6b646f3c749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:12 +0000
Subject: [PATCH 12/50] fix: compare dependent and query variables by their own
 index

Term equality read the independent index of a dependent or query variable,
which does not exist.
---
 Narsese/include/Term.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Narsese/include/Term.inl b/Narsese/include/Term.inl
index 0660714..1e87d26 100644
--- a/Narsese/include/Term.inl
+++ b/Narsese/include/Term.inl
@@ -69,9 +69,9 @@ namespace TERM
             if (this->is_var || other.is_var)
             {
                 if (this->is_qvar && other.is_qvar)
-                    return *(this->_vars_independent->indices[0]) == *(other._vars_query->indices[0]);
+                    return *(this->_vars_query->indices[0]) == *(other._vars_query->indices[0]);
                 else if (this->is_dvar && other.is_dvar)
-                    return *(this->_vars_independent->indices[0]) == *(other._vars_dependent->indices[0]);
+                    return *(this->_vars_dependent->indices[0]) == *(other._vars_dependent->indices[0]);
                 else if (this->is_ivar && other.is_ivar)
                     return *(this->_vars_independent->indices[0]) == *(other._vars_independent->indices[0]);
             }
-- 
2.43.0


From e2c683d418aff880c642524f11d57085f58cad6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:36 +0000
Subject: [PATCH 13/50] fix: order terms of equal hash lexicographically

The comparison was true both ways for terms like <$1 --> $2> and <$2 --> $1>,
and false both ways for different terms without variables whose hashes
collide, so sets kept duplicates or lost members.
---
 Narsese/include/Term.inl | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/Narsese/include/Term.inl b/Narsese/include/Term.inl
index 1e87d26..fa24b0b 100644
--- a/Narsese/include/Term.inl
+++ b/Narsese/include/Term.inl
@@ -121,9 +121,7 @@ namespace TERM
         if (hash(*this) != hash(other))
             return hash(*this) < hash(other);
 
-        if (!this->has_var && !other.has_var)
-            return hash(*this) < hash(other);
-        else if (!this->has_var && other.has_var)
+        if (!this->has_var && other.has_var)
             return false;
         else if (this->has_var && !other.has_var)
             return true;
@@ -149,13 +147,11 @@ namespace TERM
             auto &term1 = *this;
             auto &term2 = other;
 
-            if (*(term1.subject) < *(term2.subject))
-                return true;
-            if (*(term1.predicate) < *(term2.predicate))
-                return true;
-            if (term1.copula < term2.copula)
-                return true;
-            return false;
+            if (!(*(term1.subject) == *(term2.subject)))
+                return *(term1.subject) < *(term2.subject);
+            if (!(*(term1.predicate) == *(term2.predicate)))
+                return *(term1.predicate) < *(term2.predicate);
+            return term1.copula < term2.copula;
         }
         else if (this->is_compound())
         {
@@ -169,8 +165,8 @@ namespace TERM
             {
                 auto &term1 = **it1;
                 auto &term2 = **it2;
-                if ((term1 < term2))
-                    return true;
+                if (!(term1 == term2))
+                    return term1 < term2;
             }
             return false;
             // throw std::logic_error("TODO");
-- 
2.43.0


From 61a5c302f283a978264758e614629d6a5d4411fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:37 +0000
Subject: [PATCH 14/50] fix: connect each kind of variable to its own kind

All three index lists of a term were built from the independent variables of
its components.
---
 Narsese/include/Term.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Narsese/include/Term.inl b/Narsese/include/Term.inl
index fa24b0b..fe7ad6e 100644
--- a/Narsese/include/Term.inl
+++ b/Narsese/include/Term.inl
@@ -21,7 +21,7 @@ namespace TERM
             auto it = indexvars2.begin();
             for (const auto indexvar1 : variables)
             {
-                auto indexvar2 = *it;
+                auto indexvar2 = *it++;
                 IndexVar::connect(indexvar1, indexvar2, false);
             }
         }
@@ -35,7 +35,7 @@ namespace TERM
             auto it = indexvars2.begin();
             for (const auto indexvar1 : variables)
             {
-                auto indexvar2 = *it;
+                auto indexvar2 = *it++;
                 IndexVar::connect(indexvar1, indexvar2, false);
             }
         }
-- 
2.43.0


From 38e1edfd98cda914bf27f67efb5402562cfba547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:00 +0000
Subject: [PATCH 15/50] fix: call only <(*, ...) --> ^op> an operation

Any statement with an operation on its right was rendered as one, which read
its subject as a compound whatever it was (<A --> ^go> crashed) and lost its
copula.
---
 Narsese/include/Statement.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Narsese/include/Statement.inl b/Narsese/include/Statement.inl
index f559a38..66d99ee 100644
--- a/Narsese/include/Statement.inl
+++ b/Narsese/include/Statement.inl
@@ -23,9 +23,9 @@ namespace STATEMENT
         // components = unordered_set<Term*>{&subject, &predicate};
 
         this->is_higher_order = COPULA::is_higher_order(copula);
-        this->is_operation = _predicate->is_operation;
+        this->is_operation = false;
 
-        if (this->predicate->is_atom() && this->predicate->is_operation && this->subject->is_compound() && this->subject->connector == CONNECTOR::PRODUCT)
+        if (this->copula == Copula::Inheritance && this->predicate->is_atom() && this->predicate->is_operation && this->subject->is_compound() && this->subject->connector == CONNECTOR::PRODUCT)
             this->is_operation = true;
 
         // is_operation = predicate.is_operation;
-- 
2.43.0


From a5d08b7f62d0dbcbf9efceed7da2bbc90287b22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:00 +0000
Subject: [PATCH 16/50] fix: do not dissolve a compound into its parent

{[A, B]} became {A, B} and (&&, (||, A, B), (||, A, B)) became (&&, A, B);
the set that replaces (&, {A, B}, {B, C}) lost its braces, and sets without
common members left an empty compound, which crashed when rendered.
---
 Narsese/src/Compound.cpp | 700 +++++++++++++++++++--------------------
 1 file changed, 350 insertions(+), 350 deletions(-)

diff --git a/Narsese/src/Compound.cpp b/Narsese/src/Compound.cpp
index a99f6ff..540a967 100755
--- a/Narsese/src/Compound.cpp
+++ b/Narsese/src/Compound.cpp
@@ -1,350 +1,350 @@
-// #include "../include/Narsese.h"
-#include "../include/Compound.h"
-#include "utils/hash.h"
-#include <map>
-#include <numeric>
-#include <tuple>
-#include <unordered_map>
-#include <vector>
-#include "Interpreter/include/Interpreter.hpp"
-
-using namespace COMPOUND;
-using std::tuple;
-using std::vector;
-using UTILS::hash;
-
-/*
-The `compounds` should have the same `connector`.
-(&, {A, B}, {B, C}) ====> {B}
-(|, {A, B}, {B, C}) ====> {A, B, C}
-(&, [A, B], [B, C]) ====> [A, B, C]
-(|, [A, B], [B, C]) ====> [B]
-(-, {A, B}, {B, C}) ====> {A}
-(~, [A, B], [B, C]) ====> [A]
-
-It is ensured that the concerned components have no further nested compound which should be unfolded, because if there were, it would be unfolded when building its parent compound.
-
-Make sure all the `compounds` have the same `connector`
-*/
-pTerms _merge_compounds(Connector connector_parent, Connector connector, const vector<pTerm> &compounds)
-{
-    auto get_all_terms = [connector_parent](const vector<pTerm> &input, std::vector<pTerms> &output)
-    {
-        for (auto term : input)
-        {
-            auto &cmpd = (Compound &)*term;
-            const auto components = cmpd.terms;
-            output.push_back(components);
-        }
-    };
-
-    if (connector_parent == Connector::ExtensionalIntersection)
-    {
-        if (connector == Connector::ExtensionalSet)
-        {
-            std::vector<pTerms> terms_all;
-            get_all_terms(compounds, terms_all);
-            return Terms::intersection(terms_all);
-        }
-        else if (connector == Connector::IntensionalSet)
-        {
-            std::vector<pTerms> terms_all;
-            get_all_terms(compounds, terms_all);
-            return Terms::union_(terms_all);
-        }
-        else
-        {
-            return nullptr; // Return nullptr indicating no merge is needed
-        }
-    }
-    else if (connector_parent == Connector::IntensionalIntersection)
-    {
-        if (connector == Connector::ExtensionalSet)
-        {
-            std::vector<pTerms> terms_all;
-            get_all_terms(compounds, terms_all);
-            return Terms::union_(terms_all);
-        }
-        else if (connector == Connector::IntensionalSet)
-        {
-            std::vector<pTerms> terms_all;
-            get_all_terms(compounds, terms_all);
-            return Terms::intersection(terms_all);
-        }
-        else
-        {
-            return nullptr; // Return nullptr indicating no merge is needed
-        }
-    }
-    else if (connector_parent == Connector::ExtensionalDifference && connector == Connector::ExtensionalSet)
-    {
-        std::vector<pTerms> terms_all;
-        get_all_terms(compounds, terms_all);
-        return Terms::difference(terms_all);
-    }
-    else if (connector_parent == Connector::IntensionalDifference && connector == Connector::IntensionalSet)
-    {
-        std::vector<pTerms> terms_all;
-        get_all_terms(compounds, terms_all);
-        return Terms::difference(terms_all);
-    }
-    else if (connector_parent == connector)
-    {
-        std::vector<pTerm> terms_all;
-        for (auto term : compounds)
-        {
-            auto &cmpd = (Compound &)*term;
-            const auto components = cmpd.terms;
-            terms_all.insert(terms_all.end(), components->begin(), components->end());
-        }
-        return Terms::create(terms_all, CONNECTOR::is_commutative(connector));
-    }
-    else
-    {
-        return nullptr; // Return nullptr indicating no merge is needed
-    }
-}
-
-/*
-pre-process the terms, return the connecor of this compound and the set/list of components.
-For `{{A, B}, {B, C}}`, return `{, A, B, C`;
-    proof: {{A, B}, {B, C}}={(|, {A}, {B}), (|, {B}, {C})}=(|, (|, {A}, {B}), (|, {B}, {C}))=(|, {A}, {B}, {C})={A, B, C}
-For `[[A, B], [B, C]]`, return `[, A, B, C`;
-For `(con, (con, A, B), (con, B, C))`, return `con, A, B, C` if con is commutative, else return `con, A, B, B, C`
-For `(|, {A, B}, {B, C})`, return `{, A, B, C`;
-For `(&, [A, B], [B, C])`, return `[, A, B, C`;
-For `(con, A, B, C)`, return `con, A, B, C`;
-For `{{A, B}, {B, C}, D}`, return `{, {A, B, C}, D`;
-
-Returns:
-    connector, terms
-
-*/
-std::tuple<Connector, pTerms> prepocess_terms(Compound &self, Connector connector_parent, pTerms terms)
-{
-    // static const std::set<Connector> set1{Connector::Product, Connector::IntensionalImage, Connector::ExtensionalImage, Connector::ExtensionalDifference, Connector::IntensionalDifference};
-    auto is_commutative = CONNECTOR::is_commutative(connector_parent);
-    if (!CONNECTOR::is_reducible(connector_parent))
-    {
-        /*
-        For example, in the test-case `nal6.22.nal`, there is a statement
-        `<(*,(*,(*,0))) --> num>`
-        */
-        return {connector_parent, terms};
-    }
-    if (is_commutative)
-    {
-        /*
-        if there are terms with the same commutative connector, they should be combined together
-        */
-        // auto categories = std::map<Connector, std::vector<pTerm>>();
-        // auto categories = std::unordered_map<Connector, std::vector<pTerm>>();
-        std::unordered_map<Connector, std::vector<pTerm>> categories{};
-        pTerms _terms;
-        Connector _connector;
-        /* Step 1. Categorize the terms according to their connectors. */
-
-        pTerms terms2 = terms;
-        pTerms terms = pTerms(new Terms(is_commutative));
-        for (auto term : *terms2)
-        {
-            if (term->is_compound() && term->connector == connector_parent)
-                for (auto _term : *(term->terms))
-                    terms->push_back(_term);
-            else
-                terms->push_back(term);
-        }
-
-        for (auto term : *terms)
-        {
-            _connector = Connector::None; // `None` means the connector of the term is not cared about, because it just needs to be added into the parent compound-term as a whole.
-            if (term->is_compound())
-            {
-                auto &cmpd = (Compound &)*term;
-                if (cmpd.is_commutative)
-                    _connector = cmpd.connector;
-            }
-            if (!categories.contains(_connector))
-                categories[_connector] = std::vector<pTerm>();
-            auto &category = categories[_connector];
-            category.push_back(term);
-        }
-
-        /* Step 2. */
-        std::vector<std::tuple<Connector, pTerms>> terms_norm;
-        for (const auto &pair : categories)
-        {
-            auto &connector = pair.first;
-            auto &compounds = pair.second;
-            if (connector == Connector::None)
-            {
-                for (auto &compound : compounds)
-                    terms_norm.push_back({connector, Terms::create(std::vector{compound}, true)});
-                continue;
-            }
-
-            /* Now, `connector` is not `None`. */
-            auto terms_merged = _merge_compounds(connector_parent, connector, compounds);
-            if (terms_merged == nullptr)
-            {
-                for (auto &compound : compounds)
-                    terms_norm.push_back({connector, compound->terms});
-                continue;
-            }
-
-            /*
-            Now, `terms_merged` is not `None`.
-
-            However, the compounds (in `terms_merged`), as components, shouldn't further be constructed as a compound term immediately, as there are some cases where there is only one compound and the parent connector should be set as the current single compound connector, for example, (|, {A, B}, {C, D}) is handled and `terms_merged` is `A, B, C, D`. In this case, if this function returned a compound `{A, B, C, D}`, the parent compound would be (&, {A, B, C, D}), which is obviously incorrect.
-
-            Hence, the final construction of the compound is out of this function.
-            */
-            terms_norm.push_back({connector, terms_merged});
-        }
-
-        /* Step 3. */
-        if (terms_norm.size() > 1)
-        {
-            std::vector<pTerm> _terms_all;
-            for (auto &pair : terms_norm)
-            {
-                std::tie(_connector, _terms) = pair;
-                if (_connector == Connector::None || _connector == connector_parent)
-                {
-                    _terms_all.insert(_terms_all.end(), _terms->begin(), _terms->end());
-                }
-                else if (CONNECTOR::check_valid(_connector, _terms->size()))
-                {
-                    auto _term = Compound::create(_connector, _terms);
-                    _terms_all.push_back(_term);
-                }
-            }
-            if (_terms_all.size() > 1)
-            {
-                return {connector_parent, Terms::create(_terms_all, true)};
-            }
-            else // _terms_all.size() == 1
-            {
-                auto _term = *_terms_all.begin();
-                if (_term->is_compound())
-                {
-                    auto &_cmpd = (Compound &)(*_term);
-                    auto _connector = _cmpd.connector;
-                    terms_norm = {{_connector, _cmpd.terms}};
-                }
-                else
-                {
-                    terms_norm = {{Connector::None, Terms::create(_terms_all, true)}};
-                }
-            }
-        }
-
-        /* Step 4. */
-        {
-            /*
-            Now, there is only one term in `terms_norm`.
-            */
-            std::tie(_connector, _terms) = *terms_norm.begin();
-            /*
-            the connector returned depends on the types of `connector` and `connector_parent`. For example,
-                if `connector_parent` is `&` and `connector` is `{`, the return `connector`;
-                if `connector_parent` is `|` and `connector` is `{`, the return `connector`;
-                if `connector_parent` is `&` and `connector` is `&`, it makes no difference returning either `connector` or `connector_parent`;
-            */
-            if ((_connector == Connector::ExtensionalSet && connector_parent == Connector::IntensionalIntersection) ||
-                (_connector == Connector::IntensionalSet && connector_parent == Connector::ExtensionalIntersection))
-            {
-                return {_connector, Terms::create(*_terms, true)};
-            }
-
-            /* otherwise, return `connector_parent` as the connector. */
-            return {connector_parent, Terms::create(*_terms, true)};
-            // return connector_parent, Terms(terms, is_commutative=True, is_input=is_input)
-        }
-    }
-    else
-    {
-        /*
-        E.g. (&/, (&/, A, B), (&|, C, D), E) will be converted to (&/, A, B, (&|, C, D), E)
-        */
-        auto expanded_terms = pTerms(new Terms(is_commutative));
-
-        for (const auto &term : *terms)
-        {
-            if (term->is_compound() && term->connector == connector_parent)
-            {
-                auto &cmpd = (Compound &)*term;
-                for (const auto &component : cmpd.components())
-                {
-                    expanded_terms->push_back(component);
-                }
-            }
-            else
-            {
-                expanded_terms->push_back(term);
-            }
-        }
-        return {connector_parent, expanded_terms};
-    }
-    return {connector_parent, terms};
-}
-
-Compound::Compound(Connector connector, pTerms terms, bool is_input) : Term(TermType::COMPOUND)
-{
-    this->is_hashed = false;
-
-    // this->type = TermType::COMPOUND;
-    this->connector = connector;
-    pTerms _terms;
-    std::tie(this->connector, _terms) = prepocess_terms(*this, connector, terms);
-    this->is_commutative = CONNECTOR::is_commutative(this->connector);
-    if (is_input)
-    {
-        this->terms = _terms;
-    }
-    else
-    {
-        this->terms = Terms::create(this->is_commutative);
-        for (auto &_term : *_terms)
-            this->terms->push_back(Term::clone(_term));
-    }
-    this->hash_value = hash(*this);
-    this->complexity = std::accumulate(this->terms->begin(), this->terms->end(), 0,
-                                       [](int sum, const auto &term)
-                                       { return sum + term->complexity; });
-
-    this->_refresh_var_status(*this->terms);
-    this->_init_indexvars(this->_index_vars(), *this->terms);
-    this->_build_indexvars();
-}
-
-Compound::Compound(Connector connector, std::list<pTerm> &terms, bool is_input) : Compound::Compound(connector, pTerms(new Terms(terms, CONNECTOR::is_commutative(connector))), is_input)
-{
-}
-
-Compound::Compound(Connector connector, std::vector<pTerm> &terms, bool is_input) : Compound::Compound(connector, pTerms(new Terms(terms, CONNECTOR::is_commutative(connector))), is_input)
-{
-}
-
-Compound::Compound(Connector connector, std::initializer_list<pTerm> terms, bool is_input) : Compound::Compound(connector, pTerms(new Terms(terms, CONNECTOR::is_commutative(connector))), is_input)
-{
-}
-
-void COMPOUND::pybind_compound(py::module &m)
-{
-    py::class_<COMPOUND::pCompound, TERM::pTerm>(m, "Compound")
-        .def(py::init(
-            [](CONNECTOR::Connector connector, py::args args)
-            {
-                std::vector<TERM::pTerm> terms{};
-                for (auto arg : args)
-                    terms.push_back(py::cast<TERM::pTerm>(arg));
-                return COMPOUND::Compound::create(connector, terms);
-            }))
-        // .def("__repr__", &TERM::pTerm::__repr__, py::arg("interpreter") = (void *)&INTERPRETER::interpreter);
-        .def("__repr__", [](const pCompound &self, void* interpreter=nullptr){
-                if (interpreter == nullptr)
-                    interpreter = (void *)&INTERPRETER::interpreter;
-                return self.__repr__(interpreter);
-            });
-}
+// #include "../include/Narsese.h"
+#include "../include/Compound.h"
+#include "utils/hash.h"
+#include <map>
+#include <numeric>
+#include <tuple>
+#include <unordered_map>
+#include <vector>
+#include "Interpreter/include/Interpreter.hpp"
+
+using namespace COMPOUND;
+using std::tuple;
+using std::vector;
+using UTILS::hash;
+
+/*
+The `compounds` should have the same `connector`.
+(&, {A, B}, {B, C}) ====> {B}
+(|, {A, B}, {B, C}) ====> {A, B, C}
+(&, [A, B], [B, C]) ====> [A, B, C]
+(|, [A, B], [B, C]) ====> [B]
+(-, {A, B}, {B, C}) ====> {A}
+(~, [A, B], [B, C]) ====> [A]
+
+It is ensured that the concerned components have no further nested compound which should be unfolded, because if there were, it would be unfolded when building its parent compound.
+
+Make sure all the `compounds` have the same `connector`
+*/
+pTerms _merge_compounds(Connector connector_parent, Connector connector, const vector<pTerm> &compounds)
+{
+    auto get_all_terms = [connector_parent](const vector<pTerm> &input, std::vector<pTerms> &output)
+    {
+        for (auto term : input)
+        {
+            auto &cmpd = (Compound &)*term;
+            const auto components = cmpd.terms;
+            output.push_back(components);
+        }
+    };
+
+    if (connector_parent == Connector::ExtensionalIntersection)
+    {
+        if (connector == Connector::ExtensionalSet)
+        {
+            std::vector<pTerms> terms_all;
+            get_all_terms(compounds, terms_all);
+            return Terms::intersection(terms_all);
+        }
+        else if (connector == Connector::IntensionalSet)
+        {
+            std::vector<pTerms> terms_all;
+            get_all_terms(compounds, terms_all);
+            return Terms::union_(terms_all);
+        }
+        else
+        {
+            return nullptr; // Return nullptr indicating no merge is needed
+        }
+    }
+    else if (connector_parent == Connector::IntensionalIntersection)
+    {
+        if (connector == Connector::ExtensionalSet)
+        {
+            std::vector<pTerms> terms_all;
+            get_all_terms(compounds, terms_all);
+            return Terms::union_(terms_all);
+        }
+        else if (connector == Connector::IntensionalSet)
+        {
+            std::vector<pTerms> terms_all;
+            get_all_terms(compounds, terms_all);
+            return Terms::intersection(terms_all);
+        }
+        else
+        {
+            return nullptr; // Return nullptr indicating no merge is needed
+        }
+    }
+    else if (connector_parent == Connector::ExtensionalDifference && connector == Connector::ExtensionalSet)
+    {
+        std::vector<pTerms> terms_all;
+        get_all_terms(compounds, terms_all);
+        return Terms::difference(terms_all);
+    }
+    else if (connector_parent == Connector::IntensionalDifference && connector == Connector::IntensionalSet)
+    {
+        std::vector<pTerms> terms_all;
+        get_all_terms(compounds, terms_all);
+        return Terms::difference(terms_all);
+    }
+    else if (connector_parent == connector)
+    {
+        std::vector<pTerm> terms_all;
+        for (auto term : compounds)
+        {
+            auto &cmpd = (Compound &)*term;
+            const auto components = cmpd.terms;
+            terms_all.insert(terms_all.end(), components->begin(), components->end());
+        }
+        return Terms::create(terms_all, CONNECTOR::is_commutative(connector));
+    }
+    else
+    {
+        return nullptr; // Return nullptr indicating no merge is needed
+    }
+}
+
+/*
+pre-process the terms, return the connecor of this compound and the set/list of components.
+For `{{A, B}, {B, C}}`, return `{, A, B, C`;
+    proof: {{A, B}, {B, C}}={(|, {A}, {B}), (|, {B}, {C})}=(|, (|, {A}, {B}), (|, {B}, {C}))=(|, {A}, {B}, {C})={A, B, C}
+For `[[A, B], [B, C]]`, return `[, A, B, C`;
+For `(con, (con, A, B), (con, B, C))`, return `con, A, B, C` if con is commutative, else return `con, A, B, B, C`
+For `(|, {A, B}, {B, C})`, return `{, A, B, C`;
+For `(&, [A, B], [B, C])`, return `[, A, B, C`;
+For `(con, A, B, C)`, return `con, A, B, C`;
+For `{{A, B}, {B, C}, D}`, return `{, {A, B, C}, D`;
+
+Returns:
+    connector, terms
+
+*/
+std::tuple<Connector, pTerms> prepocess_terms(Compound &self, Connector connector_parent, pTerms terms)
+{
+    // static const std::set<Connector> set1{Connector::Product, Connector::IntensionalImage, Connector::ExtensionalImage, Connector::ExtensionalDifference, Connector::IntensionalDifference};
+    auto is_commutative = CONNECTOR::is_commutative(connector_parent);
+    if (!CONNECTOR::is_reducible(connector_parent))
+    {
+        /*
+        For example, in the test-case `nal6.22.nal`, there is a statement
+        `<(*,(*,(*,0))) --> num>`
+        */
+        return {connector_parent, terms};
+    }
+    if (is_commutative)
+    {
+        /*
+        if there are terms with the same commutative connector, they should be combined together
+        */
+        // auto categories = std::map<Connector, std::vector<pTerm>>();
+        // auto categories = std::unordered_map<Connector, std::vector<pTerm>>();
+        std::unordered_map<Connector, std::vector<pTerm>> categories{};
+        pTerms _terms;
+        Connector _connector;
+        /* Step 1. Categorize the terms according to their connectors. */
+
+        pTerms terms2 = terms;
+        pTerms terms = pTerms(new Terms(is_commutative));
+        for (auto term : *terms2)
+        {
+            if (term->is_compound() && term->connector == connector_parent)
+                for (auto _term : *(term->terms))
+                    terms->push_back(_term);
+            else
+                terms->push_back(term);
+        }
+
+        for (auto term : *terms)
+        {
+            _connector = Connector::None; // `None` means the connector of the term is not cared about, because it just needs to be added into the parent compound-term as a whole.
+            if (term->is_compound())
+            {
+                auto &cmpd = (Compound &)*term;
+                if (cmpd.is_commutative)
+                    _connector = cmpd.connector;
+            }
+            if (!categories.contains(_connector))
+                categories[_connector] = std::vector<pTerm>();
+            auto &category = categories[_connector];
+            category.push_back(term);
+        }
+
+        /* Step 2. */
+        std::vector<std::tuple<Connector, pTerms>> terms_norm;
+        for (const auto &pair : categories)
+        {
+            auto &connector = pair.first;
+            auto &compounds = pair.second;
+            if (connector == Connector::None)
+            {
+                for (auto &compound : compounds)
+                    terms_norm.push_back({connector, Terms::create(std::vector{compound}, true)});
+                continue;
+            }
+
+            /* Now, `connector` is not `None`. */
+            auto terms_merged = _merge_compounds(connector_parent, connector, compounds);
+            if (terms_merged == nullptr || terms_merged->size() == 0)
+            {
+                /* Each compound stays a component as a whole. */
+                for (auto &compound : compounds)
+                    terms_norm.push_back({Connector::None, Terms::create(std::vector{compound}, true)});
+                continue;
+            }
+
+            /*
+            Now, `terms_merged` is not `None`.
+
+            However, the compounds (in `terms_merged`), as components, shouldn't further be constructed as a compound term immediately, as there are some cases where there is only one compound and the parent connector should be set as the current single compound connector, for example, (|, {A, B}, {C, D}) is handled and `terms_merged` is `A, B, C, D`. In this case, if this function returned a compound `{A, B, C, D}`, the parent compound would be (&, {A, B, C, D}), which is obviously incorrect.
+
+            Hence, the final construction of the compound is out of this function.
+            */
+            terms_norm.push_back({connector, terms_merged});
+        }
+
+        /* Step 3. */
+        if (terms_norm.size() > 1)
+        {
+            std::vector<pTerm> _terms_all;
+            for (auto &pair : terms_norm)
+            {
+                std::tie(_connector, _terms) = pair;
+                if (_connector == Connector::None || _connector == connector_parent)
+                {
+                    _terms_all.insert(_terms_all.end(), _terms->begin(), _terms->end());
+                }
+                else if (CONNECTOR::check_valid(_connector, _terms->size()))
+                {
+                    auto _term = Compound::create(_connector, _terms);
+                    _terms_all.push_back(_term);
+                }
+            }
+            if (_terms_all.size() > 1)
+            {
+                return {connector_parent, Terms::create(_terms_all, true)};
+            }
+            else // _terms_all.size() == 1
+            {
+                auto _term = *_terms_all.begin();
+                if (_term->is_compound())
+                {
+                    auto &_cmpd = (Compound &)(*_term);
+                    auto _connector = _cmpd.connector;
+                    terms_norm = {{_connector, _cmpd.terms}};
+                }
+                else
+                {
+                    terms_norm = {{Connector::None, Terms::create(_terms_all, true)}};
+                }
+            }
+        }
+
+        /* Step 4. */
+        {
+            /*
+            Now, there is only one term in `terms_norm`.
+            */
+            std::tie(_connector, _terms) = *terms_norm.begin();
+            /*
+            the connector returned depends on the types of `connector` and `connector_parent`. For example,
+                if `connector_parent` is `&` and `connector` is `{`, the return `connector`;
+                if `connector_parent` is `|` and `connector` is `{`, the return `connector`;
+                if `connector_parent` is `&` and `connector` is `&`, it makes no difference returning either `connector` or `connector_parent`;
+            */
+            if (_connector != Connector::None)
+            {
+                return {_connector, Terms::create(*_terms, true)};
+            }
+
+            /* otherwise, return `connector_parent` as the connector. */
+            return {connector_parent, Terms::create(*_terms, true)};
+            // return connector_parent, Terms(terms, is_commutative=True, is_input=is_input)
+        }
+    }
+    else
+    {
+        /*
+        E.g. (&/, (&/, A, B), (&|, C, D), E) will be converted to (&/, A, B, (&|, C, D), E)
+        */
+        auto expanded_terms = pTerms(new Terms(is_commutative));
+
+        for (const auto &term : *terms)
+        {
+            if (term->is_compound() && term->connector == connector_parent)
+            {
+                auto &cmpd = (Compound &)*term;
+                for (const auto &component : cmpd.components())
+                {
+                    expanded_terms->push_back(component);
+                }
+            }
+            else
+            {
+                expanded_terms->push_back(term);
+            }
+        }
+        return {connector_parent, expanded_terms};
+    }
+    return {connector_parent, terms};
+}
+
+Compound::Compound(Connector connector, pTerms terms, bool is_input) : Term(TermType::COMPOUND)
+{
+    this->is_hashed = false;
+
+    // this->type = TermType::COMPOUND;
+    this->connector = connector;
+    pTerms _terms;
+    std::tie(this->connector, _terms) = prepocess_terms(*this, connector, terms);
+    this->is_commutative = CONNECTOR::is_commutative(this->connector);
+    if (is_input)
+    {
+        this->terms = _terms;
+    }
+    else
+    {
+        this->terms = Terms::create(this->is_commutative);
+        for (auto &_term : *_terms)
+            this->terms->push_back(Term::clone(_term));
+    }
+    this->hash_value = hash(*this);
+    this->complexity = std::accumulate(this->terms->begin(), this->terms->end(), 0,
+                                       [](int sum, const auto &term)
+                                       { return sum + term->complexity; });
+
+    this->_refresh_var_status(*this->terms);
+    this->_init_indexvars(this->_index_vars(), *this->terms);
+    this->_build_indexvars();
+}
+
+Compound::Compound(Connector connector, std::list<pTerm> &terms, bool is_input) : Compound::Compound(connector, pTerms(new Terms(terms, CONNECTOR::is_commutative(connector))), is_input)
+{
+}
+
+Compound::Compound(Connector connector, std::vector<pTerm> &terms, bool is_input) : Compound::Compound(connector, pTerms(new Terms(terms, CONNECTOR::is_commutative(connector))), is_input)
+{
+}
+
+Compound::Compound(Connector connector, std::initializer_list<pTerm> terms, bool is_input) : Compound::Compound(connector, pTerms(new Terms(terms, CONNECTOR::is_commutative(connector))), is_input)
+{
+}
+
+void COMPOUND::pybind_compound(py::module &m)
+{
+    py::class_<COMPOUND::pCompound, TERM::pTerm>(m, "Compound")
+        .def(py::init(
+            [](CONNECTOR::Connector connector, py::args args)
+            {
+                std::vector<TERM::pTerm> terms{};
+                for (auto arg : args)
+                    terms.push_back(py::cast<TERM::pTerm>(arg));
+                return COMPOUND::Compound::create(connector, terms);
+            }))
+        // .def("__repr__", &TERM::pTerm::__repr__, py::arg("interpreter") = (void *)&INTERPRETER::interpreter);
+        .def("__repr__", [](const pCompound &self, void* interpreter=nullptr){
+                if (interpreter == nullptr)
+                    interpreter = (void *)&INTERPRETER::interpreter;
+                return self.__repr__(interpreter);
+            });
+}
-- 
2.43.0


From fc8bf17c783b119a6a40d58747b00360f329e560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:00 +0000
Subject: [PATCH 17/50] fix: refuse a compound without components from Python

It dereferenced the first of no components.
---
 Narsese/src/Compound.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Narsese/src/Compound.cpp b/Narsese/src/Compound.cpp
index 540a967..b92f6fb 100755
--- a/Narsese/src/Compound.cpp
+++ b/Narsese/src/Compound.cpp
@@ -339,6 +339,8 @@ void COMPOUND::pybind_compound(py::module &m)
                 std::vector<TERM::pTerm> terms{};
                 for (auto arg : args)
                     terms.push_back(py::cast<TERM::pTerm>(arg));
+                if (terms.empty())
+                    throw py::value_error("A compound needs at least one component.");
                 return COMPOUND::Compound::create(connector, terms);
             }))
         // .def("__repr__", &TERM::pTerm::__repr__, py::arg("interpreter") = (void *)&INTERPRETER::interpreter);
-- 
2.43.0


From daa41e23882ffbee633c9b41dcbcf11f22b38bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:22 +0000
Subject: [PATCH 18/50] fix: render an operation without arguments as (^op)

(^op, ) is rejected by the parser.
---
 Interpreter/src/Interpreter.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Interpreter/src/Interpreter.cpp b/Interpreter/src/Interpreter.cpp
index 3c44eba..16fa339 100644
--- a/Interpreter/src/Interpreter.cpp
+++ b/Interpreter/src/Interpreter.cpp
@@ -142,13 +142,17 @@ string Interpreter::interpret(Term &term, bool colored)
             auto &cmpd = (Compound &)*stat.subject;
             if (colored)
             {
-                ss << fmt::format(color_parenthesis, "(") << str_op << fmt::format(color_seperator, ", ");
+                ss << fmt::format(color_parenthesis, "(") << str_op;
+                if (cmpd.components().begin() != cmpd.components().end())
+                    ss << fmt::format(color_seperator, ", ");
                 append_strs(ss, cmpd.components());
                 ss << fmt::format(color_parenthesis, ")");
             }
             else
             {
-                ss << "(" << str_op << ", ";
+                ss << "(" << str_op;
+                if (cmpd.components().begin() != cmpd.components().end())
+                    ss << ", ";
                 append_strs(ss, cmpd.components());
                 ss << ")";
             }
-- 
2.43.0


From a81456488ff2fcaccb4cb01529068040249c6654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:42 +0000
Subject: [PATCH 19/50] fix: render in colour without using names as format
 strings

A name with braces made colored rendering throw, and a colored sentence always
threw, because its format asked for two arguments too many. Also drop an
unused iterator, taken before the first component of an empty compound.
---
 Interpreter/src/Interpreter.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/Interpreter/src/Interpreter.cpp b/Interpreter/src/Interpreter.cpp
index 16fa339..6d13af7 100644
--- a/Interpreter/src/Interpreter.cpp
+++ b/Interpreter/src/Interpreter.cpp
@@ -45,7 +45,7 @@ string Interpreter::interpret(Term &term, bool colored)
             auto str = prefix + std::to_string(idx_var);
             if (colored)
             {
-                return fmt::format(color_term, str);
+                return fmt::format(color_term, "{}", str);
             }
             else
             {
@@ -68,9 +68,9 @@ string Interpreter::interpret(Term &term, bool colored)
         if (term.type == TermType::ATOM && colored)
         {
             if (!term.is_operation)
-                return fmt::format(color_term, this->get(key));
+                return fmt::format(color_term, "{}", this->get(key));
             else
-                return fmt::format(color_operation, this->get(key));
+                return fmt::format(color_operation, "{}", this->get(key));
         }
         return this->get(key);
     }
@@ -126,10 +126,10 @@ string Interpreter::interpret(Term &term, bool colored)
                 // str_subject =
                 auto str1 = fmt::format(color_angle, "<");
                 // auto str2 = fmt::format(color_term, str_subject);
-                auto str2 = fmt::format(fmt::format(color_term, "{{}}"), str_subject);
+                auto str2 = str_subject;
                 auto str3 = fmt::format(color_copula, str_copula);
                 // auto str4 = fmt::format(color_term, str_predicate);
-                auto str4 = fmt::format(fmt::format(color_term, "{{}}"), str_predicate);
+                auto str4 = str_predicate;
                 auto str5 = fmt::format(color_angle, ">");
                 str_ret = fmt::format("{}{} {} {}{}", str1, str2, str3, str4, str5);
             }
@@ -165,7 +165,6 @@ string Interpreter::interpret(Term &term, bool colored)
         auto &cmpd = (Compound &)term;
         auto &components = cmpd.components();
         auto str_conn = CONNECTOR::Repr[(int)cmpd.connector];
-        auto last_it = components.end() - 1;
 
         if (colored)
         {
@@ -272,7 +271,7 @@ string Interpreter::interpret(Sentence &sentence, bool colored)
         str_punct = fmt::format(color_punct, SENTENCE::PUNCTUATION::Repr[(int)(sentence.punct)]);
         str_stamp = sentence.stamp->is_eternal ? "" : fmt::format(color_tense, "{} ", TENSE::Repr[sentence.stamp->tense()]);
 
-        return fmt::format("{}{} {}{} {}{}", str_term, str_punct, str_stamp, str_truth);
+        return fmt::format("{}{} {}{}", str_term, str_punct, str_stamp, str_truth);
     }
     else
     {
-- 
2.43.0


From d62f19c73e9ee5db172b86967b3b52bd5d2edacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:42 +0000
Subject: [PATCH 20/50] fix: render a sentence that was not built by the parser

A plain Sentence with a goal mark, as Python makes it, was read as a Goal
past its end, and a sentence without a truth value was dereferenced.
---
 Interpreter/src/Interpreter.cpp | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/Interpreter/src/Interpreter.cpp b/Interpreter/src/Interpreter.cpp
index 6d13af7..9b2dbda 100644
--- a/Interpreter/src/Interpreter.cpp
+++ b/Interpreter/src/Interpreter.cpp
@@ -258,14 +258,9 @@ string Interpreter::interpret(Sentence &sentence, bool colored)
     string str_punct;
     if (colored)
     {
-        if (sentence.is_judgement())
+        if ((sentence.is_judgement() || sentence.is_goal()) && sentence.truth != nullptr)
         {
-            const auto &truth = *((SENTENCE::Judgement &)sentence).truth;
-            str_truth = fmt::format("{0}{1}{3}{2}{0}", fmt::format(color_percent, "%"), fmt::format(color_number, "{:.3f}", truth.f), fmt::format(color_number, "{:.3f}", truth.c), fmt::format(color_percent, ";"));
-        }
-        else if (sentence.is_goal())
-        {
-            auto &truth = *((SENTENCE::Goal &)sentence).desire;
+            const auto &truth = *sentence.truth;
             str_truth = fmt::format("{0}{1}{3}{2}{0}", fmt::format(color_percent, "%"), fmt::format(color_number, "{:.3f}", truth.f), fmt::format(color_number, "{:.3f}", truth.c), fmt::format(color_percent, ";"));
         }
         str_punct = fmt::format(color_punct, SENTENCE::PUNCTUATION::Repr[(int)(sentence.punct)]);
@@ -275,14 +270,9 @@ string Interpreter::interpret(Sentence &sentence, bool colored)
     }
     else
     {
-        if (sentence.is_judgement())
-        {
-            auto &truth = *((SENTENCE::Judgement &)sentence).truth;
-            str_truth = fmt::format("%{:.3f};{:.3f}%", truth.f, truth.c);
-        }
-        else if (sentence.is_goal())
+        if ((sentence.is_judgement() || sentence.is_goal()) && sentence.truth != nullptr)
         {
-            auto &truth = *((SENTENCE::Goal &)sentence).desire;
+            const auto &truth = *sentence.truth;
             str_truth = fmt::format("%{:.3f};{:.3f}%", truth.f, truth.c);
         }
         str_punct = SENTENCE::PUNCTUATION::Repr[(int)(sentence.punct)];
-- 
2.43.0


From 700fbb25be6b3fd846d9cff9554b21f644add2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:39 +0000
Subject: [PATCH 21/50] fix: share the clock and the input counter between
 source files

They were static in a header: each source file had its own, so inputs made in
two of them got the same id.
---
 Global.h | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/Global.h b/Global.h
index ec26c8a..923683e 100755
--- a/Global.h
+++ b/Global.h
@@ -1,18 +1,18 @@
-#ifndef _GLOBAL_H
-#define _GLOBAL_H
-
-namespace GLOBAL
-{
-    static unsigned long time = 0;
-    static unsigned long _input_id = 0;
-
-    inline unsigned long get_input_id()
-    {
-        auto input_id = _input_id;
-        _input_id += 1;
-        return input_id;
-    }
-
-} // namespace GLOBAL
-
+#ifndef _GLOBAL_H
+#define _GLOBAL_H
+
+namespace GLOBAL
+{
+    inline unsigned long time = 0;
+    inline unsigned long _input_id = 0;
+
+    inline unsigned long get_input_id()
+    {
+        auto input_id = _input_id;
+        _input_id += 1;
+        return input_id;
+    }
+
+} // namespace GLOBAL
+
 #endif // _GLOBAL_H
\ No newline at end of file
-- 
2.43.0


From 7ebf793dca02211133a4b99ccadf1f45f7a848e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:39 +0000
Subject: [PATCH 22/50] fix: give a tensed sentence its evidential base

The constructor assigned the new base to its parameter.
---
 Narsese/include/Sentence.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Narsese/include/Sentence.h b/Narsese/include/Sentence.h
index 476e832..5241567 100755
--- a/Narsese/include/Sentence.h
+++ b/Narsese/include/Sentence.h
@@ -62,7 +62,7 @@ namespace SENTENCE
         Stamp(signed int t_occurrence, signed int t_creation, signed int t_put, pBase evidential_base, bool is_eternal = true) : t_occurrence(t_occurrence), t_creation(t_creation), t_put(t_put), evidential_base(evidential_base), is_eternal(is_eternal)
         {
             if (evidential_base == nullptr)
-                evidential_base = pBase(new Base());
+                this->evidential_base = pBase(new Base());
         }
 
         static pStamp create(bool is_eternal = false)
-- 
2.43.0


From 7aa7f584d3be0018eecad2327116170b82ef77cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:39 +0000
Subject: [PATCH 23/50] fix: date past, present and future events relative to
 the clock

They were dated from time 0, so a future event was read back as a past one
once the clock had advanced.
---
 Narsese/Parser/NarseseParser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Narsese/Parser/NarseseParser.cpp b/Narsese/Parser/NarseseParser.cpp
index 23ae108..6fbf9b6 100644
--- a/Narsese/Parser/NarseseParser.cpp
+++ b/Narsese/Parser/NarseseParser.cpp
@@ -790,20 +790,20 @@ void *NARSESEPARSER::tense_time(Parser *self, const Args &args)
 void *NARSESEPARSER::tense_future(Parser *self, const Args &args)
 {
 	void *ret;
-	ret = new std::tuple(0, (new (signed int)(CONFIG::temporal_duration)));
+	ret = new std::tuple(0, (new (signed int)(GLOBAL::time + CONFIG::temporal_duration)));
 	return ret;
 }
 void *NARSESEPARSER::tense_present(Parser *self, const Args &args)
 {
 	void *ret;
-	ret = new std::tuple(0, (new (signed int)(0)));
+	ret = new std::tuple(0, (new (signed int)(GLOBAL::time)));
 
 	return ret;
 }
 void *NARSESEPARSER::tense_past(Parser *self, const Args &args)
 {
 	void *ret;
-	ret = new std::tuple(0, (new (signed int)(-CONFIG::temporal_duration)));
+	ret = new std::tuple(0, (new (signed int)(GLOBAL::time - CONFIG::temporal_duration)));
 	return ret;
 }
 void *NARSESEPARSER::truth(Parser *self, const Args &args)
-- 
2.43.0


From ba94284e9b8bacec40c9b5244d3e2e779e4dbde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:39 +0000
Subject: [PATCH 24/50] fix: keep all the evidence when merging evidential
 bases

extend() cleared its own evidence before copying it, interleave() added an
unrelated fresh id, and both could exceed the maximum length by one.
---
 Narsese/include/Evidence.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Narsese/include/Evidence.h b/Narsese/include/Evidence.h
index b96dd73..572325c 100755
--- a/Narsese/include/Evidence.h
+++ b/Narsese/include/Evidence.h
@@ -32,9 +32,11 @@ namespace EVIDENCE
 
         void extend(const Base &other)
         {
-            auto base1 = Base(*this);
-            auto &base2 = other;
+            /* Copy the sets, because a copied `Base` shares its set. */
+            auto base1 = Base(*this->_set);
+            auto base2 = Base(*other._set);
             this->_set->clear();
+            this->_is_hashed = false;
             Base::interleave(*this, base1, base2);
         }
 
@@ -52,7 +54,7 @@ namespace EVIDENCE
                     it2++;
                     i++;
                 }
-                if (it1 != base1._set->end())
+                if (i < base_length && it1 != base1._set->end())
                 {
                     base._set->insert(*it1);
                     it1++;
@@ -63,7 +65,7 @@ namespace EVIDENCE
 
         static auto interleave(const Base &base1, const Base &base2)
         {
-            auto base = pBase(new Base());
+            auto base = pBase(new Base(set<size_t>()));
             Base::interleave(*base, base1, base2);
             return base;
         }
-- 
2.43.0


From 10aca79b18b30cdb4dd251fc4cafddf85e42d345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:39 +0000
Subject: [PATCH 25/50] fix: raise RuntimeError for a line Python cannot parse

Returning a value with the error set makes Python raise SystemError.
---
 Narsese/Parser/NarseseParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Narsese/Parser/NarseseParser.cpp b/Narsese/Parser/NarseseParser.cpp
index 6fbf9b6..75d4230 100644
--- a/Narsese/Parser/NarseseParser.cpp
+++ b/Narsese/Parser/NarseseParser.cpp
@@ -1022,12 +1022,12 @@ void NARSESEPARSER::pybind_parse(py::module &m)
 			{
 				// std::cout << e.what() << std::endl;
 				PyErr_SetString(PyExc_RuntimeError, e.what());
-				return py::none();
+				throw py::error_already_set();
 			}
 			catch (...)
 			{
 				PyErr_SetString(PyExc_RuntimeError, "Unknown error occurred.");
-				return pybind11::none();
+				throw py::error_already_set();
 			}
 		},
 		py::arg("line"));
-- 
2.43.0


From 15cb0047d03c1988bb394158a17cfc02c01ff57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:39 +0000
Subject: [PATCH 26/50] fix: let Term.terms outlive the term it came from

The iterator pointed into a compound that nothing kept alive.
---
 Narsese/src/Term.cpp | 284 +++++++++++++++++++++----------------------
 1 file changed, 142 insertions(+), 142 deletions(-)

diff --git a/Narsese/src/Term.cpp b/Narsese/src/Term.cpp
index c19e2fc..bfd075e 100755
--- a/Narsese/src/Term.cpp
+++ b/Narsese/src/Term.cpp
@@ -1,142 +1,142 @@
-#include "../include/Term.h"
-#include "../include/Copula.h"
-#include "../include/Term.inl"
-#include "Interpreter/include/Interpreter.hpp"
-#include "utils/hash.h"
-#include <list>
-#include <pybind11/stl.h>
-#include <string>
-#include <vector>
-
-// using namespace TERM;
-using INTERPRETER::Interpreter;
-using std::string;
-using TERM::pTerm;
-
-namespace TERM
-{
-    pTerm Term::create(const char *word, void *interpreter)
-    {
-        if (interpreter == nullptr)
-        {
-            interpreter = &INTERPRETER::interpreter;
-        }
-        auto &_interpreter = *(Interpreter *)interpreter;
-
-        pTerm *term;
-        auto str = std::string(word);
-        if (_interpreter.check_by_name(str) > 0)
-        {
-            auto key = _interpreter.get_by_name(str);
-            term = (pTerm *)_interpreter.get_object(key);
-            // std::cout << "create Term " << (size_t)term << std::endl;
-        }
-        else
-        {
-            term = new pTerm(new Term(), &_interpreter);
-            _interpreter.put((*term)->hash_value, str, (void *)term);
-        }
-        return *term;
-    }
-
-    void pTerm::_free_from_interpreter()
-    {
-        auto &interpreter = *(Interpreter *)this->_interpreter;
-        const auto &term = **this;
-        interpreter.remove(term.hash_value);
-    }
-
-    std::string pTerm::__repr__(void *interpreter) const
-    {
-        std::string mark;
-        if ((*this)->is_atom())
-        {
-            if ((*this)->is_var)
-                mark = "Variable";
-            else
-                mark = "Term";
-        }
-        else if ((*this)->is_statement())
-            mark = "Statement";
-        else if ((*this)->is_compound())
-            mark = "Compound";
-        else
-            throw std::runtime_error("Unknown type of the term.");
-
-        if (interpreter == nullptr)
-        {
-            if (this->_interpreter == nullptr)
-                return fmt::format("<{} at {:x}>", mark, (size_t)this->get());
-            else
-                interpreter = this->_interpreter;
-        }
-        auto &_interpreter = *(Interpreter *)interpreter;
-
-        return fmt::format("<{}: {}>", mark, _interpreter.interpret(**this));
-    }
-
-    void pybind_term(py::module &m)
-    {
-        py::class_<pTerm>(m, "Term")
-            .def(py::init(
-                []()
-                {
-                    return TERM::Term::create();
-                }))
-            .def(py::init(
-                [](std::string word)
-                {
-                    return TERM::Term::create((char *)word.c_str(), nullptr);
-                }))
-            .def_property_readonly(
-                "subject",
-                [](const pTerm &self) -> py::object
-                {
-                    if (self->subject == nullptr)
-                        return py::none();
-                    return py::cast(self->subject);
-                })
-            .def_property_readonly(
-                "predicate",
-                [](const pTerm &self) -> py::object
-                {
-                    if (self->predicate == nullptr)
-                        return py::none();
-                    return py::cast(self->predicate);
-                })
-            .def_property_readonly(
-                "terms",
-                [](const pTerm &self) -> py::object
-                {
-                    if (self->is_atom())
-                        return py::none();
-                    else if (self->is_statement())
-                        return py::iter(py::cast(std::vector<pTerm>{self->subject, self->predicate}));
-                    else if (self->is_compound())
-                        return py::make_iterator(self->terms->begin(), self->terms->end());
-                    else
-                    {
-                        PyErr_SetString(PyExc_TypeError, fmt::format("In file <{}> line <{}>: Invalid TermType", __FILE__, __LINE__).c_str());
-                        return py::none();
-                    }
-                })
-            .def_property_readonly(
-                "copula",
-                [](const pTerm &self) -> py::object
-                {
-                    if (self->copula == Copula::None)
-                        return py::none();
-                    return py::cast(self->copula);
-                })
-            .def("__repr__", [](const pTerm &self, void* interpreter=nullptr){
-                if (interpreter == nullptr)
-                    interpreter = (void *)&INTERPRETER::interpreter;
-                return self.__repr__(interpreter);
-            });
-    }
-
-    void pybind_terms(py::module &m)
-    {
-    }
-
-}
+#include "../include/Term.h"
+#include "../include/Copula.h"
+#include "../include/Term.inl"
+#include "Interpreter/include/Interpreter.hpp"
+#include "utils/hash.h"
+#include <list>
+#include <pybind11/stl.h>
+#include <string>
+#include <vector>
+
+// using namespace TERM;
+using INTERPRETER::Interpreter;
+using std::string;
+using TERM::pTerm;
+
+namespace TERM
+{
+    pTerm Term::create(const char *word, void *interpreter)
+    {
+        if (interpreter == nullptr)
+        {
+            interpreter = &INTERPRETER::interpreter;
+        }
+        auto &_interpreter = *(Interpreter *)interpreter;
+
+        pTerm *term;
+        auto str = std::string(word);
+        if (_interpreter.check_by_name(str) > 0)
+        {
+            auto key = _interpreter.get_by_name(str);
+            term = (pTerm *)_interpreter.get_object(key);
+            // std::cout << "create Term " << (size_t)term << std::endl;
+        }
+        else
+        {
+            term = new pTerm(new Term(), &_interpreter);
+            _interpreter.put((*term)->hash_value, str, (void *)term);
+        }
+        return *term;
+    }
+
+    void pTerm::_free_from_interpreter()
+    {
+        auto &interpreter = *(Interpreter *)this->_interpreter;
+        const auto &term = **this;
+        interpreter.remove(term.hash_value);
+    }
+
+    std::string pTerm::__repr__(void *interpreter) const
+    {
+        std::string mark;
+        if ((*this)->is_atom())
+        {
+            if ((*this)->is_var)
+                mark = "Variable";
+            else
+                mark = "Term";
+        }
+        else if ((*this)->is_statement())
+            mark = "Statement";
+        else if ((*this)->is_compound())
+            mark = "Compound";
+        else
+            throw std::runtime_error("Unknown type of the term.");
+
+        if (interpreter == nullptr)
+        {
+            if (this->_interpreter == nullptr)
+                return fmt::format("<{} at {:x}>", mark, (size_t)this->get());
+            else
+                interpreter = this->_interpreter;
+        }
+        auto &_interpreter = *(Interpreter *)interpreter;
+
+        return fmt::format("<{}: {}>", mark, _interpreter.interpret(**this));
+    }
+
+    void pybind_term(py::module &m)
+    {
+        py::class_<pTerm>(m, "Term")
+            .def(py::init(
+                []()
+                {
+                    return TERM::Term::create();
+                }))
+            .def(py::init(
+                [](std::string word)
+                {
+                    return TERM::Term::create((char *)word.c_str(), nullptr);
+                }))
+            .def_property_readonly(
+                "subject",
+                [](const pTerm &self) -> py::object
+                {
+                    if (self->subject == nullptr)
+                        return py::none();
+                    return py::cast(self->subject);
+                })
+            .def_property_readonly(
+                "predicate",
+                [](const pTerm &self) -> py::object
+                {
+                    if (self->predicate == nullptr)
+                        return py::none();
+                    return py::cast(self->predicate);
+                })
+            .def_property_readonly(
+                "terms",
+                [](const pTerm &self) -> py::object
+                {
+                    if (self->is_atom())
+                        return py::none();
+                    else if (self->is_statement())
+                        return py::iter(py::cast(std::vector<pTerm>{self->subject, self->predicate}));
+                    else if (self->is_compound())
+                        return py::iter(py::cast((std::vector<pTerm>)*self->terms));
+                    else
+                    {
+                        PyErr_SetString(PyExc_TypeError, fmt::format("In file <{}> line <{}>: Invalid TermType", __FILE__, __LINE__).c_str());
+                        throw py::error_already_set();
+                    }
+                })
+            .def_property_readonly(
+                "copula",
+                [](const pTerm &self) -> py::object
+                {
+                    if (self->copula == Copula::None)
+                        return py::none();
+                    return py::cast(self->copula);
+                })
+            .def("__repr__", [](const pTerm &self, void* interpreter=nullptr){
+                if (interpreter == nullptr)
+                    interpreter = (void *)&INTERPRETER::interpreter;
+                return self.__repr__(interpreter);
+            });
+    }
+
+    void pybind_terms(py::module &m)
+    {
+    }
+
+}
-- 
2.43.0


From c5a055284821fb5f5b1d6a4cc3effaae77b1d684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:39 +0000
Subject: [PATCH 27/50] fix: bind Connector.ExtensionalDifference to its own
 value

---
 Narsese/src/Connector.cpp | 54 +++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 27 deletions(-)

diff --git a/Narsese/src/Connector.cpp b/Narsese/src/Connector.cpp
index 6ce8f9f..5155dce 100755
--- a/Narsese/src/Connector.cpp
+++ b/Narsese/src/Connector.cpp
@@ -1,27 +1,27 @@
-#include "../include/Connector.h"
-
-
-using namespace CONNECTOR;
-
-namespace CONNECTOR
-{
-    void pybind_connnector(py::module &m)
-    {
-        py::enum_<CONNECTOR::Connector>(m, "Connector")
-            .value("Conjunction", CONNECTOR::Connector::Conjunction, "&&")
-            .value("Disjunction", CONNECTOR::Connector::Disjunction, "||")
-            .value("Product", CONNECTOR::Connector::Product, "*")
-            .value("ParallelEvents", CONNECTOR::Connector::ParallelEvents, "&|")
-            .value("SequentialEvents", CONNECTOR::Connector::SequentialEvents, "&/")
-            .value("IntensionalIntersection", CONNECTOR::Connector::IntensionalIntersection, "|")
-            .value("ExtensionalIntersection", CONNECTOR::Connector::ExtensionalIntersection, "&")
-            .value("ExtensionalDifference", CONNECTOR::Connector::ParallelEvents, "-")
-            .value("IntensionalDifference", CONNECTOR::Connector::IntensionalDifference, "~")
-            .value("Negation", CONNECTOR::Connector::Negation, "--")
-            .value("IntensionalSet", CONNECTOR::Connector::IntensionalSet, "[")
-            .value("ExtensionalSet", CONNECTOR::Connector::ExtensionalSet, "{")
-            .value("IntensionalImage", CONNECTOR::Connector::IntensionalImage, "\\")
-            .value("ExtensionalImage", CONNECTOR::Connector::ExtensionalImage, "/")
-            .value("List", CONNECTOR::Connector::List, "#");
-    }
-} // namespace CONNECTOR
+#include "../include/Connector.h"
+
+
+using namespace CONNECTOR;
+
+namespace CONNECTOR
+{
+    void pybind_connnector(py::module &m)
+    {
+        py::enum_<CONNECTOR::Connector>(m, "Connector")
+            .value("Conjunction", CONNECTOR::Connector::Conjunction, "&&")
+            .value("Disjunction", CONNECTOR::Connector::Disjunction, "||")
+            .value("Product", CONNECTOR::Connector::Product, "*")
+            .value("ParallelEvents", CONNECTOR::Connector::ParallelEvents, "&|")
+            .value("SequentialEvents", CONNECTOR::Connector::SequentialEvents, "&/")
+            .value("IntensionalIntersection", CONNECTOR::Connector::IntensionalIntersection, "|")
+            .value("ExtensionalIntersection", CONNECTOR::Connector::ExtensionalIntersection, "&")
+            .value("ExtensionalDifference", CONNECTOR::Connector::ExtensionalDifference, "-")
+            .value("IntensionalDifference", CONNECTOR::Connector::IntensionalDifference, "~")
+            .value("Negation", CONNECTOR::Connector::Negation, "--")
+            .value("IntensionalSet", CONNECTOR::Connector::IntensionalSet, "[")
+            .value("ExtensionalSet", CONNECTOR::Connector::ExtensionalSet, "{")
+            .value("IntensionalImage", CONNECTOR::Connector::IntensionalImage, "\\")
+            .value("ExtensionalImage", CONNECTOR::Connector::ExtensionalImage, "/")
+            .value("List", CONNECTOR::Connector::List, "#");
+    }
+} // namespace CONNECTOR
-- 
2.43.0


From e000afe0cf2b970bcbdba17007378f6099183e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:07 +0000
Subject: [PATCH 28/50] fix: reclaim a term whose last reference is assigned
 over

---
 Narsese/include/Term.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Narsese/include/Term.h b/Narsese/include/Term.h
index a95902a..87842a1 100755
--- a/Narsese/include/Term.h
+++ b/Narsese/include/Term.h
@@ -59,6 +59,14 @@ namespace TERM
         pTerm(Term *term, void *interpreter = nullptr) : std::shared_ptr<Term>(term), _interpreter(interpreter) {}
         // pTerm() : std::shared_ptr<Term>() {}
 
+        pTerm(const pTerm &) = default;
+        pTerm &operator=(pTerm other) // the old reference is given up by `~pTerm` as any other
+        {
+            std::shared_ptr<Term>::swap(other);
+            std::swap(this->_interpreter, other._interpreter);
+            return *this;
+        }
+
         ~pTerm();
 
         std::string __repr__(void *interpreter = nullptr) const;
-- 
2.43.0


From 6020ce799e9c3f1b9f3debc7ddf5f4a9ff181050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:31 +0000
Subject: [PATCH 29/50] fix: let go of every term when the interpreter is reset

---
 Interpreter/include/Interpreter.hpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/Interpreter/include/Interpreter.hpp b/Interpreter/include/Interpreter.hpp
index 4f23977..75c395c 100644
--- a/Interpreter/include/Interpreter.hpp
+++ b/Interpreter/include/Interpreter.hpp
@@ -150,18 +150,14 @@ namespace INTERPRETER
         void reset()
         {
 
-            for (auto pair : objects)
-            {
-                auto ptr = pair.second;
-                if ((*ptr).use_count() == 1)
-                {
-                    delete ptr;
-                }
-            }
-            objects.clear();
+            /* The tables go first, so that no term is looked for in them while the references are given up. */
+            map<size_t, pTerm *> _objects;
+            _objects.swap(objects);
             dictionary.clear();
             dictionary_inv.clear();
             count.clear();
+            for (auto pair : _objects)
+                delete pair.second;
         }
 
         ~Interpreter()
-- 
2.43.0


From 7a80743e8c58b1d8dd325a471b2690710ed62cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:20 +0000
Subject: [PATCH 30/50] fix: do not take an interval for an atom of equal hash

---
 Narsese/include/Term.inl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Narsese/include/Term.inl b/Narsese/include/Term.inl
index fe7ad6e..9e8a039 100644
--- a/Narsese/include/Term.inl
+++ b/Narsese/include/Term.inl
@@ -66,6 +66,8 @@ namespace TERM
         // }
         if (this->is_atom())
         {
+            if (this->is_interval != other.is_interval) // the hash of an interval may be that of an address
+                return false;
             if (this->is_var || other.is_var)
             {
                 if (this->is_qvar && other.is_qvar)
@@ -131,6 +133,8 @@ namespace TERM
 
         if (this->is_atom())
         {
+            if (this->is_interval != other.is_interval)
+                return this->is_interval < other.is_interval;
             if (this->is_var || other.is_var)
             {
                 if (this->is_qvar && other.is_qvar)
-- 
2.43.0


From b8c659a7882493f165c1a1ea502c29e0ca85506e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:20 +0000
Subject: [PATCH 31/50] fix: rehash an interval that grows

---
 Narsese/include/Interval.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Narsese/include/Interval.h b/Narsese/include/Interval.h
index 3dd0cc7..85b9c3e 100755
--- a/Narsese/include/Interval.h
+++ b/Narsese/include/Interval.h
@@ -24,7 +24,14 @@ namespace INTERVAL
         Interval(signed int interval) : interval(interval)
         {
             this->Term::is_interval = true;
+            this->do_hashing();
+        }
+
+        virtual size_t do_hashing()
+        {
             this->hash_value = Hash{}(std::initializer_list<signed int>{TermType::INTERVAL, this->interval});
+            this->is_hashed = true;
+            return this->hash_value;
         }
 
         operator signed int() const
@@ -40,6 +47,7 @@ namespace INTERVAL
         Interval &operator+=(const Interval &other)
         {
             interval += other.interval;
+            this->do_hashing();
             return *this;
         }
     };
-- 
2.43.0


From fb8b02d32baf1314fab0b0473dfa04047deaf35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:04 +0000
Subject: [PATCH 32/50] fix: reject negative integers out of range

---
 Narsese/Parser/NarseseParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Narsese/Parser/NarseseParser.cpp b/Narsese/Parser/NarseseParser.cpp
index 75d4230..747bd13 100644
--- a/Narsese/Parser/NarseseParser.cpp
+++ b/Narsese/Parser/NarseseParser.cpp
@@ -14,6 +14,7 @@
 // #include "Narsese/include/Variable.h"
 #include "Narsese/include/Narsese.h"
 #include <functional> // std::reference_wrapper
+#include <cmath>
 #include <cstdlib>
 #include <iostream>
 #include <limits>
@@ -73,7 +74,7 @@ It is remembered, and reported once the task is complete.
 static double to_number(Parser *self, const void *token, double max = std::numeric_limits<double>::max())
 {
 	auto value = std::strtod((const char *)token, nullptr);
-	if (value > max)
+	if (std::abs(value) > max)
 	{
 		self->error = "Number out of range: " + std::string((const char *)token);
 		return 0.0;
-- 
2.43.0


From 9326ecd58f1c1cbfc0c4461a4b80292fe10cf372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:04 +0000
Subject: [PATCH 33/50] fix: render a negative interval as it is written

---
 Interpreter/src/Interpreter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Interpreter/src/Interpreter.cpp b/Interpreter/src/Interpreter.cpp
index 9b2dbda..7b324e5 100644
--- a/Interpreter/src/Interpreter.cpp
+++ b/Interpreter/src/Interpreter.cpp
@@ -56,9 +56,9 @@ string Interpreter::interpret(Term &term, bool colored)
         {
             auto &interval = (INTERVAL::Interval &)term;
             if (colored)
-                return fmt::format(color_number, fmt::format("{:+d}", interval.interval));
+                return fmt::format(color_number, fmt::format("+{:d}", interval.interval));
             else
-                return fmt::format("{:+d}", interval.interval);
+                return fmt::format("+{:d}", interval.interval);
         }
     }
 
-- 
2.43.0


From 9985d1599e6f05a8d5f481d5bfa00217e8a47dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:08 +0000
Subject: [PATCH 34/50] fix: make repr() of Python objects callable without an
 interpreter

---
 Narsese/src/Compound.cpp  | 2 +-
 Narsese/src/Sentence.cpp  | 2 +-
 Narsese/src/Statement.cpp | 2 +-
 Narsese/src/Task.cpp      | 2 +-
 Narsese/src/Term.cpp      | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/Narsese/src/Compound.cpp b/Narsese/src/Compound.cpp
index b92f6fb..6f1d752 100755
--- a/Narsese/src/Compound.cpp
+++ b/Narsese/src/Compound.cpp
@@ -348,5 +348,5 @@ void COMPOUND::pybind_compound(py::module &m)
                 if (interpreter == nullptr)
                     interpreter = (void *)&INTERPRETER::interpreter;
                 return self.__repr__(interpreter);
-            });
+            }, py::arg("interpreter") = (void *)nullptr);
 }
diff --git a/Narsese/src/Sentence.cpp b/Narsese/src/Sentence.cpp
index 49b06d9..26cf6c3 100755
--- a/Narsese/src/Sentence.cpp
+++ b/Narsese/src/Sentence.cpp
@@ -40,6 +40,6 @@ namespace SENTENCE
                 if (interpreter == nullptr)
                     interpreter = (void *)&INTERPRETER::interpreter;
                 return self.__repr__(interpreter);
-            });
+            }, py::arg("interpreter") = (void *)nullptr);
     }
 }
\ No newline at end of file
diff --git a/Narsese/src/Statement.cpp b/Narsese/src/Statement.cpp
index 3f40542..ec5d3a3 100755
--- a/Narsese/src/Statement.cpp
+++ b/Narsese/src/Statement.cpp
@@ -25,6 +25,6 @@ namespace STATEMENT
                 if (interpreter == nullptr)
                     interpreter = (void *)&INTERPRETER::interpreter;
                 return self.__repr__(interpreter);
-            });
+            }, py::arg("interpreter") = (void *)nullptr);
     }
 }
diff --git a/Narsese/src/Task.cpp b/Narsese/src/Task.cpp
index 767b102..eb37d56 100755
--- a/Narsese/src/Task.cpp
+++ b/Narsese/src/Task.cpp
@@ -25,7 +25,7 @@ namespace TASK
                 if (interpreter == nullptr)
                     interpreter = (void *)&INTERPRETER::interpreter;
                 return self.__repr__(interpreter);
-            });
+            }, py::arg("interpreter") = (void *)nullptr);
     }
 
 }
diff --git a/Narsese/src/Term.cpp b/Narsese/src/Term.cpp
index bfd075e..a6db615 100755
--- a/Narsese/src/Term.cpp
+++ b/Narsese/src/Term.cpp
@@ -132,7 +132,7 @@ namespace TERM
                 if (interpreter == nullptr)
                     interpreter = (void *)&INTERPRETER::interpreter;
                 return self.__repr__(interpreter);
-            });
+            }, py::arg("interpreter") = (void *)nullptr);
     }
 
     void pybind_terms(py::module &m)
-- 
2.43.0


From e9b77e20080496563f685816775380ad01d56a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:35 +0000
Subject: [PATCH 35/50] fix: do not allocate when a name is forgotten

---
 Interpreter/include/Interpreter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Interpreter/include/Interpreter.hpp b/Interpreter/include/Interpreter.hpp
index 75c395c..fd1838a 100644
--- a/Interpreter/include/Interpreter.hpp
+++ b/Interpreter/include/Interpreter.hpp
@@ -72,7 +72,7 @@ namespace INTERPRETER
         {
             if (check(key))
             {
-                auto name = get(key);
+                auto name = std::move(get(key)); // no copy: this runs in destructors
                 dictionary.erase(key);
                 count.erase(key);
                 if (check_by_name(name))
-- 
2.43.0


From b90c3e225cbe92a652d08e3efa3fc9f98cef57cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:35 +0000
Subject: [PATCH 36/50] fix: keep the evidential base when a merge runs out of
 memory

---
 Narsese/include/Evidence.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/Narsese/include/Evidence.h b/Narsese/include/Evidence.h
index 572325c..4c3ba2f 100755
--- a/Narsese/include/Evidence.h
+++ b/Narsese/include/Evidence.h
@@ -32,12 +32,11 @@ namespace EVIDENCE
 
         void extend(const Base &other)
         {
-            /* Copy the sets, because a copied `Base` shares its set. */
-            auto base1 = Base(*this->_set);
-            auto base2 = Base(*other._set);
-            this->_set->clear();
+            /* Merge aside, because a copied `Base` shares its set, and merging may run out of memory. */
+            auto merged = Base(set<size_t>());
+            Base::interleave(merged, *this, other);
+            this->_set->swap(*merged._set);
             this->_is_hashed = false;
-            Base::interleave(*this, base1, base2);
         }
 
         static void interleave(Base &base, const Base &base1, const Base &base2)
-- 
2.43.0


From c1a6ced189306ac949a3eb403b822e92d4644524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:09 +0000
Subject: [PATCH 37/50] fix: terminate the lexem wherever its conversion
 stopped

---
 Narsese/Parser/narsese.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Narsese/Parser/narsese.cpp b/Narsese/Parser/narsese.cpp
index 9599cbf..1a82d66 100644
--- a/Narsese/Parser/narsese.cpp
+++ b/Narsese/Parser/narsese.cpp
@@ -35,8 +35,8 @@ UNICC_SCHAR* _parser::get_lexem( void )
 		return NULL;
 	}
 
-	if( wcstombs( this->lexem, this->buf, size + 1 ) == (size_t)-1 )
-		*this->lexem = 0;
+	wcstombs( this->lexem, this->buf, size );
+	this->lexem[ size ] = 0;
 #endif
 
 #if UNICC_DEBUG	> 2
-- 
2.43.0


From 54f7cc7f773a624963ebcbad89e7547697777f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:18 +0000
Subject: [PATCH 38/50] fix: restore the CRLF line endings of five repaired
 files

Earlier repairs converted them to LF. No code changes.
---
 Global.h                  |   36 +-
 Narsese/include/Term.h    | 1028 ++++++++++++++++++-------------------
 Narsese/src/Compound.cpp  |  704 ++++++++++++-------------
 Narsese/src/Connector.cpp |   54 +-
 Narsese/src/Term.cpp      |  284 +++++-----
 5 files changed, 1053 insertions(+), 1053 deletions(-)

diff --git a/Global.h b/Global.h
index 923683e..dc43e8d 100755
--- a/Global.h
+++ b/Global.h
@@ -1,18 +1,18 @@
-#ifndef _GLOBAL_H
-#define _GLOBAL_H
-
-namespace GLOBAL
-{
-    inline unsigned long time = 0;
-    inline unsigned long _input_id = 0;
-
-    inline unsigned long get_input_id()
-    {
-        auto input_id = _input_id;
-        _input_id += 1;
-        return input_id;
-    }
-
-} // namespace GLOBAL
-
-#endif // _GLOBAL_H
\ No newline at end of file
+#ifndef _GLOBAL_H
+#define _GLOBAL_H
+
+namespace GLOBAL
+{
+    inline unsigned long time = 0;
+    inline unsigned long _input_id = 0;
+
+    inline unsigned long get_input_id()
+    {
+        auto input_id = _input_id;
+        _input_id += 1;
+        return input_id;
+    }
+
+} // namespace GLOBAL
+
+#endif // _GLOBAL_H
\ No newline at end of file
diff --git a/Narsese/include/Term.h b/Narsese/include/Term.h
index 87842a1..0666871 100755
--- a/Narsese/include/Term.h
+++ b/Narsese/include/Term.h
@@ -1,514 +1,514 @@
-#ifndef _TERM_H
-#define _TERM_H
-
-#include "Connector.h"
-#include "Copula.h"
-#include "utils/IndexVar.h"
-#include "utils/hash.h"
-#include <algorithm>
-#include <array>
-#include <list>
-#include <memory>
-#include <string>
-#include <unordered_set>
-#include <fmt/core.h>
-#include <pybind11/pybind11.h>
-
-// #include "../utils/repr.h"
-namespace VARIABLE
-{
-    class Variable;
-}
-
-namespace COMPOUND
-{
-    class Compound;
-}
-
-namespace STATEMENT
-{
-    class Statement;
-}
-
-namespace TERM
-{
-    namespace py = pybind11;
-    
-    using CONNECTOR::Connector;
-    using COPULA::Copula;
-    // using REPR::repr;
-    using INDEXVAR::IndexVar;
-    using INDEXVAR::pIndexVar;
-    using std::string;
-    using std::unordered_set;
-    using UTILS::Hash;
-    using UTILS::hash;
-
-
-    class Terms;
-    class Term;
-    // typedef std::shared_ptr<Term> pTerm;
-    class PYBIND11_EXPORT pTerm : public std::shared_ptr<Term>
-    {
-    public:
-        void *_interpreter = nullptr;
-
-    public:
-        // using std::shared_ptr<Term>::shared_ptr;
-        pTerm() : std::shared_ptr<Term>::shared_ptr() {}
-        pTerm(Term *term, void *interpreter = nullptr) : std::shared_ptr<Term>(term), _interpreter(interpreter) {}
-        // pTerm() : std::shared_ptr<Term>() {}
-
-        pTerm(const pTerm &) = default;
-        pTerm &operator=(pTerm other) // the old reference is given up by `~pTerm` as any other
-        {
-            std::shared_ptr<Term>::swap(other);
-            std::swap(this->_interpreter, other._interpreter);
-            return *this;
-        }
-
-        ~pTerm();
-
-        std::string __repr__(void *interpreter = nullptr) const;
-
-    private:
-        void _free_from_interpreter();
-        // void _free_from_interpreter() {}
-    };
-
-    typedef std::shared_ptr<Terms> pTerms;
-
-    enum PYBIND11_EXPORT TermType
-    {
-        ATOM = 0,
-        STATEMENT = 1,
-        COMPOUND = 2,
-        INTERVAL = -1,
-        OPERATION = -2,
-        VARIABLE = -3
-    };
-
-    class PYBIND11_EXPORT Term
-    {
-    public:
-        /* for statement */
-        pTerm subject;
-        pTerm predicate;
-        Copula copula = COPULA::None;
-
-        /* for compound */
-        Connector connector = CONNECTOR::None;
-        pTerms terms;
-
-        /* for all */
-        TermType type = TermType::ATOM;
-
-        bool is_var : 1 = false;
-        bool is_ivar : 1 = false;
-        bool is_dvar : 1 = false;
-        bool is_qvar : 1 = false;
-        bool has_var : 1 = false;  // Whether the term contains variable(s).
-        bool has_ivar : 1 = false; // Whether the term contains independent variable(s).
-        bool has_dvar : 1 = false; // Whether the term contains dependent variable(s).
-        bool has_qvar : 1 = false; // Whether the term contains query variable(s).
-
-        bool is_closed : 1 = true; // Whether the term is closed or open in terms of variable.
-        bool is_interval : 1 = false;
-        bool is_operation : 1 = false;
-
-        bool is_higher_order : 1 = false;
-
-        bool is_hashed : 1 = false;
-        size_t hash_value = 0;
-
-        int complexity = 1; // The complexity of the term. Read only.
-
-        pIndexVar _vars_independent = IndexVar::create();
-        pIndexVar _vars_dependent = IndexVar::create();
-        pIndexVar _vars_query = IndexVar::create();
-
-        // Term(int hash_value);
-        // Term(char *_word);
-        // string word;
-        Term() : hash_value(Hash{}(std::initializer_list<size_t>{(size_t)TermType::ATOM, (size_t)this})), is_hashed(true){};
-        Term(const TermType _type) : type(_type) {}
-        virtual ~Term() = default; // `pTerm` owns variables, statements, ... as `Term`
-        // ~Term()
-        // {
-        //     std::cout << (size_t)this << " Term freed" << std::endl;
-        // }
-        size_t __hash__()
-        {
-            return this->is_hashed ? this->hash_value : this->do_hashing();
-        }
-
-        virtual size_t do_hashing()
-        {
-            this->hash_value = Hash{}(std::initializer_list<size_t>{(size_t)TermType::ATOM, (size_t)this});
-            this->is_hashed = true;
-            return this->hash_value;
-        }
-
-        inline bool is_atom() const { return this->type == TermType::ATOM; }
-        inline bool is_statement() const { return this->type == TermType::STATEMENT; }
-        inline bool is_compound() const { return this->type == TermType::COMPOUND; }
-
-        static pTerm create()
-        {
-            auto term = new Term();
-            // std::cout << "create Term " << (size_t)term << std::endl;
-            return pTerm(term);
-        }
-
-        static pTerm create(const char *word, void *interpreter = nullptr);
-
-        static pTerm clone(pTerm term);
-
-        bool operator==(Term &other);
-
-        bool operator<(Term &other);
-
-    protected:
-        template <typename _Container>
-        void _refresh_var_status(const _Container &terms)
-        {
-            this->has_var = std::any_of(terms.begin(), terms.end(), [](const pTerm &term)
-                                        { return term->has_var; });
-            this->has_ivar = std::any_of(terms.begin(), terms.end(), [](const pTerm &term)
-                                         { return term->has_ivar; });
-            this->has_dvar = std::any_of(terms.begin(), terms.end(), [](const pTerm &term)
-                                         { return term->has_dvar; });
-            this->has_qvar = std::any_of(terms.begin(), terms.end(), [](const pTerm &term)
-                                         { return term->has_qvar; });
-        }
-
-        void _init_indexvars(const std::array<pIndexVar, 3> &variables, const Terms &terms);
-
-        void _init_indexvars(const std::array<pIndexVar, 3> &variables, std::initializer_list<pTerm> terms);
-
-        void _build_indexvars()
-        {
-            if (this->has_ivar)
-                this->_vars_independent->build();
-            else
-                this->_vars_independent->_is_built = true;
-            if (this->has_dvar)
-                this->_vars_dependent->build();
-            else
-                this->_vars_dependent->_is_built = true;
-            if (this->has_qvar)
-                this->_vars_query->build();
-            else
-                this->_vars_query->_is_built = true;
-        }
-
-        std::array<pIndexVar, 3> _index_vars() const
-        {
-            return {this->_vars_independent, this->_vars_dependent, this->_vars_query};
-        }
-    };
-
-    class PYBIND11_EXPORT Iterator
-    {
-    public:
-        // using iterator_category = typename std::iterator_traits<pTerm *>::iterator_category;
-        // using value_type = typename std::iterator_traits<pTerm *>::value_type;
-        using value_type = pTerm;
-        // using reference = pTerm&;
-        // using pointer = pTerm*;
-        using difference_type = std::ptrdiff_t;
-        using iterator_category = std::input_iterator_tag;
-
-    public:
-        Iterator(const Iterator &iterator)
-        {
-            *this = iterator;
-            if (this->_is_commutative)
-                it_ = new auto(*(std::set<pTerm>::iterator *)(iterator.it_));
-            else
-                it_ = new auto(*(std::vector<pTerm>::iterator *)(iterator.it_));
-        }
-        Iterator(std::vector<pTerm>::const_iterator it) : it_((void *)new auto(it)), _is_commutative(false) {}
-        Iterator(std::set<pTerm>::iterator it) : it_((void *)new auto(it)), _is_commutative(true) {}
-
-        ~Iterator()
-        {
-            if (it_ == nullptr)
-                return;
-            if (this->_is_commutative)
-                delete ((std::vector<pTerm>::iterator *)it_);
-            else
-                delete ((std::set<pTerm>::iterator *)it_);
-            it_ = nullptr;
-        }
-
-        const pTerm &operator*()
-        {
-            if (this->_is_commutative)
-                return **((std::set<pTerm>::iterator *)it_);
-            else
-                return **((std::vector<pTerm>::iterator *)it_);
-        }
-
-        Iterator &operator++()
-        {
-            if (this->_is_commutative)
-                (*((std::set<pTerm>::iterator *)it_))++;
-            else
-                (*((std::vector<pTerm>::iterator *)it_))++;
-            return *this;
-        }
-
-        Iterator &operator++(int)
-        {
-            return ++(*this);
-        }
-
-        bool operator!=(const Iterator &other) const
-        {
-            if (this->_is_commutative)
-                return (*((std::set<pTerm>::iterator *)this->it_)) != (*((std::set<pTerm>::iterator *)other.it_));
-            else
-                return (*((std::vector<pTerm>::iterator *)this->it_)) != (*((std::vector<pTerm>::iterator *)other.it_));
-        }
-
-        bool operator==(const Iterator &other) const
-        {
-            if (this->_is_commutative)
-                return (*((std::set<pTerm>::iterator *)this->it_)) == (*((std::set<pTerm>::iterator *)other.it_));
-            else
-                return (*((std::vector<pTerm>::iterator *)this->it_)) == (*((std::vector<pTerm>::iterator *)other.it_));
-        }
-
-        Iterator operator+(int n) const
-        {
-            if (this->_is_commutative)
-            {
-                std::set<pTerm>::iterator newIt = *(std::set<pTerm>::iterator *)it_;
-                std::advance(newIt, n);
-                return Iterator(newIt);
-            }
-            else
-            {
-                std::vector<pTerm>::iterator newIt = *(std::vector<pTerm>::iterator *)it_;
-                std::advance(newIt, n);
-                return Iterator(newIt);
-            }
-        }
-        Iterator operator-(int n) const
-        {
-            if (this->_is_commutative)
-            {
-                std::set<pTerm>::iterator newIt = *(std::set<pTerm>::iterator *)it_;
-                std::advance(newIt, -n);
-                return Iterator(newIt);
-            }
-            else
-            {
-                std::vector<pTerm>::iterator new_it = *(std::vector<pTerm>::iterator *)it_;
-                std::advance(new_it, -n);
-                return Iterator(new_it);
-            }
-        }
-
-    private:
-        bool _is_commutative;
-        void *it_;
-    };
-
-    class PYBIND11_EXPORT Terms
-    {
-    public:
-        struct compare
-        {
-            bool operator()(const pTerm &a, const pTerm &b) const
-            {
-                auto &term1 = *a;
-                auto &term2 = *b;
-                return term1 < term2;
-                // return a < b;
-            }
-        };
-
-    public:
-        // std::vector<pTerm> terms;
-        std::vector<pTerm> terms_ordered;
-        std::set<pTerm, compare> terms_unordered;
-
-        // IndexVar _vars_independent = IndexVar();
-        // IndexVar _vars_dependent = IndexVar();
-        // IndexVar _vars_query = IndexVar();
-
-        bool _is_commutative;
-
-        Terms(bool is_commutative) : _is_commutative(is_commutative) {}
-
-        // Terms(std::list<pTerm> terms, bool is_commutative);
-        Terms(std::list<pTerm> terms, bool is_commutative) : _is_commutative(is_commutative)
-        {
-            this->fill_terms(terms);
-        }
-        template <typename _Compare>
-        Terms(std::set<pTerm, _Compare> terms, bool is_commutative) : _is_commutative(is_commutative)
-        {
-            this->fill_terms(terms);
-        }
-        Terms(std::vector<pTerm> &terms, bool is_commutative) : _is_commutative(is_commutative)
-        {
-            this->fill_terms(terms);
-        }
-
-        Terms(std::initializer_list<pTerm> terms, bool is_commutative) : _is_commutative(is_commutative)
-        {
-            this->fill_terms(terms);
-        }
-
-        Terms(Terms &terms, bool is_commutative) : _is_commutative(is_commutative)
-        {
-            this->fill_terms(terms);
-        }
-
-        inline static pTerms create(bool is_commutative)
-        {
-            return pTerms(new Terms(is_commutative));
-        }
-
-        template <typename _T>
-        inline static pTerms create(_T terms, bool is_commutative)
-        {
-            return pTerms(new Terms(terms, is_commutative));
-        }
-
-        inline static auto intersection(std::vector<pTerms> terms_all)
-        {
-            if (terms_all.size() == 0)
-                throw std::runtime_error("Empty input.");
-
-            auto it = terms_all.begin();
-            std::set<pTerm, compare> intersection((*it)->terms_unordered);
-            for (++it; it != terms_all.end(); ++it)
-            {
-                const auto &terms = *(*it);
-                if (!terms._is_commutative)
-                    throw std::runtime_error("Each `Terms` should be commutative.");
-                std::set<pTerm, compare> temp{};
-                std::set_intersection(
-                    intersection.begin(), intersection.end(),
-                    terms.begin(), terms.end(),
-                    std::inserter(temp, temp.begin()), compare{});
-                intersection = temp;
-            }
-            return Terms::create(intersection, true);
-        }
-
-        inline static auto union_(std::vector<pTerms> terms_all)
-        {
-            if (terms_all.size() == 0)
-                throw std::runtime_error("Empty input.");
-
-            auto it = terms_all.begin();
-            std::set<pTerm, compare> union_((*it)->terms_unordered);
-            for (++it; it != terms_all.end(); ++it)
-            {
-                const auto &terms = *(*it);
-                if (!terms._is_commutative)
-                    throw std::runtime_error("Each `Terms` should be commutative.");
-                std::set<pTerm, compare> temp;
-                std::set_union(
-                    union_.begin(), union_.end(),
-                    terms.begin(), terms.end(),
-                    std::inserter(temp, temp.begin()), compare{});
-                union_ = temp;
-            }
-            return Terms::create(union_, true);
-        }
-
-        inline static auto difference(std::vector<pTerms> terms_all)
-        {
-            if (terms_all.size() == 0)
-                throw std::runtime_error("Empty input.");
-
-            auto it = terms_all.begin();
-            std::set<pTerm, compare> difference((*it)->terms_unordered);
-            for (++it; it != terms_all.end(); ++it)
-            {
-                const auto &terms = *(*it);
-                if (!terms._is_commutative)
-                    throw std::runtime_error("Each `Terms` should be commutative.");
-                std::set<pTerm, compare> temp;
-                std::set_difference(
-                    difference.begin(), difference.end(),
-                    terms.begin(), terms.end(),
-                    std::inserter(temp, temp.begin()), compare{});
-                difference = temp;
-            }
-            return Terms::create(difference, true);
-        }
-
-        inline void push_back(pTerm term)
-        {
-            if (this->_is_commutative)
-                this->terms_unordered.insert(term);
-            else
-                this->terms_ordered.push_back(term);
-        }
-
-        inline auto size()
-        {
-            if (this->_is_commutative)
-                return this->terms_unordered.size();
-            else
-                return this->terms_ordered.size();
-        }
-
-        Iterator begin() const
-        {
-            if (this->_is_commutative)
-                return Iterator(this->terms_unordered.begin());
-            else
-                return Iterator(this->terms_ordered.begin());
-        }
-
-        Iterator end() const
-        {
-            if (this->_is_commutative)
-                return Iterator(this->terms_unordered.end());
-            else
-                return Iterator(this->terms_ordered.end());
-        }
-
-        operator std::vector<pTerm>() const
-        {
-            if (this->_is_commutative)
-                return std::vector<pTerm>(this->terms_unordered.begin(), this->terms_unordered.end());
-            else
-                return this->terms_ordered;
-        }
-
-    private:
-        template <typename _T>
-        void fill_terms(_T terms)
-        {
-            if (this->_is_commutative)
-            {
-                for (auto it = terms.begin(); it != terms.end(); it++)
-                {
-                    this->terms_unordered.insert((*it));
-                }
-            }
-            else
-            {
-                for (auto it = terms.begin(); it != terms.end(); it++)
-                {
-                    this->terms_ordered.push_back((*it));
-                }
-            }
-        }
-    };
-    void pybind_term(py::module &m);
-    void pybind_terms(py::module &m);
-
-} // namespace Term
-// #include "Term.inl"
-
-#endif // _TERM_H
\ No newline at end of file
+#ifndef _TERM_H
+#define _TERM_H
+
+#include "Connector.h"
+#include "Copula.h"
+#include "utils/IndexVar.h"
+#include "utils/hash.h"
+#include <algorithm>
+#include <array>
+#include <list>
+#include <memory>
+#include <string>
+#include <unordered_set>
+#include <fmt/core.h>
+#include <pybind11/pybind11.h>
+
+// #include "../utils/repr.h"
+namespace VARIABLE
+{
+    class Variable;
+}
+
+namespace COMPOUND
+{
+    class Compound;
+}
+
+namespace STATEMENT
+{
+    class Statement;
+}
+
+namespace TERM
+{
+    namespace py = pybind11;
+    
+    using CONNECTOR::Connector;
+    using COPULA::Copula;
+    // using REPR::repr;
+    using INDEXVAR::IndexVar;
+    using INDEXVAR::pIndexVar;
+    using std::string;
+    using std::unordered_set;
+    using UTILS::Hash;
+    using UTILS::hash;
+
+
+    class Terms;
+    class Term;
+    // typedef std::shared_ptr<Term> pTerm;
+    class PYBIND11_EXPORT pTerm : public std::shared_ptr<Term>
+    {
+    public:
+        void *_interpreter = nullptr;
+
+    public:
+        // using std::shared_ptr<Term>::shared_ptr;
+        pTerm() : std::shared_ptr<Term>::shared_ptr() {}
+        pTerm(Term *term, void *interpreter = nullptr) : std::shared_ptr<Term>(term), _interpreter(interpreter) {}
+        // pTerm() : std::shared_ptr<Term>() {}
+
+        pTerm(const pTerm &) = default;
+        pTerm &operator=(pTerm other) // the old reference is given up by `~pTerm` as any other
+        {
+            std::shared_ptr<Term>::swap(other);
+            std::swap(this->_interpreter, other._interpreter);
+            return *this;
+        }
+
+        ~pTerm();
+
+        std::string __repr__(void *interpreter = nullptr) const;
+
+    private:
+        void _free_from_interpreter();
+        // void _free_from_interpreter() {}
+    };
+
+    typedef std::shared_ptr<Terms> pTerms;
+
+    enum PYBIND11_EXPORT TermType
+    {
+        ATOM = 0,
+        STATEMENT = 1,
+        COMPOUND = 2,
+        INTERVAL = -1,
+        OPERATION = -2,
+        VARIABLE = -3
+    };
+
+    class PYBIND11_EXPORT Term
+    {
+    public:
+        /* for statement */
+        pTerm subject;
+        pTerm predicate;
+        Copula copula = COPULA::None;
+
+        /* for compound */
+        Connector connector = CONNECTOR::None;
+        pTerms terms;
+
+        /* for all */
+        TermType type = TermType::ATOM;
+
+        bool is_var : 1 = false;
+        bool is_ivar : 1 = false;
+        bool is_dvar : 1 = false;
+        bool is_qvar : 1 = false;
+        bool has_var : 1 = false;  // Whether the term contains variable(s).
+        bool has_ivar : 1 = false; // Whether the term contains independent variable(s).
+        bool has_dvar : 1 = false; // Whether the term contains dependent variable(s).
+        bool has_qvar : 1 = false; // Whether the term contains query variable(s).
+
+        bool is_closed : 1 = true; // Whether the term is closed or open in terms of variable.
+        bool is_interval : 1 = false;
+        bool is_operation : 1 = false;
+
+        bool is_higher_order : 1 = false;
+
+        bool is_hashed : 1 = false;
+        size_t hash_value = 0;
+
+        int complexity = 1; // The complexity of the term. Read only.
+
+        pIndexVar _vars_independent = IndexVar::create();
+        pIndexVar _vars_dependent = IndexVar::create();
+        pIndexVar _vars_query = IndexVar::create();
+
+        // Term(int hash_value);
+        // Term(char *_word);
+        // string word;
+        Term() : hash_value(Hash{}(std::initializer_list<size_t>{(size_t)TermType::ATOM, (size_t)this})), is_hashed(true){};
+        Term(const TermType _type) : type(_type) {}
+        virtual ~Term() = default; // `pTerm` owns variables, statements, ... as `Term`
+        // ~Term()
+        // {
+        //     std::cout << (size_t)this << " Term freed" << std::endl;
+        // }
+        size_t __hash__()
+        {
+            return this->is_hashed ? this->hash_value : this->do_hashing();
+        }
+
+        virtual size_t do_hashing()
+        {
+            this->hash_value = Hash{}(std::initializer_list<size_t>{(size_t)TermType::ATOM, (size_t)this});
+            this->is_hashed = true;
+            return this->hash_value;
+        }
+
+        inline bool is_atom() const { return this->type == TermType::ATOM; }
+        inline bool is_statement() const { return this->type == TermType::STATEMENT; }
+        inline bool is_compound() const { return this->type == TermType::COMPOUND; }
+
+        static pTerm create()
+        {
+            auto term = new Term();
+            // std::cout << "create Term " << (size_t)term << std::endl;
+            return pTerm(term);
+        }
+
+        static pTerm create(const char *word, void *interpreter = nullptr);
+
+        static pTerm clone(pTerm term);
+
+        bool operator==(Term &other);
+
+        bool operator<(Term &other);
+
+    protected:
+        template <typename _Container>
+        void _refresh_var_status(const _Container &terms)
+        {
+            this->has_var = std::any_of(terms.begin(), terms.end(), [](const pTerm &term)
+                                        { return term->has_var; });
+            this->has_ivar = std::any_of(terms.begin(), terms.end(), [](const pTerm &term)
+                                         { return term->has_ivar; });
+            this->has_dvar = std::any_of(terms.begin(), terms.end(), [](const pTerm &term)
+                                         { return term->has_dvar; });
+            this->has_qvar = std::any_of(terms.begin(), terms.end(), [](const pTerm &term)
+                                         { return term->has_qvar; });
+        }
+
+        void _init_indexvars(const std::array<pIndexVar, 3> &variables, const Terms &terms);
+
+        void _init_indexvars(const std::array<pIndexVar, 3> &variables, std::initializer_list<pTerm> terms);
+
+        void _build_indexvars()
+        {
+            if (this->has_ivar)
+                this->_vars_independent->build();
+            else
+                this->_vars_independent->_is_built = true;
+            if (this->has_dvar)
+                this->_vars_dependent->build();
+            else
+                this->_vars_dependent->_is_built = true;
+            if (this->has_qvar)
+                this->_vars_query->build();
+            else
+                this->_vars_query->_is_built = true;
+        }
+
+        std::array<pIndexVar, 3> _index_vars() const
+        {
+            return {this->_vars_independent, this->_vars_dependent, this->_vars_query};
+        }
+    };
+
+    class PYBIND11_EXPORT Iterator
+    {
+    public:
+        // using iterator_category = typename std::iterator_traits<pTerm *>::iterator_category;
+        // using value_type = typename std::iterator_traits<pTerm *>::value_type;
+        using value_type = pTerm;
+        // using reference = pTerm&;
+        // using pointer = pTerm*;
+        using difference_type = std::ptrdiff_t;
+        using iterator_category = std::input_iterator_tag;
+
+    public:
+        Iterator(const Iterator &iterator)
+        {
+            *this = iterator;
+            if (this->_is_commutative)
+                it_ = new auto(*(std::set<pTerm>::iterator *)(iterator.it_));
+            else
+                it_ = new auto(*(std::vector<pTerm>::iterator *)(iterator.it_));
+        }
+        Iterator(std::vector<pTerm>::const_iterator it) : it_((void *)new auto(it)), _is_commutative(false) {}
+        Iterator(std::set<pTerm>::iterator it) : it_((void *)new auto(it)), _is_commutative(true) {}
+
+        ~Iterator()
+        {
+            if (it_ == nullptr)
+                return;
+            if (this->_is_commutative)
+                delete ((std::vector<pTerm>::iterator *)it_);
+            else
+                delete ((std::set<pTerm>::iterator *)it_);
+            it_ = nullptr;
+        }
+
+        const pTerm &operator*()
+        {
+            if (this->_is_commutative)
+                return **((std::set<pTerm>::iterator *)it_);
+            else
+                return **((std::vector<pTerm>::iterator *)it_);
+        }
+
+        Iterator &operator++()
+        {
+            if (this->_is_commutative)
+                (*((std::set<pTerm>::iterator *)it_))++;
+            else
+                (*((std::vector<pTerm>::iterator *)it_))++;
+            return *this;
+        }
+
+        Iterator &operator++(int)
+        {
+            return ++(*this);
+        }
+
+        bool operator!=(const Iterator &other) const
+        {
+            if (this->_is_commutative)
+                return (*((std::set<pTerm>::iterator *)this->it_)) != (*((std::set<pTerm>::iterator *)other.it_));
+            else
+                return (*((std::vector<pTerm>::iterator *)this->it_)) != (*((std::vector<pTerm>::iterator *)other.it_));
+        }
+
+        bool operator==(const Iterator &other) const
+        {
+            if (this->_is_commutative)
+                return (*((std::set<pTerm>::iterator *)this->it_)) == (*((std::set<pTerm>::iterator *)other.it_));
+            else
+                return (*((std::vector<pTerm>::iterator *)this->it_)) == (*((std::vector<pTerm>::iterator *)other.it_));
+        }
+
+        Iterator operator+(int n) const
+        {
+            if (this->_is_commutative)
+            {
+                std::set<pTerm>::iterator newIt = *(std::set<pTerm>::iterator *)it_;
+                std::advance(newIt, n);
+                return Iterator(newIt);
+            }
+            else
+            {
+                std::vector<pTerm>::iterator newIt = *(std::vector<pTerm>::iterator *)it_;
+                std::advance(newIt, n);
+                return Iterator(newIt);
+            }
+        }
+        Iterator operator-(int n) const
+        {
+            if (this->_is_commutative)
+            {
+                std::set<pTerm>::iterator newIt = *(std::set<pTerm>::iterator *)it_;
+                std::advance(newIt, -n);
+                return Iterator(newIt);
+            }
+            else
+            {
+                std::vector<pTerm>::iterator new_it = *(std::vector<pTerm>::iterator *)it_;
+                std::advance(new_it, -n);
+                return Iterator(new_it);
+            }
+        }
+
+    private:
+        bool _is_commutative;
+        void *it_;
+    };
+
+    class PYBIND11_EXPORT Terms
+    {
+    public:
+        struct compare
+        {
+            bool operator()(const pTerm &a, const pTerm &b) const
+            {
+                auto &term1 = *a;
+                auto &term2 = *b;
+                return term1 < term2;
+                // return a < b;
+            }
+        };
+
+    public:
+        // std::vector<pTerm> terms;
+        std::vector<pTerm> terms_ordered;
+        std::set<pTerm, compare> terms_unordered;
+
+        // IndexVar _vars_independent = IndexVar();
+        // IndexVar _vars_dependent = IndexVar();
+        // IndexVar _vars_query = IndexVar();
+
+        bool _is_commutative;
+
+        Terms(bool is_commutative) : _is_commutative(is_commutative) {}
+
+        // Terms(std::list<pTerm> terms, bool is_commutative);
+        Terms(std::list<pTerm> terms, bool is_commutative) : _is_commutative(is_commutative)
+        {
+            this->fill_terms(terms);
+        }
+        template <typename _Compare>
+        Terms(std::set<pTerm, _Compare> terms, bool is_commutative) : _is_commutative(is_commutative)
+        {
+            this->fill_terms(terms);
+        }
+        Terms(std::vector<pTerm> &terms, bool is_commutative) : _is_commutative(is_commutative)
+        {
+            this->fill_terms(terms);
+        }
+
+        Terms(std::initializer_list<pTerm> terms, bool is_commutative) : _is_commutative(is_commutative)
+        {
+            this->fill_terms(terms);
+        }
+
+        Terms(Terms &terms, bool is_commutative) : _is_commutative(is_commutative)
+        {
+            this->fill_terms(terms);
+        }
+
+        inline static pTerms create(bool is_commutative)
+        {
+            return pTerms(new Terms(is_commutative));
+        }
+
+        template <typename _T>
+        inline static pTerms create(_T terms, bool is_commutative)
+        {
+            return pTerms(new Terms(terms, is_commutative));
+        }
+
+        inline static auto intersection(std::vector<pTerms> terms_all)
+        {
+            if (terms_all.size() == 0)
+                throw std::runtime_error("Empty input.");
+
+            auto it = terms_all.begin();
+            std::set<pTerm, compare> intersection((*it)->terms_unordered);
+            for (++it; it != terms_all.end(); ++it)
+            {
+                const auto &terms = *(*it);
+                if (!terms._is_commutative)
+                    throw std::runtime_error("Each `Terms` should be commutative.");
+                std::set<pTerm, compare> temp{};
+                std::set_intersection(
+                    intersection.begin(), intersection.end(),
+                    terms.begin(), terms.end(),
+                    std::inserter(temp, temp.begin()), compare{});
+                intersection = temp;
+            }
+            return Terms::create(intersection, true);
+        }
+
+        inline static auto union_(std::vector<pTerms> terms_all)
+        {
+            if (terms_all.size() == 0)
+                throw std::runtime_error("Empty input.");
+
+            auto it = terms_all.begin();
+            std::set<pTerm, compare> union_((*it)->terms_unordered);
+            for (++it; it != terms_all.end(); ++it)
+            {
+                const auto &terms = *(*it);
+                if (!terms._is_commutative)
+                    throw std::runtime_error("Each `Terms` should be commutative.");
+                std::set<pTerm, compare> temp;
+                std::set_union(
+                    union_.begin(), union_.end(),
+                    terms.begin(), terms.end(),
+                    std::inserter(temp, temp.begin()), compare{});
+                union_ = temp;
+            }
+            return Terms::create(union_, true);
+        }
+
+        inline static auto difference(std::vector<pTerms> terms_all)
+        {
+            if (terms_all.size() == 0)
+                throw std::runtime_error("Empty input.");
+
+            auto it = terms_all.begin();
+            std::set<pTerm, compare> difference((*it)->terms_unordered);
+            for (++it; it != terms_all.end(); ++it)
+            {
+                const auto &terms = *(*it);
+                if (!terms._is_commutative)
+                    throw std::runtime_error("Each `Terms` should be commutative.");
+                std::set<pTerm, compare> temp;
+                std::set_difference(
+                    difference.begin(), difference.end(),
+                    terms.begin(), terms.end(),
+                    std::inserter(temp, temp.begin()), compare{});
+                difference = temp;
+            }
+            return Terms::create(difference, true);
+        }
+
+        inline void push_back(pTerm term)
+        {
+            if (this->_is_commutative)
+                this->terms_unordered.insert(term);
+            else
+                this->terms_ordered.push_back(term);
+        }
+
+        inline auto size()
+        {
+            if (this->_is_commutative)
+                return this->terms_unordered.size();
+            else
+                return this->terms_ordered.size();
+        }
+
+        Iterator begin() const
+        {
+            if (this->_is_commutative)
+                return Iterator(this->terms_unordered.begin());
+            else
+                return Iterator(this->terms_ordered.begin());
+        }
+
+        Iterator end() const
+        {
+            if (this->_is_commutative)
+                return Iterator(this->terms_unordered.end());
+            else
+                return Iterator(this->terms_ordered.end());
+        }
+
+        operator std::vector<pTerm>() const
+        {
+            if (this->_is_commutative)
+                return std::vector<pTerm>(this->terms_unordered.begin(), this->terms_unordered.end());
+            else
+                return this->terms_ordered;
+        }
+
+    private:
+        template <typename _T>
+        void fill_terms(_T terms)
+        {
+            if (this->_is_commutative)
+            {
+                for (auto it = terms.begin(); it != terms.end(); it++)
+                {
+                    this->terms_unordered.insert((*it));
+                }
+            }
+            else
+            {
+                for (auto it = terms.begin(); it != terms.end(); it++)
+                {
+                    this->terms_ordered.push_back((*it));
+                }
+            }
+        }
+    };
+    void pybind_term(py::module &m);
+    void pybind_terms(py::module &m);
+
+} // namespace Term
+// #include "Term.inl"
+
+#endif // _TERM_H
\ No newline at end of file
diff --git a/Narsese/src/Compound.cpp b/Narsese/src/Compound.cpp
index 6f1d752..ed6c6f2 100755
--- a/Narsese/src/Compound.cpp
+++ b/Narsese/src/Compound.cpp
@@ -1,352 +1,352 @@
-// #include "../include/Narsese.h"
-#include "../include/Compound.h"
-#include "utils/hash.h"
-#include <map>
-#include <numeric>
-#include <tuple>
-#include <unordered_map>
-#include <vector>
-#include "Interpreter/include/Interpreter.hpp"
-
-using namespace COMPOUND;
-using std::tuple;
-using std::vector;
-using UTILS::hash;
-
-/*
-The `compounds` should have the same `connector`.
-(&, {A, B}, {B, C}) ====> {B}
-(|, {A, B}, {B, C}) ====> {A, B, C}
-(&, [A, B], [B, C]) ====> [A, B, C]
-(|, [A, B], [B, C]) ====> [B]
-(-, {A, B}, {B, C}) ====> {A}
-(~, [A, B], [B, C]) ====> [A]
-
-It is ensured that the concerned components have no further nested compound which should be unfolded, because if there were, it would be unfolded when building its parent compound.
-
-Make sure all the `compounds` have the same `connector`
-*/
-pTerms _merge_compounds(Connector connector_parent, Connector connector, const vector<pTerm> &compounds)
-{
-    auto get_all_terms = [connector_parent](const vector<pTerm> &input, std::vector<pTerms> &output)
-    {
-        for (auto term : input)
-        {
-            auto &cmpd = (Compound &)*term;
-            const auto components = cmpd.terms;
-            output.push_back(components);
-        }
-    };
-
-    if (connector_parent == Connector::ExtensionalIntersection)
-    {
-        if (connector == Connector::ExtensionalSet)
-        {
-            std::vector<pTerms> terms_all;
-            get_all_terms(compounds, terms_all);
-            return Terms::intersection(terms_all);
-        }
-        else if (connector == Connector::IntensionalSet)
-        {
-            std::vector<pTerms> terms_all;
-            get_all_terms(compounds, terms_all);
-            return Terms::union_(terms_all);
-        }
-        else
-        {
-            return nullptr; // Return nullptr indicating no merge is needed
-        }
-    }
-    else if (connector_parent == Connector::IntensionalIntersection)
-    {
-        if (connector == Connector::ExtensionalSet)
-        {
-            std::vector<pTerms> terms_all;
-            get_all_terms(compounds, terms_all);
-            return Terms::union_(terms_all);
-        }
-        else if (connector == Connector::IntensionalSet)
-        {
-            std::vector<pTerms> terms_all;
-            get_all_terms(compounds, terms_all);
-            return Terms::intersection(terms_all);
-        }
-        else
-        {
-            return nullptr; // Return nullptr indicating no merge is needed
-        }
-    }
-    else if (connector_parent == Connector::ExtensionalDifference && connector == Connector::ExtensionalSet)
-    {
-        std::vector<pTerms> terms_all;
-        get_all_terms(compounds, terms_all);
-        return Terms::difference(terms_all);
-    }
-    else if (connector_parent == Connector::IntensionalDifference && connector == Connector::IntensionalSet)
-    {
-        std::vector<pTerms> terms_all;
-        get_all_terms(compounds, terms_all);
-        return Terms::difference(terms_all);
-    }
-    else if (connector_parent == connector)
-    {
-        std::vector<pTerm> terms_all;
-        for (auto term : compounds)
-        {
-            auto &cmpd = (Compound &)*term;
-            const auto components = cmpd.terms;
-            terms_all.insert(terms_all.end(), components->begin(), components->end());
-        }
-        return Terms::create(terms_all, CONNECTOR::is_commutative(connector));
-    }
-    else
-    {
-        return nullptr; // Return nullptr indicating no merge is needed
-    }
-}
-
-/*
-pre-process the terms, return the connecor of this compound and the set/list of components.
-For `{{A, B}, {B, C}}`, return `{, A, B, C`;
-    proof: {{A, B}, {B, C}}={(|, {A}, {B}), (|, {B}, {C})}=(|, (|, {A}, {B}), (|, {B}, {C}))=(|, {A}, {B}, {C})={A, B, C}
-For `[[A, B], [B, C]]`, return `[, A, B, C`;
-For `(con, (con, A, B), (con, B, C))`, return `con, A, B, C` if con is commutative, else return `con, A, B, B, C`
-For `(|, {A, B}, {B, C})`, return `{, A, B, C`;
-For `(&, [A, B], [B, C])`, return `[, A, B, C`;
-For `(con, A, B, C)`, return `con, A, B, C`;
-For `{{A, B}, {B, C}, D}`, return `{, {A, B, C}, D`;
-
-Returns:
-    connector, terms
-
-*/
-std::tuple<Connector, pTerms> prepocess_terms(Compound &self, Connector connector_parent, pTerms terms)
-{
-    // static const std::set<Connector> set1{Connector::Product, Connector::IntensionalImage, Connector::ExtensionalImage, Connector::ExtensionalDifference, Connector::IntensionalDifference};
-    auto is_commutative = CONNECTOR::is_commutative(connector_parent);
-    if (!CONNECTOR::is_reducible(connector_parent))
-    {
-        /*
-        For example, in the test-case `nal6.22.nal`, there is a statement
-        `<(*,(*,(*,0))) --> num>`
-        */
-        return {connector_parent, terms};
-    }
-    if (is_commutative)
-    {
-        /*
-        if there are terms with the same commutative connector, they should be combined together
-        */
-        // auto categories = std::map<Connector, std::vector<pTerm>>();
-        // auto categories = std::unordered_map<Connector, std::vector<pTerm>>();
-        std::unordered_map<Connector, std::vector<pTerm>> categories{};
-        pTerms _terms;
-        Connector _connector;
-        /* Step 1. Categorize the terms according to their connectors. */
-
-        pTerms terms2 = terms;
-        pTerms terms = pTerms(new Terms(is_commutative));
-        for (auto term : *terms2)
-        {
-            if (term->is_compound() && term->connector == connector_parent)
-                for (auto _term : *(term->terms))
-                    terms->push_back(_term);
-            else
-                terms->push_back(term);
-        }
-
-        for (auto term : *terms)
-        {
-            _connector = Connector::None; // `None` means the connector of the term is not cared about, because it just needs to be added into the parent compound-term as a whole.
-            if (term->is_compound())
-            {
-                auto &cmpd = (Compound &)*term;
-                if (cmpd.is_commutative)
-                    _connector = cmpd.connector;
-            }
-            if (!categories.contains(_connector))
-                categories[_connector] = std::vector<pTerm>();
-            auto &category = categories[_connector];
-            category.push_back(term);
-        }
-
-        /* Step 2. */
-        std::vector<std::tuple<Connector, pTerms>> terms_norm;
-        for (const auto &pair : categories)
-        {
-            auto &connector = pair.first;
-            auto &compounds = pair.second;
-            if (connector == Connector::None)
-            {
-                for (auto &compound : compounds)
-                    terms_norm.push_back({connector, Terms::create(std::vector{compound}, true)});
-                continue;
-            }
-
-            /* Now, `connector` is not `None`. */
-            auto terms_merged = _merge_compounds(connector_parent, connector, compounds);
-            if (terms_merged == nullptr || terms_merged->size() == 0)
-            {
-                /* Each compound stays a component as a whole. */
-                for (auto &compound : compounds)
-                    terms_norm.push_back({Connector::None, Terms::create(std::vector{compound}, true)});
-                continue;
-            }
-
-            /*
-            Now, `terms_merged` is not `None`.
-
-            However, the compounds (in `terms_merged`), as components, shouldn't further be constructed as a compound term immediately, as there are some cases where there is only one compound and the parent connector should be set as the current single compound connector, for example, (|, {A, B}, {C, D}) is handled and `terms_merged` is `A, B, C, D`. In this case, if this function returned a compound `{A, B, C, D}`, the parent compound would be (&, {A, B, C, D}), which is obviously incorrect.
-
-            Hence, the final construction of the compound is out of this function.
-            */
-            terms_norm.push_back({connector, terms_merged});
-        }
-
-        /* Step 3. */
-        if (terms_norm.size() > 1)
-        {
-            std::vector<pTerm> _terms_all;
-            for (auto &pair : terms_norm)
-            {
-                std::tie(_connector, _terms) = pair;
-                if (_connector == Connector::None || _connector == connector_parent)
-                {
-                    _terms_all.insert(_terms_all.end(), _terms->begin(), _terms->end());
-                }
-                else if (CONNECTOR::check_valid(_connector, _terms->size()))
-                {
-                    auto _term = Compound::create(_connector, _terms);
-                    _terms_all.push_back(_term);
-                }
-            }
-            if (_terms_all.size() > 1)
-            {
-                return {connector_parent, Terms::create(_terms_all, true)};
-            }
-            else // _terms_all.size() == 1
-            {
-                auto _term = *_terms_all.begin();
-                if (_term->is_compound())
-                {
-                    auto &_cmpd = (Compound &)(*_term);
-                    auto _connector = _cmpd.connector;
-                    terms_norm = {{_connector, _cmpd.terms}};
-                }
-                else
-                {
-                    terms_norm = {{Connector::None, Terms::create(_terms_all, true)}};
-                }
-            }
-        }
-
-        /* Step 4. */
-        {
-            /*
-            Now, there is only one term in `terms_norm`.
-            */
-            std::tie(_connector, _terms) = *terms_norm.begin();
-            /*
-            the connector returned depends on the types of `connector` and `connector_parent`. For example,
-                if `connector_parent` is `&` and `connector` is `{`, the return `connector`;
-                if `connector_parent` is `|` and `connector` is `{`, the return `connector`;
-                if `connector_parent` is `&` and `connector` is `&`, it makes no difference returning either `connector` or `connector_parent`;
-            */
-            if (_connector != Connector::None)
-            {
-                return {_connector, Terms::create(*_terms, true)};
-            }
-
-            /* otherwise, return `connector_parent` as the connector. */
-            return {connector_parent, Terms::create(*_terms, true)};
-            // return connector_parent, Terms(terms, is_commutative=True, is_input=is_input)
-        }
-    }
-    else
-    {
-        /*
-        E.g. (&/, (&/, A, B), (&|, C, D), E) will be converted to (&/, A, B, (&|, C, D), E)
-        */
-        auto expanded_terms = pTerms(new Terms(is_commutative));
-
-        for (const auto &term : *terms)
-        {
-            if (term->is_compound() && term->connector == connector_parent)
-            {
-                auto &cmpd = (Compound &)*term;
-                for (const auto &component : cmpd.components())
-                {
-                    expanded_terms->push_back(component);
-                }
-            }
-            else
-            {
-                expanded_terms->push_back(term);
-            }
-        }
-        return {connector_parent, expanded_terms};
-    }
-    return {connector_parent, terms};
-}
-
-Compound::Compound(Connector connector, pTerms terms, bool is_input) : Term(TermType::COMPOUND)
-{
-    this->is_hashed = false;
-
-    // this->type = TermType::COMPOUND;
-    this->connector = connector;
-    pTerms _terms;
-    std::tie(this->connector, _terms) = prepocess_terms(*this, connector, terms);
-    this->is_commutative = CONNECTOR::is_commutative(this->connector);
-    if (is_input)
-    {
-        this->terms = _terms;
-    }
-    else
-    {
-        this->terms = Terms::create(this->is_commutative);
-        for (auto &_term : *_terms)
-            this->terms->push_back(Term::clone(_term));
-    }
-    this->hash_value = hash(*this);
-    this->complexity = std::accumulate(this->terms->begin(), this->terms->end(), 0,
-                                       [](int sum, const auto &term)
-                                       { return sum + term->complexity; });
-
-    this->_refresh_var_status(*this->terms);
-    this->_init_indexvars(this->_index_vars(), *this->terms);
-    this->_build_indexvars();
-}
-
-Compound::Compound(Connector connector, std::list<pTerm> &terms, bool is_input) : Compound::Compound(connector, pTerms(new Terms(terms, CONNECTOR::is_commutative(connector))), is_input)
-{
-}
-
-Compound::Compound(Connector connector, std::vector<pTerm> &terms, bool is_input) : Compound::Compound(connector, pTerms(new Terms(terms, CONNECTOR::is_commutative(connector))), is_input)
-{
-}
-
-Compound::Compound(Connector connector, std::initializer_list<pTerm> terms, bool is_input) : Compound::Compound(connector, pTerms(new Terms(terms, CONNECTOR::is_commutative(connector))), is_input)
-{
-}
-
-void COMPOUND::pybind_compound(py::module &m)
-{
-    py::class_<COMPOUND::pCompound, TERM::pTerm>(m, "Compound")
-        .def(py::init(
-            [](CONNECTOR::Connector connector, py::args args)
-            {
-                std::vector<TERM::pTerm> terms{};
-                for (auto arg : args)
-                    terms.push_back(py::cast<TERM::pTerm>(arg));
-                if (terms.empty())
-                    throw py::value_error("A compound needs at least one component.");
-                return COMPOUND::Compound::create(connector, terms);
-            }))
-        // .def("__repr__", &TERM::pTerm::__repr__, py::arg("interpreter") = (void *)&INTERPRETER::interpreter);
-        .def("__repr__", [](const pCompound &self, void* interpreter=nullptr){
-                if (interpreter == nullptr)
-                    interpreter = (void *)&INTERPRETER::interpreter;
-                return self.__repr__(interpreter);
-            }, py::arg("interpreter") = (void *)nullptr);
-}
+// #include "../include/Narsese.h"
+#include "../include/Compound.h"
+#include "utils/hash.h"
+#include <map>
+#include <numeric>
+#include <tuple>
+#include <unordered_map>
+#include <vector>
+#include "Interpreter/include/Interpreter.hpp"
+
+using namespace COMPOUND;
+using std::tuple;
+using std::vector;
+using UTILS::hash;
+
+/*
+The `compounds` should have the same `connector`.
+(&, {A, B}, {B, C}) ====> {B}
+(|, {A, B}, {B, C}) ====> {A, B, C}
+(&, [A, B], [B, C]) ====> [A, B, C]
+(|, [A, B], [B, C]) ====> [B]
+(-, {A, B}, {B, C}) ====> {A}
+(~, [A, B], [B, C]) ====> [A]
+
+It is ensured that the concerned components have no further nested compound which should be unfolded, because if there were, it would be unfolded when building its parent compound.
+
+Make sure all the `compounds` have the same `connector`
+*/
+pTerms _merge_compounds(Connector connector_parent, Connector connector, const vector<pTerm> &compounds)
+{
+    auto get_all_terms = [connector_parent](const vector<pTerm> &input, std::vector<pTerms> &output)
+    {
+        for (auto term : input)
+        {
+            auto &cmpd = (Compound &)*term;
+            const auto components = cmpd.terms;
+            output.push_back(components);
+        }
+    };
+
+    if (connector_parent == Connector::ExtensionalIntersection)
+    {
+        if (connector == Connector::ExtensionalSet)
+        {
+            std::vector<pTerms> terms_all;
+            get_all_terms(compounds, terms_all);
+            return Terms::intersection(terms_all);
+        }
+        else if (connector == Connector::IntensionalSet)
+        {
+            std::vector<pTerms> terms_all;
+            get_all_terms(compounds, terms_all);
+            return Terms::union_(terms_all);
+        }
+        else
+        {
+            return nullptr; // Return nullptr indicating no merge is needed
+        }
+    }
+    else if (connector_parent == Connector::IntensionalIntersection)
+    {
+        if (connector == Connector::ExtensionalSet)
+        {
+            std::vector<pTerms> terms_all;
+            get_all_terms(compounds, terms_all);
+            return Terms::union_(terms_all);
+        }
+        else if (connector == Connector::IntensionalSet)
+        {
+            std::vector<pTerms> terms_all;
+            get_all_terms(compounds, terms_all);
+            return Terms::intersection(terms_all);
+        }
+        else
+        {
+            return nullptr; // Return nullptr indicating no merge is needed
+        }
+    }
+    else if (connector_parent == Connector::ExtensionalDifference && connector == Connector::ExtensionalSet)
+    {
+        std::vector<pTerms> terms_all;
+        get_all_terms(compounds, terms_all);
+        return Terms::difference(terms_all);
+    }
+    else if (connector_parent == Connector::IntensionalDifference && connector == Connector::IntensionalSet)
+    {
+        std::vector<pTerms> terms_all;
+        get_all_terms(compounds, terms_all);
+        return Terms::difference(terms_all);
+    }
+    else if (connector_parent == connector)
+    {
+        std::vector<pTerm> terms_all;
+        for (auto term : compounds)
+        {
+            auto &cmpd = (Compound &)*term;
+            const auto components = cmpd.terms;
+            terms_all.insert(terms_all.end(), components->begin(), components->end());
+        }
+        return Terms::create(terms_all, CONNECTOR::is_commutative(connector));
+    }
+    else
+    {
+        return nullptr; // Return nullptr indicating no merge is needed
+    }
+}
+
+/*
+pre-process the terms, return the connecor of this compound and the set/list of components.
+For `{{A, B}, {B, C}}`, return `{, A, B, C`;
+    proof: {{A, B}, {B, C}}={(|, {A}, {B}), (|, {B}, {C})}=(|, (|, {A}, {B}), (|, {B}, {C}))=(|, {A}, {B}, {C})={A, B, C}
+For `[[A, B], [B, C]]`, return `[, A, B, C`;
+For `(con, (con, A, B), (con, B, C))`, return `con, A, B, C` if con is commutative, else return `con, A, B, B, C`
+For `(|, {A, B}, {B, C})`, return `{, A, B, C`;
+For `(&, [A, B], [B, C])`, return `[, A, B, C`;
+For `(con, A, B, C)`, return `con, A, B, C`;
+For `{{A, B}, {B, C}, D}`, return `{, {A, B, C}, D`;
+
+Returns:
+    connector, terms
+
+*/
+std::tuple<Connector, pTerms> prepocess_terms(Compound &self, Connector connector_parent, pTerms terms)
+{
+    // static const std::set<Connector> set1{Connector::Product, Connector::IntensionalImage, Connector::ExtensionalImage, Connector::ExtensionalDifference, Connector::IntensionalDifference};
+    auto is_commutative = CONNECTOR::is_commutative(connector_parent);
+    if (!CONNECTOR::is_reducible(connector_parent))
+    {
+        /*
+        For example, in the test-case `nal6.22.nal`, there is a statement
+        `<(*,(*,(*,0))) --> num>`
+        */
+        return {connector_parent, terms};
+    }
+    if (is_commutative)
+    {
+        /*
+        if there are terms with the same commutative connector, they should be combined together
+        */
+        // auto categories = std::map<Connector, std::vector<pTerm>>();
+        // auto categories = std::unordered_map<Connector, std::vector<pTerm>>();
+        std::unordered_map<Connector, std::vector<pTerm>> categories{};
+        pTerms _terms;
+        Connector _connector;
+        /* Step 1. Categorize the terms according to their connectors. */
+
+        pTerms terms2 = terms;
+        pTerms terms = pTerms(new Terms(is_commutative));
+        for (auto term : *terms2)
+        {
+            if (term->is_compound() && term->connector == connector_parent)
+                for (auto _term : *(term->terms))
+                    terms->push_back(_term);
+            else
+                terms->push_back(term);
+        }
+
+        for (auto term : *terms)
+        {
+            _connector = Connector::None; // `None` means the connector of the term is not cared about, because it just needs to be added into the parent compound-term as a whole.
+            if (term->is_compound())
+            {
+                auto &cmpd = (Compound &)*term;
+                if (cmpd.is_commutative)
+                    _connector = cmpd.connector;
+            }
+            if (!categories.contains(_connector))
+                categories[_connector] = std::vector<pTerm>();
+            auto &category = categories[_connector];
+            category.push_back(term);
+        }
+
+        /* Step 2. */
+        std::vector<std::tuple<Connector, pTerms>> terms_norm;
+        for (const auto &pair : categories)
+        {
+            auto &connector = pair.first;
+            auto &compounds = pair.second;
+            if (connector == Connector::None)
+            {
+                for (auto &compound : compounds)
+                    terms_norm.push_back({connector, Terms::create(std::vector{compound}, true)});
+                continue;
+            }
+
+            /* Now, `connector` is not `None`. */
+            auto terms_merged = _merge_compounds(connector_parent, connector, compounds);
+            if (terms_merged == nullptr || terms_merged->size() == 0)
+            {
+                /* Each compound stays a component as a whole. */
+                for (auto &compound : compounds)
+                    terms_norm.push_back({Connector::None, Terms::create(std::vector{compound}, true)});
+                continue;
+            }
+
+            /*
+            Now, `terms_merged` is not `None`.
+
+            However, the compounds (in `terms_merged`), as components, shouldn't further be constructed as a compound term immediately, as there are some cases where there is only one compound and the parent connector should be set as the current single compound connector, for example, (|, {A, B}, {C, D}) is handled and `terms_merged` is `A, B, C, D`. In this case, if this function returned a compound `{A, B, C, D}`, the parent compound would be (&, {A, B, C, D}), which is obviously incorrect.
+
+            Hence, the final construction of the compound is out of this function.
+            */
+            terms_norm.push_back({connector, terms_merged});
+        }
+
+        /* Step 3. */
+        if (terms_norm.size() > 1)
+        {
+            std::vector<pTerm> _terms_all;
+            for (auto &pair : terms_norm)
+            {
+                std::tie(_connector, _terms) = pair;
+                if (_connector == Connector::None || _connector == connector_parent)
+                {
+                    _terms_all.insert(_terms_all.end(), _terms->begin(), _terms->end());
+                }
+                else if (CONNECTOR::check_valid(_connector, _terms->size()))
+                {
+                    auto _term = Compound::create(_connector, _terms);
+                    _terms_all.push_back(_term);
+                }
+            }
+            if (_terms_all.size() > 1)
+            {
+                return {connector_parent, Terms::create(_terms_all, true)};
+            }
+            else // _terms_all.size() == 1
+            {
+                auto _term = *_terms_all.begin();
+                if (_term->is_compound())
+                {
+                    auto &_cmpd = (Compound &)(*_term);
+                    auto _connector = _cmpd.connector;
+                    terms_norm = {{_connector, _cmpd.terms}};
+                }
+                else
+                {
+                    terms_norm = {{Connector::None, Terms::create(_terms_all, true)}};
+                }
+            }
+        }
+
+        /* Step 4. */
+        {
+            /*
+            Now, there is only one term in `terms_norm`.
+            */
+            std::tie(_connector, _terms) = *terms_norm.begin();
+            /*
+            the connector returned depends on the types of `connector` and `connector_parent`. For example,
+                if `connector_parent` is `&` and `connector` is `{`, the return `connector`;
+                if `connector_parent` is `|` and `connector` is `{`, the return `connector`;
+                if `connector_parent` is `&` and `connector` is `&`, it makes no difference returning either `connector` or `connector_parent`;
+            */
+            if (_connector != Connector::None)
+            {
+                return {_connector, Terms::create(*_terms, true)};
+            }
+
+            /* otherwise, return `connector_parent` as the connector. */
+            return {connector_parent, Terms::create(*_terms, true)};
+            // return connector_parent, Terms(terms, is_commutative=True, is_input=is_input)
+        }
+    }
+    else
+    {
+        /*
+        E.g. (&/, (&/, A, B), (&|, C, D), E) will be converted to (&/, A, B, (&|, C, D), E)
+        */
+        auto expanded_terms = pTerms(new Terms(is_commutative));
+
+        for (const auto &term : *terms)
+        {
+            if (term->is_compound() && term->connector == connector_parent)
+            {
+                auto &cmpd = (Compound &)*term;
+                for (const auto &component : cmpd.components())
+                {
+                    expanded_terms->push_back(component);
+                }
+            }
+            else
+            {
+                expanded_terms->push_back(term);
+            }
+        }
+        return {connector_parent, expanded_terms};
+    }
+    return {connector_parent, terms};
+}
+
+Compound::Compound(Connector connector, pTerms terms, bool is_input) : Term(TermType::COMPOUND)
+{
+    this->is_hashed = false;
+
+    // this->type = TermType::COMPOUND;
+    this->connector = connector;
+    pTerms _terms;
+    std::tie(this->connector, _terms) = prepocess_terms(*this, connector, terms);
+    this->is_commutative = CONNECTOR::is_commutative(this->connector);
+    if (is_input)
+    {
+        this->terms = _terms;
+    }
+    else
+    {
+        this->terms = Terms::create(this->is_commutative);
+        for (auto &_term : *_terms)
+            this->terms->push_back(Term::clone(_term));
+    }
+    this->hash_value = hash(*this);
+    this->complexity = std::accumulate(this->terms->begin(), this->terms->end(), 0,
+                                       [](int sum, const auto &term)
+                                       { return sum + term->complexity; });
+
+    this->_refresh_var_status(*this->terms);
+    this->_init_indexvars(this->_index_vars(), *this->terms);
+    this->_build_indexvars();
+}
+
+Compound::Compound(Connector connector, std::list<pTerm> &terms, bool is_input) : Compound::Compound(connector, pTerms(new Terms(terms, CONNECTOR::is_commutative(connector))), is_input)
+{
+}
+
+Compound::Compound(Connector connector, std::vector<pTerm> &terms, bool is_input) : Compound::Compound(connector, pTerms(new Terms(terms, CONNECTOR::is_commutative(connector))), is_input)
+{
+}
+
+Compound::Compound(Connector connector, std::initializer_list<pTerm> terms, bool is_input) : Compound::Compound(connector, pTerms(new Terms(terms, CONNECTOR::is_commutative(connector))), is_input)
+{
+}
+
+void COMPOUND::pybind_compound(py::module &m)
+{
+    py::class_<COMPOUND::pCompound, TERM::pTerm>(m, "Compound")
+        .def(py::init(
+            [](CONNECTOR::Connector connector, py::args args)
+            {
+                std::vector<TERM::pTerm> terms{};
+                for (auto arg : args)
+                    terms.push_back(py::cast<TERM::pTerm>(arg));
+                if (terms.empty())
+                    throw py::value_error("A compound needs at least one component.");
+                return COMPOUND::Compound::create(connector, terms);
+            }))
+        // .def("__repr__", &TERM::pTerm::__repr__, py::arg("interpreter") = (void *)&INTERPRETER::interpreter);
+        .def("__repr__", [](const pCompound &self, void* interpreter=nullptr){
+                if (interpreter == nullptr)
+                    interpreter = (void *)&INTERPRETER::interpreter;
+                return self.__repr__(interpreter);
+            }, py::arg("interpreter") = (void *)nullptr);
+}
diff --git a/Narsese/src/Connector.cpp b/Narsese/src/Connector.cpp
index 5155dce..52a2d97 100755
--- a/Narsese/src/Connector.cpp
+++ b/Narsese/src/Connector.cpp
@@ -1,27 +1,27 @@
-#include "../include/Connector.h"
-
-
-using namespace CONNECTOR;
-
-namespace CONNECTOR
-{
-    void pybind_connnector(py::module &m)
-    {
-        py::enum_<CONNECTOR::Connector>(m, "Connector")
-            .value("Conjunction", CONNECTOR::Connector::Conjunction, "&&")
-            .value("Disjunction", CONNECTOR::Connector::Disjunction, "||")
-            .value("Product", CONNECTOR::Connector::Product, "*")
-            .value("ParallelEvents", CONNECTOR::Connector::ParallelEvents, "&|")
-            .value("SequentialEvents", CONNECTOR::Connector::SequentialEvents, "&/")
-            .value("IntensionalIntersection", CONNECTOR::Connector::IntensionalIntersection, "|")
-            .value("ExtensionalIntersection", CONNECTOR::Connector::ExtensionalIntersection, "&")
-            .value("ExtensionalDifference", CONNECTOR::Connector::ExtensionalDifference, "-")
-            .value("IntensionalDifference", CONNECTOR::Connector::IntensionalDifference, "~")
-            .value("Negation", CONNECTOR::Connector::Negation, "--")
-            .value("IntensionalSet", CONNECTOR::Connector::IntensionalSet, "[")
-            .value("ExtensionalSet", CONNECTOR::Connector::ExtensionalSet, "{")
-            .value("IntensionalImage", CONNECTOR::Connector::IntensionalImage, "\\")
-            .value("ExtensionalImage", CONNECTOR::Connector::ExtensionalImage, "/")
-            .value("List", CONNECTOR::Connector::List, "#");
-    }
-} // namespace CONNECTOR
+#include "../include/Connector.h"
+
+
+using namespace CONNECTOR;
+
+namespace CONNECTOR
+{
+    void pybind_connnector(py::module &m)
+    {
+        py::enum_<CONNECTOR::Connector>(m, "Connector")
+            .value("Conjunction", CONNECTOR::Connector::Conjunction, "&&")
+            .value("Disjunction", CONNECTOR::Connector::Disjunction, "||")
+            .value("Product", CONNECTOR::Connector::Product, "*")
+            .value("ParallelEvents", CONNECTOR::Connector::ParallelEvents, "&|")
+            .value("SequentialEvents", CONNECTOR::Connector::SequentialEvents, "&/")
+            .value("IntensionalIntersection", CONNECTOR::Connector::IntensionalIntersection, "|")
+            .value("ExtensionalIntersection", CONNECTOR::Connector::ExtensionalIntersection, "&")
+            .value("ExtensionalDifference", CONNECTOR::Connector::ExtensionalDifference, "-")
+            .value("IntensionalDifference", CONNECTOR::Connector::IntensionalDifference, "~")
+            .value("Negation", CONNECTOR::Connector::Negation, "--")
+            .value("IntensionalSet", CONNECTOR::Connector::IntensionalSet, "[")
+            .value("ExtensionalSet", CONNECTOR::Connector::ExtensionalSet, "{")
+            .value("IntensionalImage", CONNECTOR::Connector::IntensionalImage, "\\")
+            .value("ExtensionalImage", CONNECTOR::Connector::ExtensionalImage, "/")
+            .value("List", CONNECTOR::Connector::List, "#");
+    }
+} // namespace CONNECTOR
diff --git a/Narsese/src/Term.cpp b/Narsese/src/Term.cpp
index a6db615..22ce17d 100755
--- a/Narsese/src/Term.cpp
+++ b/Narsese/src/Term.cpp
@@ -1,142 +1,142 @@
-#include "../include/Term.h"
-#include "../include/Copula.h"
-#include "../include/Term.inl"
-#include "Interpreter/include/Interpreter.hpp"
-#include "utils/hash.h"
-#include <list>
-#include <pybind11/stl.h>
-#include <string>
-#include <vector>
-
-// using namespace TERM;
-using INTERPRETER::Interpreter;
-using std::string;
-using TERM::pTerm;
-
-namespace TERM
-{
-    pTerm Term::create(const char *word, void *interpreter)
-    {
-        if (interpreter == nullptr)
-        {
-            interpreter = &INTERPRETER::interpreter;
-        }
-        auto &_interpreter = *(Interpreter *)interpreter;
-
-        pTerm *term;
-        auto str = std::string(word);
-        if (_interpreter.check_by_name(str) > 0)
-        {
-            auto key = _interpreter.get_by_name(str);
-            term = (pTerm *)_interpreter.get_object(key);
-            // std::cout << "create Term " << (size_t)term << std::endl;
-        }
-        else
-        {
-            term = new pTerm(new Term(), &_interpreter);
-            _interpreter.put((*term)->hash_value, str, (void *)term);
-        }
-        return *term;
-    }
-
-    void pTerm::_free_from_interpreter()
-    {
-        auto &interpreter = *(Interpreter *)this->_interpreter;
-        const auto &term = **this;
-        interpreter.remove(term.hash_value);
-    }
-
-    std::string pTerm::__repr__(void *interpreter) const
-    {
-        std::string mark;
-        if ((*this)->is_atom())
-        {
-            if ((*this)->is_var)
-                mark = "Variable";
-            else
-                mark = "Term";
-        }
-        else if ((*this)->is_statement())
-            mark = "Statement";
-        else if ((*this)->is_compound())
-            mark = "Compound";
-        else
-            throw std::runtime_error("Unknown type of the term.");
-
-        if (interpreter == nullptr)
-        {
-            if (this->_interpreter == nullptr)
-                return fmt::format("<{} at {:x}>", mark, (size_t)this->get());
-            else
-                interpreter = this->_interpreter;
-        }
-        auto &_interpreter = *(Interpreter *)interpreter;
-
-        return fmt::format("<{}: {}>", mark, _interpreter.interpret(**this));
-    }
-
-    void pybind_term(py::module &m)
-    {
-        py::class_<pTerm>(m, "Term")
-            .def(py::init(
-                []()
-                {
-                    return TERM::Term::create();
-                }))
-            .def(py::init(
-                [](std::string word)
-                {
-                    return TERM::Term::create((char *)word.c_str(), nullptr);
-                }))
-            .def_property_readonly(
-                "subject",
-                [](const pTerm &self) -> py::object
-                {
-                    if (self->subject == nullptr)
-                        return py::none();
-                    return py::cast(self->subject);
-                })
-            .def_property_readonly(
-                "predicate",
-                [](const pTerm &self) -> py::object
-                {
-                    if (self->predicate == nullptr)
-                        return py::none();
-                    return py::cast(self->predicate);
-                })
-            .def_property_readonly(
-                "terms",
-                [](const pTerm &self) -> py::object
-                {
-                    if (self->is_atom())
-                        return py::none();
-                    else if (self->is_statement())
-                        return py::iter(py::cast(std::vector<pTerm>{self->subject, self->predicate}));
-                    else if (self->is_compound())
-                        return py::iter(py::cast((std::vector<pTerm>)*self->terms));
-                    else
-                    {
-                        PyErr_SetString(PyExc_TypeError, fmt::format("In file <{}> line <{}>: Invalid TermType", __FILE__, __LINE__).c_str());
-                        throw py::error_already_set();
-                    }
-                })
-            .def_property_readonly(
-                "copula",
-                [](const pTerm &self) -> py::object
-                {
-                    if (self->copula == Copula::None)
-                        return py::none();
-                    return py::cast(self->copula);
-                })
-            .def("__repr__", [](const pTerm &self, void* interpreter=nullptr){
-                if (interpreter == nullptr)
-                    interpreter = (void *)&INTERPRETER::interpreter;
-                return self.__repr__(interpreter);
-            }, py::arg("interpreter") = (void *)nullptr);
-    }
-
-    void pybind_terms(py::module &m)
-    {
-    }
-
-}
+#include "../include/Term.h"
+#include "../include/Copula.h"
+#include "../include/Term.inl"
+#include "Interpreter/include/Interpreter.hpp"
+#include "utils/hash.h"
+#include <list>
+#include <pybind11/stl.h>
+#include <string>
+#include <vector>
+
+// using namespace TERM;
+using INTERPRETER::Interpreter;
+using std::string;
+using TERM::pTerm;
+
+namespace TERM
+{
+    pTerm Term::create(const char *word, void *interpreter)
+    {
+        if (interpreter == nullptr)
+        {
+            interpreter = &INTERPRETER::interpreter;
+        }
+        auto &_interpreter = *(Interpreter *)interpreter;
+
+        pTerm *term;
+        auto str = std::string(word);
+        if (_interpreter.check_by_name(str) > 0)
+        {
+            auto key = _interpreter.get_by_name(str);
+            term = (pTerm *)_interpreter.get_object(key);
+            // std::cout << "create Term " << (size_t)term << std::endl;
+        }
+        else
+        {
+            term = new pTerm(new Term(), &_interpreter);
+            _interpreter.put((*term)->hash_value, str, (void *)term);
+        }
+        return *term;
+    }
+
+    void pTerm::_free_from_interpreter()
+    {
+        auto &interpreter = *(Interpreter *)this->_interpreter;
+        const auto &term = **this;
+        interpreter.remove(term.hash_value);
+    }
+
+    std::string pTerm::__repr__(void *interpreter) const
+    {
+        std::string mark;
+        if ((*this)->is_atom())
+        {
+            if ((*this)->is_var)
+                mark = "Variable";
+            else
+                mark = "Term";
+        }
+        else if ((*this)->is_statement())
+            mark = "Statement";
+        else if ((*this)->is_compound())
+            mark = "Compound";
+        else
+            throw std::runtime_error("Unknown type of the term.");
+
+        if (interpreter == nullptr)
+        {
+            if (this->_interpreter == nullptr)
+                return fmt::format("<{} at {:x}>", mark, (size_t)this->get());
+            else
+                interpreter = this->_interpreter;
+        }
+        auto &_interpreter = *(Interpreter *)interpreter;
+
+        return fmt::format("<{}: {}>", mark, _interpreter.interpret(**this));
+    }
+
+    void pybind_term(py::module &m)
+    {
+        py::class_<pTerm>(m, "Term")
+            .def(py::init(
+                []()
+                {
+                    return TERM::Term::create();
+                }))
+            .def(py::init(
+                [](std::string word)
+                {
+                    return TERM::Term::create((char *)word.c_str(), nullptr);
+                }))
+            .def_property_readonly(
+                "subject",
+                [](const pTerm &self) -> py::object
+                {
+                    if (self->subject == nullptr)
+                        return py::none();
+                    return py::cast(self->subject);
+                })
+            .def_property_readonly(
+                "predicate",
+                [](const pTerm &self) -> py::object
+                {
+                    if (self->predicate == nullptr)
+                        return py::none();
+                    return py::cast(self->predicate);
+                })
+            .def_property_readonly(
+                "terms",
+                [](const pTerm &self) -> py::object
+                {
+                    if (self->is_atom())
+                        return py::none();
+                    else if (self->is_statement())
+                        return py::iter(py::cast(std::vector<pTerm>{self->subject, self->predicate}));
+                    else if (self->is_compound())
+                        return py::iter(py::cast((std::vector<pTerm>)*self->terms));
+                    else
+                    {
+                        PyErr_SetString(PyExc_TypeError, fmt::format("In file <{}> line <{}>: Invalid TermType", __FILE__, __LINE__).c_str());
+                        throw py::error_already_set();
+                    }
+                })
+            .def_property_readonly(
+                "copula",
+                [](const pTerm &self) -> py::object
+                {
+                    if (self->copula == Copula::None)
+                        return py::none();
+                    return py::cast(self->copula);
+                })
+            .def("__repr__", [](const pTerm &self, void* interpreter=nullptr){
+                if (interpreter == nullptr)
+                    interpreter = (void *)&INTERPRETER::interpreter;
+                return self.__repr__(interpreter);
+            }, py::arg("interpreter") = (void *)nullptr);
+    }
+
+    void pybind_terms(py::module &m)
+    {
+    }
+
+}
-- 
2.43.0


From fde14fc336bb15c9541f04e7e02c98cca0d47ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:22 +0000
Subject: [PATCH 39/50] fix: show a durability or confidence that rounds to 0
 or 1 as one that can be read

---
 Interpreter/src/Interpreter.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/Interpreter/src/Interpreter.cpp b/Interpreter/src/Interpreter.cpp
index 7b324e5..8c1cffe 100644
--- a/Interpreter/src/Interpreter.cpp
+++ b/Interpreter/src/Interpreter.cpp
@@ -228,6 +228,7 @@ string Interpreter::interpret(Task &task, bool colored)
     p = std::round((p >= 0 ? (p <= 1 ? p : 1) : 0) * 1000) / 1000;
     d = std::round((d >= 0 ? (d <= 1 ? d : 1) : 0) * 1000) / 1000;
     q = std::round((q >= 0 ? (q <= 1 ? q : 1) : 0) * 1000) / 1000;
+    d = std::min(std::max(d, 0.01f), 0.99f); // the durability is inside (0, 1), and so is the one that is shown
 
     auto color_priority = fmt::bg(fmt::rgb(std::min(255, int(255 * p / 2 + 10)), 10, 10));
     auto color_durability = fmt::bg(fmt::rgb(10, std::min(255, int(255 * d / 2 + 10)), 10));
@@ -245,6 +246,12 @@ string Interpreter::interpret(Task &task, bool colored)
     }
 }
 
+// The confidence is inside (0, 1), and so is the one that is shown.
+static float shown_confidence(const TRUTH::Truth &truth)
+{
+    return std::min(std::max(truth.c, 0.001f), 0.999f);
+}
+
 string Interpreter::interpret(Sentence &sentence, bool colored)
 {
     auto &punct = sentence.punct;
@@ -261,7 +268,8 @@ string Interpreter::interpret(Sentence &sentence, bool colored)
         if ((sentence.is_judgement() || sentence.is_goal()) && sentence.truth != nullptr)
         {
             const auto &truth = *sentence.truth;
-            str_truth = fmt::format("{0}{1}{3}{2}{0}", fmt::format(color_percent, "%"), fmt::format(color_number, "{:.3f}", truth.f), fmt::format(color_number, "{:.3f}", truth.c), fmt::format(color_percent, ";"));
+            auto c = shown_confidence(truth);
+            str_truth = fmt::format("{0}{1}{3}{2}{0}", fmt::format(color_percent, "%"), fmt::format(color_number, "{:.3f}", truth.f), fmt::format(color_number, "{:.3f}", c), fmt::format(color_percent, ";"));
         }
         str_punct = fmt::format(color_punct, SENTENCE::PUNCTUATION::Repr[(int)(sentence.punct)]);
         str_stamp = sentence.stamp->is_eternal ? "" : fmt::format(color_tense, "{} ", TENSE::Repr[sentence.stamp->tense()]);
@@ -273,7 +281,8 @@ string Interpreter::interpret(Sentence &sentence, bool colored)
         if ((sentence.is_judgement() || sentence.is_goal()) && sentence.truth != nullptr)
         {
             const auto &truth = *sentence.truth;
-            str_truth = fmt::format("%{:.3f};{:.3f}%", truth.f, truth.c);
+            auto c = shown_confidence(truth);
+            str_truth = fmt::format("%{:.3f};{:.3f}%", truth.f, c);
         }
         str_punct = SENTENCE::PUNCTUATION::Repr[(int)(sentence.punct)];
         str_stamp = sentence.stamp->is_eternal ? "" : fmt::format("{} ", TENSE::Repr[sentence.stamp->tense()]);
-- 
2.43.0


From 1efec888fb42292ee43424a7ee5ee4d8a848afc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:23 +0000
Subject: [PATCH 40/50] fix: give each iterator over terms its own position
 when assigned

---
 Narsese/include/Term.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Narsese/include/Term.h b/Narsese/include/Term.h
index 0666871..5bc583a 100755
--- a/Narsese/include/Term.h
+++ b/Narsese/include/Term.h
@@ -220,14 +220,19 @@ namespace TERM
         using iterator_category = std::input_iterator_tag;
 
     public:
-        Iterator(const Iterator &iterator)
+        Iterator(const Iterator &iterator) : _is_commutative(iterator._is_commutative)
         {
-            *this = iterator;
             if (this->_is_commutative)
                 it_ = new auto(*(std::set<pTerm>::iterator *)(iterator.it_));
             else
                 it_ = new auto(*(std::vector<pTerm>::iterator *)(iterator.it_));
         }
+        Iterator &operator=(Iterator other) // each iterator owns its `it_`
+        {
+            std::swap(this->_is_commutative, other._is_commutative);
+            std::swap(this->it_, other.it_);
+            return *this;
+        }
         Iterator(std::vector<pTerm>::const_iterator it) : it_((void *)new auto(it)), _is_commutative(false) {}
         Iterator(std::set<pTerm>::iterator it) : it_((void *)new auto(it)), _is_commutative(true) {}
 
-- 
2.43.0


From cf3171d299531c4a59585127c193d1127b15e4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:52 +0000
Subject: [PATCH 41/50] fix: keep the variable index when rebuilding it runs
 out of memory

---
 utils/IndexVar.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/utils/IndexVar.cpp b/utils/IndexVar.cpp
index c9f7293..3a80a89 100755
--- a/utils/IndexVar.cpp
+++ b/utils/IndexVar.cpp
@@ -92,12 +92,8 @@ void IndexVar::build(bool rebuild)
     if (!rebuild && this->_is_built)
         return;
 
-    if (successors.size() > 0)
-    {
-        indices.clear();
-        positions.clear();
-    }
-
+    vector<pInt> indices_built;
+    vector<vector<int>> positions_built;
     for (int bias_pos = 0; bias_pos < successors.size(); bias_pos++)
     {
         successors[bias_pos]->build(rebuild);
@@ -109,8 +105,14 @@ void IndexVar::build(bool rebuild)
             position.insert(position.end(), pos.begin(), pos.end());
             positions.push_back(position);
         }
-        this->indices.insert(this->indices.end(), _indices.begin(), _indices.end());
-        this->positions.insert(this->positions.end(), positions.begin(), positions.end());
+        indices_built.insert(indices_built.end(), _indices.begin(), _indices.end());
+        positions_built.insert(positions_built.end(), positions.begin(), positions.end());
+    }
+    if (successors.size() > 0)
+    {
+        /* the index as it was is given up only now that the new one is complete */
+        this->indices.swap(indices_built);
+        this->positions.swap(positions_built);
     }
 
     this->_is_built = true;
-- 
2.43.0


From 3c4720c98e047707d89ab04ab210ede44676a1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:42 +0000
Subject: [PATCH 42/50] fix: rebuilding a variable index renews its normalised
 form

---
 utils/IndexVar.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utils/IndexVar.cpp b/utils/IndexVar.cpp
index 3a80a89..8bc3c92 100755
--- a/utils/IndexVar.cpp
+++ b/utils/IndexVar.cpp
@@ -114,6 +114,8 @@ void IndexVar::build(bool rebuild)
         this->indices.swap(indices_built);
         this->positions.swap(positions_built);
     }
+    this->_indices_normalized = nullptr;
+    this->_is_hashed = false;
 
     this->_is_built = true;
     this->_hash_value = hash(*this);
-- 
2.43.0


From 6a9ae606f212550039e3950ba05aadad7f0d97fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:42 +0000
Subject: [PATCH 43/50] fix: connecting an index with positions lists each
 variable once

---
 utils/IndexVar.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/utils/IndexVar.cpp b/utils/IndexVar.cpp
index 8bc3c92..e961142 100755
--- a/utils/IndexVar.cpp
+++ b/utils/IndexVar.cpp
@@ -81,8 +81,6 @@ void IndexVar::connect(pIndexVar father, pIndexVar son, bool generate_pos)
         position.insert(position.end(), pos.begin(), pos.end());
         positions.push_back(position);
     }
-    indices.insert(indices.end(), son->indices.begin(), son->indices.end());
-    positions.insert(positions.end(), son->positions.begin(), son->positions.end());
     father->indices.insert(father->indices.end(), indices.begin(), indices.end());
     father->positions.insert(father->positions.end(), positions.begin(), positions.end());
 }
-- 
2.43.0


From 21f50b3759edb1e1b2725ec6cadc93de0df9ab23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:58 +0000
Subject: [PATCH 44/50] fix: a rejected line of standard input is consumed
 whole

The characters behind the error stayed in the stream and were taken for the
next lines; a last line without a newline was refused.
---
 Narsese/Parser/Parser.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/Narsese/Parser/Parser.cpp b/Narsese/Parser/Parser.cpp
index f6b3e3c..208770a 100644
--- a/Narsese/Parser/Parser.cpp
+++ b/Narsese/Parser/Parser.cpp
@@ -1,4 +1,5 @@
 #include "./Parser.h"
+#include <cstdio>
 #include <iostream>
 #include <memory>
 
@@ -45,9 +46,11 @@ void *Parser::parse_string(std::string &input)
 
 void *Parser::parse_input()
 {
-    char_fetcher.switch_stdin_mode();
-    this->parse();
-    return this->take_result();
+    /* The whole line is taken from the input, so that nothing of it is left for the next call if it is rejected. */
+    std::string line;
+    for (int ch = getchar(); ch != EOF && ch != '\n'; ch = getchar())
+        line.push_back((char)ch);
+    return this->parse_string(line);
 }
 
 void *Parser::take_result()
-- 
2.43.0


From 6219dad222bedf419c32a9d90ae36a5e6a904397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:58 +0000
Subject: [PATCH 45/50] fix: an id of both evidential bases takes one place in
 the merged base

Shared ids were counted twice, so ids were dropped from merged bases that were
smaller than the maximum.
---
 Narsese/include/Evidence.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/Narsese/include/Evidence.h b/Narsese/include/Evidence.h
index 4c3ba2f..c92c75e 100755
--- a/Narsese/include/Evidence.h
+++ b/Narsese/include/Evidence.h
@@ -45,19 +45,18 @@ namespace EVIDENCE
             size_t i = 0;
             auto it1 = base1._set->begin();
             auto it2 = base2._set->begin();
-            while (i < base_length)
+            while (i < base_length && (it1 != base1._set->end() || it2 != base2._set->end()))
             {
+                /* an id of both bases takes one place */
                 if (it2 != base2._set->end())
                 {
-                    base._set->insert(*it2);
+                    i += base._set->insert(*it2).second;
                     it2++;
-                    i++;
                 }
                 if (i < base_length && it1 != base1._set->end())
                 {
-                    base._set->insert(*it1);
+                    i += base._set->insert(*it1).second;
                     it1++;
-                    i++;
                 }
             }
         }
-- 
2.43.0


From 3439324c850a6697d0cf22f437fd5842af7bd6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:59 +0000
Subject: [PATCH 46/50] fix: a line with a NUL in it is rejected instead of
 being cut there

---
 Narsese/Parser/Parser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Narsese/Parser/Parser.cpp b/Narsese/Parser/Parser.cpp
index 208770a..4f746ba 100644
--- a/Narsese/Parser/Parser.cpp
+++ b/Narsese/Parser/Parser.cpp
@@ -34,6 +34,9 @@ Parser::Parser()
 
 void *Parser::parse_string(std::string &input)
 {
+    if (input.find('\0') != std::string::npos)
+        return nullptr; // there is no NUL in Narsese; it would be taken for the end of the line
+
     char_fetcher.switch_string_mode();
     char_fetcher.clear();
     char_fetcher.fill(input);
-- 
2.43.0


From ea603f3b27cd2e49e1c1a538ebe2d32378677450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:59 +0000
Subject: [PATCH 47/50] fix: names that differ behind a NUL are different names

---
 Narsese/include/Term.h | 2 +-
 Narsese/src/Term.cpp   | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Narsese/include/Term.h b/Narsese/include/Term.h
index 5bc583a..abd3b8a 100755
--- a/Narsese/include/Term.h
+++ b/Narsese/include/Term.h
@@ -160,7 +160,7 @@ namespace TERM
             return pTerm(term);
         }
 
-        static pTerm create(const char *word, void *interpreter = nullptr);
+        static pTerm create(const string &word, void *interpreter = nullptr);
 
         static pTerm clone(pTerm term);
 
diff --git a/Narsese/src/Term.cpp b/Narsese/src/Term.cpp
index 22ce17d..07b119a 100755
--- a/Narsese/src/Term.cpp
+++ b/Narsese/src/Term.cpp
@@ -15,7 +15,7 @@ using TERM::pTerm;
 
 namespace TERM
 {
-    pTerm Term::create(const char *word, void *interpreter)
+    pTerm Term::create(const string &word, void *interpreter)
     {
         if (interpreter == nullptr)
         {
@@ -24,7 +24,7 @@ namespace TERM
         auto &_interpreter = *(Interpreter *)interpreter;
 
         pTerm *term;
-        auto str = std::string(word);
+        auto str = word;
         if (_interpreter.check_by_name(str) > 0)
         {
             auto key = _interpreter.get_by_name(str);
@@ -86,7 +86,7 @@ namespace TERM
             .def(py::init(
                 [](std::string word)
                 {
-                    return TERM::Term::create((char *)word.c_str(), nullptr);
+                    return TERM::Term::create(word, nullptr);
                 }))
             .def_property_readonly(
                 "subject",
-- 
2.43.0


From a65cce0749539dc0cbde9b5aef1f97c3179a1e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:59 +0000
Subject: [PATCH 48/50] fix: a term whose hash is that of an atom is not shown
 as that atom

---
 Interpreter/src/Interpreter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Interpreter/src/Interpreter.cpp b/Interpreter/src/Interpreter.cpp
index 8c1cffe..978be0a 100644
--- a/Interpreter/src/Interpreter.cpp
+++ b/Interpreter/src/Interpreter.cpp
@@ -62,10 +62,10 @@ string Interpreter::interpret(Term &term, bool colored)
         }
     }
 
-    if (this->check(key))
+    if (term.type == TermType::ATOM && this->check(key)) // only atoms have names; others may have the same hash
     {
         /* If it has been existed, then directly get the interpretation by key. */
-        if (term.type == TermType::ATOM && colored)
+        if (colored)
         {
             if (!term.is_operation)
                 return fmt::format(color_term, "{}", this->get(key));
-- 
2.43.0


From 16cbafb139546328d363d3d6eaacf16809a52147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:59 +0000
Subject: [PATCH 49/50] fix: the quality of no truth is an error in Python, not
 a crash

---
 Narsese/src/Budget.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Narsese/src/Budget.cpp b/Narsese/src/Budget.cpp
index 2913b3a..79b5bed 100755
--- a/Narsese/src/Budget.cpp
+++ b/Narsese/src/Budget.cpp
@@ -13,7 +13,7 @@ namespace BUDGET
             .def_readwrite("p", &Budget::priority)
             .def_readwrite("d", &Budget::durability)
             .def_readwrite("q", &Budget::quality)
-            .def_static("quality_from_truth", [](TRUTH::pTruth t) { return Budget::quality_from_truth(*t); })
+            .def_static("quality_from_truth", [](TRUTH::pTruth t) { return Budget::quality_from_truth(*t); }, py::arg("t").none(false))
             .def("__repr__", [](Budget& self)
                  { return fmt::format("<Budget: ${:.2f};{:.2f};{:.2f}$>", self.priority, self.durability, self.quality); });
     }
-- 
2.43.0


From 1a0b806c773a5966a0f8f4b4b673de937688576f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:59 +0000
Subject: [PATCH 50/50] fix: numbers that are no connector, copula or
 punctuation are refused in Python

---
 Narsese/src/Compound.cpp  | 2 ++
 Narsese/src/Sentence.cpp  | 2 ++
 Narsese/src/Statement.cpp | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/Narsese/src/Compound.cpp b/Narsese/src/Compound.cpp
index ed6c6f2..dcb640c 100755
--- a/Narsese/src/Compound.cpp
+++ b/Narsese/src/Compound.cpp
@@ -336,6 +336,8 @@ void COMPOUND::pybind_compound(py::module &m)
         .def(py::init(
             [](CONNECTOR::Connector connector, py::args args)
             {
+                if (connector < 0 || connector >= std::size(CONNECTOR::Repr))
+                    throw py::value_error("Unknown connector.");
                 std::vector<TERM::pTerm> terms{};
                 for (auto arg : args)
                     terms.push_back(py::cast<TERM::pTerm>(arg));
diff --git a/Narsese/src/Sentence.cpp b/Narsese/src/Sentence.cpp
index 26cf6c3..606a5c9 100755
--- a/Narsese/src/Sentence.cpp
+++ b/Narsese/src/Sentence.cpp
@@ -33,6 +33,8 @@ namespace SENTENCE
             .def(py::init(
                 [](TERM::pTerm term, PUNCTUATION::Punctuation _punct, pTruth _truth, pStamp _stamp)
                 {
+                    if (_punct < 0 || _punct >= std::size(PUNCTUATION::Repr))
+                        throw py::value_error("Unknown punctuation.");
                     return SENTENCE::Sentence::create(term, _punct, _truth, _stamp);
                 }), py::arg("term"), py::arg("punct"), py::arg("truth"), py::arg("stamp"))
             // .def("__repr__", &pSentence::__repr__, py::arg("interpreter") = (void *)&INTERPRETER::interpreter);
diff --git a/Narsese/src/Statement.cpp b/Narsese/src/Statement.cpp
index ec5d3a3..84975a7 100755
--- a/Narsese/src/Statement.cpp
+++ b/Narsese/src/Statement.cpp
@@ -18,6 +18,8 @@ namespace STATEMENT
             .def(py::init(
                 [](TERM::pTerm subject, COPULA::Copula copula, TERM::pTerm predicate)
                 {
+                    if (copula < 0 || copula >= std::size(COPULA::Repr))
+                        throw py::value_error("Unknown copula.");
                     return STATEMENT::Statement::create(subject, copula, predicate);
                 }))
             // .def("__repr__", &TERM::pTerm::__repr__, py::arg("interpreter") = (void *)&INTERPRETER::interpreter);
-- 
2.43.0

