From c99282efbdd76292f075263ad167eef0c313b239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:32 +0000
Subject: [PATCH 01/80] fix: apply read-only marks and source locations through
 config block views

mark_read_only(), is_read_only(), set_location() and get_location() acted on
the view's own, otherwise unused, lists. An entry marked read-only through a
view could still be modified, and a view did not report its parent's marks.
---
 vital/config/config_block.cxx | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/vital/config/config_block.cxx b/vital/config/config_block.cxx
index e888069..d667b09 100644
--- a/vital/config/config_block.cxx
+++ b/vital/config/config_block.cxx
@@ -227,6 +227,11 @@ bool
 config_block
 ::is_read_only( config_block_key_t const& key ) const
 {
+  if ( m_parent )
+  {
+    return m_parent->is_read_only( m_name + block_sep + key );
+  }
+
   return 0 != m_ro_list.count( key );
 }
 
@@ -237,6 +242,12 @@ void
 config_block
 ::mark_read_only( config_block_key_t const& key )
 {
+  if ( m_parent )
+  {
+    m_parent->mark_read_only( m_name + block_sep + key );
+    return;
+  }
+
   m_ro_list.insert( key );
 }
 
@@ -400,6 +411,12 @@ void
 config_block
 ::set_location( config_block_key_t const& key, std::shared_ptr< std::string > file, int line )
 {
+  if ( m_parent )
+  {
+    m_parent->set_location( m_name + block_sep + key, file, line );
+    return;
+  }
+
   m_def_store[key] = source_location( file, line );
 }
 
@@ -411,6 +428,11 @@ config_block
                 std::string& f,
                 int& l) const
 {
+  if ( m_parent )
+  {
+    return m_parent->get_location( m_name + block_sep + key, f, l );
+  }
+
   location_t::const_iterator i = m_def_store.find( key );
   if ( i != m_def_store.end() )
   {
-- 
2.43.0


From ae5366d70ba2272da3e80a50b7d67339365c975a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:02 +0000
Subject: [PATCH 02/80] fix: make block-global entries accessible through
 config block views

A view (and a sub-block of a view) lists the '_global:' entries of its parent
under their own names, but every access prefixed the name with the block, so
reading, printing, copying or merging a view of a block with global entries
failed with a no-such-value error.
---
 vital/config/config_block.cxx | 45 ++++++++++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/vital/config/config_block.cxx b/vital/config/config_block.cxx
index d667b09..c2c6be1 100644
--- a/vital/config/config_block.cxx
+++ b/vital/config/config_block.cxx
@@ -97,6 +97,10 @@ static bool does_not_begin_with( config_block_key_t const&  key,
 static config_block_key_t strip_block_name( config_block_key_t const& subblock,
                                             config_block_key_t const& key );
 
+/// private helper method to get the key used by the parent of a block view
+static config_block_key_t parent_key( config_block_key_t const& subblock,
+                                      config_block_key_t const& key );
+
 // Create an empty configuration.
 config_block_sptr
 config_block
@@ -167,7 +171,7 @@ config_block
 {
   if ( m_parent )
   {
-    return m_parent->get_description( m_name + block_sep + key );
+    return m_parent->get_description( parent_key( m_name, key ) );
   }
 
   store_t::const_iterator i = m_descr_store.find( key );
@@ -188,7 +192,7 @@ config_block
 {
   if ( m_parent )
   {
-    m_parent->unset_value( m_name + block_sep + key );
+    m_parent->unset_value( parent_key( m_name, key ) );
   }
   else
   {
@@ -229,7 +233,7 @@ config_block
 {
   if ( m_parent )
   {
-    return m_parent->is_read_only( m_name + block_sep + key );
+    return m_parent->is_read_only( parent_key( m_name, key ) );
   }
 
   return 0 != m_ro_list.count( key );
@@ -244,7 +248,7 @@ config_block
 {
   if ( m_parent )
   {
-    m_parent->mark_read_only( m_name + block_sep + key );
+    m_parent->mark_read_only( parent_key( m_name, key ) );
     return;
   }
 
@@ -313,7 +317,7 @@ config_block
 {
   if ( m_parent )
   {
-    return m_parent->has_value( m_name + block_sep + key );
+    return m_parent->has_value( parent_key( m_name, key ) );
   }
 
   return ( 0 != m_store.count( key ) );
@@ -358,7 +362,7 @@ config_block
 {
   if ( m_parent )
   {
-    return m_parent->i_get_value( m_name + block_sep + key );
+    return m_parent->i_get_value( parent_key( m_name, key ) );
   }
 
   store_t::const_iterator i = m_store.find( key );
@@ -382,7 +386,7 @@ config_block
 {
   if ( m_parent )
   {
-    m_parent->set_value( m_name + block_sep + key, value, descr );
+    m_parent->set_value( parent_key( m_name, key ), value, descr );
   }
   else
   {
@@ -413,7 +417,7 @@ config_block
 {
   if ( m_parent )
   {
-    m_parent->set_location( m_name + block_sep + key, file, line );
+    m_parent->set_location( parent_key( m_name, key ), file, line );
     return;
   }
 
@@ -430,7 +434,7 @@ config_block
 {
   if ( m_parent )
   {
-    return m_parent->get_location( m_name + block_sep + key, f, l );
+    return m_parent->get_location( parent_key( m_name, key ), f, l );
   }
 
   location_t::const_iterator i = m_def_store.find( key );
@@ -540,6 +544,29 @@ strip_block_name( config_block_key_t const& subblock, config_block_key_t const&
 }
 
 
+// ------------------------------------------------------------------
+// private helper method to get the key used by the parent of a block view
+/**
+ * This is the inverse of strip_block_name() for the keys listed by a view:
+ * global keys are the same in the view and in its parent, all others are
+ * prefixed by the name of the view.
+ *
+ * \param subblock  The subblock name of the view.
+ * \param key       The key in terms of the view.
+ * \returns The key in terms of the parent of the view.
+ */
+config_block_key_t
+parent_key( config_block_key_t const& subblock, config_block_key_t const& key )
+{
+  if ( starts_with( key, config_block::global_value + config_block::block_sep ) )
+  {
+    return key;
+  }
+
+  return subblock + config_block::block_sep + key;
+}
+
+
 // ------------------------------------------------------------------
 /// Format config block in a printable stream
 void
-- 
2.43.0


From 49c63b47a26fda5c73f836ed427e577dde4ac8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:26 +0000
Subject: [PATCH 03/80] fix: accept one and two character names in
 configuration files

Keys and block names may be of any length; the token pattern required at
least three characters, so "x = 1" was rejected and a written block with
such a key could not be read back.
---
 vital/config/config_parser.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/config/config_parser.cxx b/vital/config/config_parser.cxx
index 85fc5a5..f9eb5b2 100644
--- a/vital/config/config_parser.cxx
+++ b/vital/config/config_parser.cxx
@@ -537,7 +537,7 @@ public:
   {
     // Words are LHS tokens, which start with a letter, and can not end with a ':'
     // A *word* can contain these symbols "- _ : . /"
-    static kwiversys::RegularExpression re_word( "^[a-zA-Z][-a-zA-Z0-9.:/_]+[-a-zA-Z0-9./_]" );
+    static kwiversys::RegularExpression re_word( "^[a-zA-Z]([-a-zA-Z0-9.:/_]*[-a-zA-Z0-9./_])?" );
     static kwiversys::RegularExpression re_flag( "^\\[[a-zA-Z,]+\\]" );
 
     // Test for end of line while processing
-- 
2.43.0


From 2a2bdf21742bb81aa393a0d625dcd9440adb805a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:26 +0000
Subject: [PATCH 04/80] fix: only words are configuration file directives

A line such as "= endblock" has an operator where a name is expected. The
text following the operator was taken for a directive instead of being
reported as a syntax error.
---
 vital/config/config_parser.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vital/config/config_parser.cxx b/vital/config/config_parser.cxx
index f9eb5b2..d056513 100644
--- a/vital/config/config_parser.cxx
+++ b/vital/config/config_parser.cxx
@@ -229,7 +229,7 @@ public:
       } // end EOF
 
       // ------------------------------------------------------------------
-      if ( token.value == "include" )
+      if ( token.type == token_t::TK_WORD && token.value == "include" )
       {
         /*
          * Handle "include" <file-path>
@@ -281,7 +281,7 @@ public:
       }
 
       // ------------------------------------------------------------------
-      if ( token.value == "block" )
+      if ( token.type == token_t::TK_WORD && token.value == "block" )
       {
         /*
          * Handle "block" <block-name>
@@ -318,7 +318,7 @@ public:
       }
 
       // ------------------------------------------------------------------
-      if ( token.value == "endblock" )
+      if ( token.type == token_t::TK_WORD && token.value == "endblock" )
       {
         /*
          * Handled "endblock" keyword
@@ -342,7 +342,7 @@ public:
 
       // ------------------------------------------------------------------
       bool rel_path(false);
-      if ( token.value == "relativepath" )
+      if ( token.type == token_t::TK_WORD && token.value == "relativepath" )
       {
         /*
          * Handle "relatiepath" <key> = <filepath>
-- 
2.43.0


From 8ed283d5c6467235435d32af9403001d9756205c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:26 +0000
Subject: [PATCH 05/80] fix: report incomplete configuration file lines

A block directive without a name took the first word of the following line
as its name, dropping that line, and a name without an operator was joined
with the next line. Both are syntax errors.
---
 vital/config/config_parser.cxx | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/vital/config/config_parser.cxx b/vital/config/config_parser.cxx
index d056513..d2c8f18 100644
--- a/vital/config/config_parser.cxx
+++ b/vital/config/config_parser.cxx
@@ -286,7 +286,7 @@ public:
         /*
          * Handle "block" <block-name>
          */
-        get_token( in_stream, token ); // get block name
+        get_token_on_line( in_stream, token ); // get block name
         if ( token.type != token_t::TK_WORD )
         {
           // Unexpected token - syntax error
@@ -349,7 +349,7 @@ public:
          * This is a modifier for a config entry
          */
         rel_path = true;
-        get_token( in_stream, token ); // get next token
+        get_token_on_line( in_stream, token ); // get next token
       }
 
       // This is supposed to be an LHS token
@@ -367,7 +367,7 @@ public:
       // ------------------------------------------------------------------
       const std::string lhs( token.value ); // save LHS symbol
 
-      get_token( in_stream, token ); // get next token
+      get_token_on_line( in_stream, token ); // get next token
 
       //
       // Process flags or attributes
@@ -402,7 +402,7 @@ public:
           m_parse_error = true;
         }
 
-        get_token( in_stream, token ); // get next token
+        get_token_on_line( in_stream, token ); // get next token
       } // end while
 
       // ------------------------------------------------------------------
@@ -596,6 +596,32 @@ public:
   }
 
 
+  // ------------------------------------------------------------------
+  /**
+   * @brief Get next token from the current line.
+   *
+   * This method is used where a statement is not yet complete. A
+   * statement does not continue on the next line, so it is an error
+   * if there is nothing left on the current line.
+   *
+   * @param[in] str Stream to read from
+   * @param token[out] next token from line
+   */
+  void get_token_on_line( std::istream& str, token_t & token )
+  {
+    if ( m_token_line.empty() )
+    {
+      token.type = token_t::TK_ERROR;
+      token.value.clear();
+
+      m_parse_error = true;
+      return;
+    }
+
+    get_token( str, token );
+  }
+
+
   // ------------------------------------------------------------------
   /**
    * @brief Flush remaining line in parser.
-- 
2.43.0


From f0a48b87978a8905a807a58192f7304a2ae52c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:26 +0000
Subject: [PATCH 06/80] fix: do not look for included configuration files in
 PATH

Included files are found on the configuration search path and next to the
including files. The executable search path was tried first, so that an
included file with the name of a program was not found.
---
 vital/config/config_parser.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vital/config/config_parser.cxx b/vital/config/config_parser.cxx
index d2c8f18..ce8c6dc 100644
--- a/vital/config/config_parser.cxx
+++ b/vital/config/config_parser.cxx
@@ -669,7 +669,7 @@ public:
 
     // The file is on a relative path.
     // See if file can be found in the search path.
-    std::string res_file = kwiversys::SystemTools::FindFile( file_name, this->m_search_path, false );
+    std::string res_file = kwiversys::SystemTools::FindFile( file_name, this->m_search_path, true );
     if ( "" != res_file )
     {
       return res_file;
@@ -696,7 +696,7 @@ public:
       }
     } // end for
 
-    return kwiversys::SystemTools::FindFile( file_name, include_paths, false );
+    return kwiversys::SystemTools::FindFile( file_name, include_paths, true );
   }
 
 
-- 
2.43.0


From ece6d408535569b018f583962b6a714e520b4f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:26 +0000
Subject: [PATCH 07/80] fix: do not share regular expressions between
 configuration readers

A RegularExpression object holds the state of its last match. Two threads
reading configuration files at the same time overwrote each other's matches.
---
 vital/config/config_parser.cxx  | 4 ++--
 vital/config/token_expander.cxx | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/vital/config/config_parser.cxx b/vital/config/config_parser.cxx
index ce8c6dc..ad54d7d 100644
--- a/vital/config/config_parser.cxx
+++ b/vital/config/config_parser.cxx
@@ -537,8 +537,8 @@ public:
   {
     // Words are LHS tokens, which start with a letter, and can not end with a ':'
     // A *word* can contain these symbols "- _ : . /"
-    static kwiversys::RegularExpression re_word( "^[a-zA-Z]([-a-zA-Z0-9.:/_]*[-a-zA-Z0-9./_])?" );
-    static kwiversys::RegularExpression re_flag( "^\\[[a-zA-Z,]+\\]" );
+    kwiversys::RegularExpression re_word( "^[a-zA-Z]([-a-zA-Z0-9.:/_]*[-a-zA-Z0-9./_])?" );
+    kwiversys::RegularExpression re_flag( "^\\[[a-zA-Z,]+\\]" );
 
     // Test for end of line while processing
     if ( m_token_line.size() == 0)
diff --git a/vital/config/token_expander.cxx b/vital/config/token_expander.cxx
index 6fd60ce..eae65be 100644
--- a/vital/config/token_expander.cxx
+++ b/vital/config/token_expander.cxx
@@ -86,7 +86,7 @@ token_expander::
 expand_token( std::string const& initial_string )
 {
   std::string new_value;
-  static kwiversys::RegularExpression exp( "\\$([a-zA-Z][a-zA-Z0-9_]*)\\{([a-zA-Z0-9._:]+)?\\}" );
+  kwiversys::RegularExpression exp( "\\$([a-zA-Z][a-zA-Z0-9_]*)\\{([a-zA-Z0-9._:]+)?\\}" );
 
   std::string::const_iterator start, end;
   start = initial_string.begin();
-- 
2.43.0


From 2b530f9aa04670709d3b1a04632a3c627b45d153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:22 +0000
Subject: [PATCH 08/80] fix: report failure to open or write a configuration
 file

write_config_file() documents an exception when something prevents output of
the file, but ignored the state of the output stream.
---
 vital/config/config_block_io.cxx | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/vital/config/config_block_io.cxx b/vital/config/config_block_io.cxx
index ba47e56..c7e32a1 100644
--- a/vital/config/config_block_io.cxx
+++ b/vital/config/config_block_io.cxx
@@ -394,9 +394,18 @@ write_config_file( config_block_sptr const& config,
 
   // open output file and write each key/value to a line.
   std::ofstream ofile( file_path.c_str() );
+  if ( ! ofile )
+  {
+    throw config_file_write_exception( file_path, "Could not open file for writing." );
+  }
 
   write_config( config, ofile );
   ofile.close();
+
+  if ( ! ofile )
+  {
+    throw config_file_write_exception( file_path, "Error writing to file." );
+  }
 }
 
 
-- 
2.43.0


From 33b3b33b9f26f05178cf84e63643801e89b06899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:39 +0000
Subject: [PATCH 09/80] fix: let regular expressions be used by several threads

The working variables of RegularExpression::compile() and find() were
shared by all threads, so that reading configuration files concurrently
failed or crashed although each reader has its own expressions.
---
 vital/kwiversys/RegularExpression.cxx | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/vital/kwiversys/RegularExpression.cxx b/vital/kwiversys/RegularExpression.cxx
index 598e7ca..488b69a 100644
--- a/vital/kwiversys/RegularExpression.cxx
+++ b/vital/kwiversys/RegularExpression.cxx
@@ -295,11 +295,11 @@ const unsigned char MAGIC = 0234;
 /*
  * Global work variables for compile().
  */
-static const char* regparse;    // Input-scan pointer.
-static       int   regnpar;     // () count.
-static       char  regdummy;
-static       char* regcode;     // Code-emit pointer; &regdummy = don't.
-static       long  regsize;     // Code size.
+static thread_local const char* regparse;    // Input-scan pointer.
+static thread_local       int   regnpar;     // () count.
+static thread_local       char  regdummy;
+static thread_local       char* regcode;     // Code-emit pointer; &regdummy = don't.
+static thread_local       long  regsize;     // Code size.
 
 /*
  * Forward declarations for compile()'s friends.
@@ -863,10 +863,10 @@ static void regoptail (char* p, const char* val) {
 /*
  * Global work variables for find().
  */
-static const char*  reginput;   // String-input pointer.
-static const char*  regbol;     // Beginning of input, for ^ check.
-static const char* *regstartp;  // Pointer to startp array.
-static const char* *regendp;    // Ditto for endp.
+static thread_local const char*  reginput;   // String-input pointer.
+static thread_local const char*  regbol;     // Beginning of input, for ^ check.
+static thread_local const char* *regstartp;  // Pointer to startp array.
+static thread_local const char* *regendp;    // Ditto for endp.
 
 /*
  * Forwards.
-- 
2.43.0


From a5bcbba4d990ffcbb9078016a8ec65d84fcf92d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:05 +0000
Subject: [PATCH 10/80] fix: serialize concurrent requests for loggers

The instance pointer of the logger manager was tested without the lock and
the logger map of the default factory was not protected at all, so that
concurrent requests could crash or return different loggers for one name.
---
 vital/logger/default_logger.cxx        | 2 ++
 vital/logger/default_logger.h          | 2 ++
 vital/logger/kwiver_logger_manager.cxx | 5 -----
 3 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/vital/logger/default_logger.cxx b/vital/logger/default_logger.cxx
index 44910df..6798347 100644
--- a/vital/logger/default_logger.cxx
+++ b/vital/logger/default_logger.cxx
@@ -259,6 +259,8 @@ logger_handle_t
 logger_factory_default
 ::get_logger( std::string const& name )
 {
+  std::lock_guard< std::mutex > guard( m_active_loggers_mtx );
+
   // look for logger in the map
   std::map< std::string, logger_handle_t >::iterator it = m_active_loggers.find( name );
   if (it != m_active_loggers.end() )
diff --git a/vital/logger/default_logger.h b/vital/logger/default_logger.h
index e81315e..c43a6e5 100644
--- a/vital/logger/default_logger.h
+++ b/vital/logger/default_logger.h
@@ -35,6 +35,7 @@
 #include "kwiver_logger_factory.h"
 
 #include <map>
+#include <mutex>
 #include <string>
 
 namespace kwiver {
@@ -71,6 +72,7 @@ public:
   virtual logger_handle_t get_logger( std::string const& name );
 
 private:
+  std::mutex m_active_loggers_mtx; // serialize access to the logger map
   std::map< std::string, logger_handle_t > m_active_loggers;
 
 }; // end class logger_factory
diff --git a/vital/logger/kwiver_logger_manager.cxx b/vital/logger/kwiver_logger_manager.cxx
index 4830c47..9b211b5 100644
--- a/vital/logger/kwiver_logger_manager.cxx
+++ b/vital/logger/kwiver_logger_manager.cxx
@@ -162,11 +162,6 @@ kwiver_logger_manager * kwiver_logger_manager
 {
   static std::mutex local_lock;          // synchronization lock
 
-  if (0 != s_instance)
-  {
-    return s_instance;
-  }
-
   std::lock_guard<std::mutex> lock(local_lock);
   if (0 == s_instance)
   {
-- 
2.43.0


From c08f3d1c52ba45533ab6c2d39a057469eab19b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:05 +0000
Subject: [PATCH 11/80] fix: allow changing a log level while other threads are
 logging

---
 vital/logger/default_logger.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vital/logger/default_logger.cxx b/vital/logger/default_logger.cxx
index 6798347..bcf583e 100644
--- a/vital/logger/default_logger.cxx
+++ b/vital/logger/default_logger.cxx
@@ -33,6 +33,7 @@
 #include "default_logger.h"
 #include "kwiver_logger.h"
 
+#include <atomic>
 #include <memory>
 #include <mutex>
 #include <chrono>
@@ -240,7 +241,7 @@ private:
 
 
   // ##################################################################
-  log_level_t                  m_logLevel;       // current logging level
+  std::atomic< log_level_t >   m_logLevel;       // current logging level
 
   std::mutex                   m_formatter_mtx;
 
-- 
2.43.0


From 59a32ed60628e4e014d9477ad34f87c5bae77c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:05 +0000
Subject: [PATCH 12/80] fix: apply the log level to log_message()

The default logger emitted every message logged with log_message(), whatever
the level of the logger.
---
 vital/logger/default_logger.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vital/logger/default_logger.cxx b/vital/logger/default_logger.cxx
index bcf583e..b4871c1 100644
--- a/vital/logger/default_logger.cxx
+++ b/vital/logger/default_logger.cxx
@@ -173,6 +173,8 @@ private:
   virtual void log_message( log_level_t         level,
                             std::string const&  msg )
   {
+    if ( m_logLevel > level ) { return; }
+
     log_message_i( level, msg, "" );
   }
 
@@ -225,6 +227,8 @@ private:
                             std::string const&              msg,
                             logger_ns::location_info const& location )
   {
+    if ( m_logLevel > level ) { return; }
+
     // format location
     std::stringstream loc;
     loc << location.get_file_name() << "(" << location.get_line_number() << "): ";
-- 
2.43.0


From b46232a9f460ff6390d7566f2e3741af50e3615d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:05 +0000
Subject: [PATCH 13/80] fix: correct the time stamp of log messages

The milliseconds were not padded (7 ms was shown as .7), the seconds were
read from the clock a second time, and the buffer of localtime() was shared
by concurrently logging threads.
---
 vital/logger/default_logger.cxx | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/vital/logger/default_logger.cxx b/vital/logger/default_logger.cxx
index b4871c1..b60dba6 100644
--- a/vital/logger/default_logger.cxx
+++ b/vital/logger/default_logger.cxx
@@ -39,7 +39,9 @@
 #include <chrono>
 #include <iomanip>
 #include <iostream>
+#include <stdio.h>
 #include <string.h>
+#include <time.h>
 
 namespace kwiver {
 namespace vital {
@@ -206,16 +208,18 @@ private:
     std::istringstream ss( msg );
 
     char buf[1024];
-    time(&t);
-    strftime(buf, sizeof(buf), "%Y-%m-%d %H:%M:%S", localtime(&t));
+    char msec[8];
+    snprintf( msec, sizeof(msec), "%03u", static_cast< unsigned >( fractional_seconds ) );
 
     {
       std::lock_guard< std::mutex > guard( lock ); // serialize access to stream
+      strftime(buf, sizeof(buf), "%Y-%m-%d %H:%M:%S", localtime(&t));
+
       std::ostream* str = &get_stream();
       while ( getline( ss, msg_part ) )
       {
         *str << buf
-             << '.' << fractional_seconds
+             << '.' << msec
              << ' ' << level_str << ' ' << location << msg_part << '\n';
       }
     }
-- 
2.43.0


From da8d030aac926215f8e28f9016e20b1ae5660e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:05 +0000
Subject: [PATCH 14/80] fix: close the brace in the LOG_ASSERT macro

---
 vital/logger/logger.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/logger/logger.h b/vital/logger/logger.h
index 7eaf82d..edc3265 100644
--- a/vital/logger/logger.h
+++ b/vital/logger/logger.h
@@ -243,7 +243,7 @@ logger_handle_t VITAL_LOGGER_EXPORT get_logger( std::string const& name );
     if ( ! ( cond ) ) {                                        \
       std::stringstream _oss_; _oss_  << "ASSERTION FAILED: (" \
                                       << # cond ")\n"  << msg; \
-      logger->log_error( _oss_.str(), KWIVER_LOGGER_SITE );     \
+      logger->log_error( _oss_.str(), KWIVER_LOGGER_SITE ); } \
 } while ( 0 )
 
 
-- 
2.43.0


From 1d96084c903c9571b99c44c2e13e1dbd38d7811b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:44 +0000
Subject: [PATCH 15/80] fix: log messages with an empty text

A message is logged line by line; one without any line left no trace at all.
---
 vital/logger/default_logger.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vital/logger/default_logger.cxx b/vital/logger/default_logger.cxx
index b60dba6..1227f77 100644
--- a/vital/logger/default_logger.cxx
+++ b/vital/logger/default_logger.cxx
@@ -216,12 +216,15 @@ private:
       strftime(buf, sizeof(buf), "%Y-%m-%d %H:%M:%S", localtime(&t));
 
       std::ostream* str = &get_stream();
-      while ( getline( ss, msg_part ) )
+
+      getline( ss, msg_part ); // an empty message is logged as one line
+      do
       {
         *str << buf
              << '.' << msec
              << ' ' << level_str << ' ' << location << msg_part << '\n';
       }
+      while ( getline( ss, msg_part ) );
     }
   }
 
-- 
2.43.0


From 74109deca9c5081bbce0b5618dc49ce8d125b7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:02 +0000
Subject: [PATCH 16/80] fix: first frame of a track set

The search started at frame zero, so that the result was zero for all
sets of tracks that start later.
---
 vital/types/track_set.cxx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vital/types/track_set.cxx b/vital/types/track_set.cxx
index 2c84c6f..990dbab 100644
--- a/vital/types/track_set.cxx
+++ b/vital/types/track_set.cxx
@@ -120,13 +120,19 @@ track_set
 ::first_frame() const
 {
   frame_id_t first_frame = 0;
+  bool found = false;
   const std::vector<track_sptr> all_tracks = this->tracks();
 
   VITAL_FOREACH( track_sptr t, all_tracks)
   {
-    if( t->first_frame() < first_frame )
+    if( t->empty() )
+    {
+      continue;
+    }
+    if( ! found || t->first_frame() < first_frame )
     {
       first_frame = t->first_frame();
+      found = true;
     }
   }
 
-- 
2.43.0


From 7511668c3bc6e2f3bcd363108038fc90b8887913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:02 +0000
Subject: [PATCH 17/80] fix: ignore tracks without states in track set queries

A track without states reports zero as its first and last frame: it was
taken for a new and terminated track on frame zero, and reading its last
feature or descriptor went past the start of an empty vector.
---
 vital/types/track_set.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vital/types/track_set.cxx b/vital/types/track_set.cxx
index 990dbab..316839b 100644
--- a/vital/types/track_set.cxx
+++ b/vital/types/track_set.cxx
@@ -211,7 +211,7 @@ track_set
 
   VITAL_FOREACH( track_sptr t, all_tracks)
   {
-    if( t->first_frame() == frame_number )
+    if( ! t->empty() && t->first_frame() == frame_number )
     {
       new_tracks.push_back(t);
     }
@@ -232,7 +232,7 @@ track_set
 
   VITAL_FOREACH( track_sptr t, all_tracks)
   {
-    if( t->last_frame() == frame_number )
+    if( ! t->empty() && t->last_frame() == frame_number )
     {
       terminated_tracks.push_back(t);
     }
@@ -281,7 +281,7 @@ track_set
 
   VITAL_FOREACH( track_sptr t, all_tracks)
   {
-    if( t->last_frame() == last_frame )
+    if( ! t->empty() && t->last_frame() == last_frame )
     {
       last_features.push_back((t->end()-1)->feat);
     }
@@ -302,7 +302,7 @@ track_set
 
   VITAL_FOREACH( track_sptr t, all_tracks)
   {
-    if( t->last_frame() == last_frame )
+    if( ! t->empty() && t->last_frame() == last_frame )
     {
       last_descriptors.push_back((t->end()-1)->desc);
     }
-- 
2.43.0


From 26a77f3b68336003127a4412f1125758bc2d0ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:02 +0000
Subject: [PATCH 18/80] fix: do not read colors that are out of range

---
 vital/types/color.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vital/types/color.h b/vital/types/color.h
index 0359c11..e67a6a1 100644
--- a/vital/types/color.h
+++ b/vital/types/color.h
@@ -98,6 +98,11 @@ operator>>( std::istream& s, rgb_color& c )
 {
   int rv = 255, gv = 255, bv = 255;
   s >> rv >> gv >> bv;
+  if( rv < 0 || rv > 255 || gv < 0 || gv > 255 || bv < 0 || bv > 255 )
+  {
+    s.setstate( std::ios_base::failbit );
+    return s;
+  }
   c.r = static_cast<unsigned char>( rv );
   c.g = static_cast<unsigned char>( gv );
   c.b = static_cast<unsigned char>( bv );
-- 
2.43.0


From d4daf2c0ab1d008b397fa480ba7d978016d286dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:02 +0000
Subject: [PATCH 19/80] fix: report truncated lines of track files

The attributes missing in the line were left uninitialized.
---
 vital/io/track_set_io.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vital/io/track_set_io.cxx b/vital/io/track_set_io.cxx
index 672bbc9..f408353 100644
--- a/vital/io/track_set_io.cxx
+++ b/vital/io/track_set_io.cxx
@@ -84,6 +84,11 @@ read_track_file( path_t const& file_path )
     feature_d feat;
     std::stringstream ss( line );
     ss >> tid >> fid >> feat;
+    if ( ! ss )
+    {
+      throw file_not_read_exception( file_path,
+            "Could not parse line \"" + line + "\"." );
+    }
 
     track_sptr t;
     std::map< track_id_t, track_sptr >::const_iterator it = track_map.find( tid );
-- 
2.43.0


From 0db520a7a78a93fb4578a4b10e5e5cb34c2adf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:02 +0000
Subject: [PATCH 20/80] fix: report failures to write track, landmark and
 camera files

---
 vital/io/camera_io.cxx       | 9 +++++++++
 vital/io/landmark_map_io.cxx | 9 +++++++++
 vital/io/track_set_io.cxx    | 8 ++++++++
 3 files changed, 26 insertions(+)

diff --git a/vital/io/camera_io.cxx b/vital/io/camera_io.cxx
index bfbb322..50c08c6 100644
--- a/vital/io/camera_io.cxx
+++ b/vital/io/camera_io.cxx
@@ -117,8 +117,17 @@ write_krtd_file( camera const&  cam,
 
   // open output file and write the ins_data
   std::ofstream ofile( file_path.c_str() );
+  if ( ! ofile )
+  {
+    throw file_write_exception( file_path, "Could not open file for writing." );
+  }
+
   ofile << cam;
   ofile.close();
+  if ( ! ofile )
+  {
+    throw file_write_exception( file_path, "Error writing to file." );
+  }
 }
 
 
diff --git a/vital/io/landmark_map_io.cxx b/vital/io/landmark_map_io.cxx
index 4f8501e..e8e97c4 100644
--- a/vital/io/landmark_map_io.cxx
+++ b/vital/io/landmark_map_io.cxx
@@ -85,6 +85,11 @@ write_ply_file( landmark_map_sptr const&  landmarks,
 
   // open output file and write the tracks
   std::ofstream ofile( file_path.c_str() );
+  if ( ! ofile )
+  {
+    throw file_write_exception( file_path, "Could not open file for writing." );
+  }
+
   // write the PLY header
   ofile << "ply\n"
            "format ascii 1.0\n"
@@ -119,6 +124,10 @@ write_ply_file( landmark_map_sptr const&  landmarks,
           << " " << p.first << " " << p.second->observations() << "\n";
   }
   ofile.close();
+  if ( ! ofile )
+  {
+    throw file_write_exception( file_path, "Error writing to file." );
+  }
 } // write_ply_file
 
 
diff --git a/vital/io/track_set_io.cxx b/vital/io/track_set_io.cxx
index f408353..e2a6b75 100644
--- a/vital/io/track_set_io.cxx
+++ b/vital/io/track_set_io.cxx
@@ -146,6 +146,10 @@ write_track_file( track_set_sptr const& tracks,
 
   // open output file and write the tracks
   std::ofstream ofile( file_path.c_str() );
+  if ( ! ofile )
+  {
+    throw file_write_exception( file_path, "Could not open file for writing." );
+  }
   std::vector< vital::track_sptr > trks = tracks->tracks();
   VITAL_FOREACH( vital::track_sptr t, trks )
   {
@@ -155,6 +159,10 @@ write_track_file( track_set_sptr const& tracks,
     }
   }
   ofile.close();
+  if ( ! ofile )
+  {
+    throw file_write_exception( file_path, "Error writing to file." );
+  }
 } // write_track_file
 
 } } // end namespace
-- 
2.43.0


From 7fefea25ff9932e1e919fe1e6c8656c601588961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:02 +0000
Subject: [PATCH 21/80] fix: write tracks and landmarks with full precision

With six significant digits, positions in large images and in map
coordinates do not read back as the same values.
---
 vital/io/landmark_map_io.cxx | 2 ++
 vital/io/track_set_io.cxx    | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/vital/io/landmark_map_io.cxx b/vital/io/landmark_map_io.cxx
index e8e97c4..0a7cd66 100644
--- a/vital/io/landmark_map_io.cxx
+++ b/vital/io/landmark_map_io.cxx
@@ -45,6 +45,7 @@
 #include <fstream>
 #include <iostream>
 #include <iterator>
+#include <limits>
 #include <sstream>
 
 namespace kwiver {
@@ -108,6 +109,7 @@ write_ply_file( landmark_map_sptr const&  landmarks,
                                                      "property uint observations\n"
                                                      "end_header\n";
 
+  ofile.precision( std::numeric_limits< double >::max_digits10 );
   landmark_map::map_landmark_t lm_map = landmarks->landmarks();
   typedef  landmark_map::map_landmark_t::value_type lm_map_val_t;
   VITAL_FOREACH( lm_map_val_t const& p, lm_map )
diff --git a/vital/io/track_set_io.cxx b/vital/io/track_set_io.cxx
index e2a6b75..f1e4ed9 100644
--- a/vital/io/track_set_io.cxx
+++ b/vital/io/track_set_io.cxx
@@ -39,6 +39,7 @@
 
 #include <fstream>
 #include <iostream>
+#include <limits>
 #include <sstream>
 #include <vector>
 #include <map>
@@ -150,6 +151,7 @@ write_track_file( track_set_sptr const& tracks,
   {
     throw file_write_exception( file_path, "Could not open file for writing." );
   }
+  ofile.precision( std::numeric_limits< double >::max_digits10 );
   std::vector< vital::track_sptr > trks = tracks->tracks();
   VITAL_FOREACH( vital::track_sptr t, trks )
   {
-- 
2.43.0


From b9d1d0365ead30601f8c2975c98c6d04a827dba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:02 +0000
Subject: [PATCH 22/80] fix: read exactly as many vertices as a PLY file
 declares

The line after the last vertex was taken for another one.
---
 vital/io/landmark_map_io.cxx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/vital/io/landmark_map_io.cxx b/vital/io/landmark_map_io.cxx
index 0a7cd66..230e2d4 100644
--- a/vital/io/landmark_map_io.cxx
+++ b/vital/io/landmark_map_io.cxx
@@ -258,6 +258,12 @@ read_ply_file( path_t const& file_path )
       continue;
     }
 
+    // all vertices were read, the data of other elements may follow
+    if ( vert_count >= num_verts )
+    {
+      break;
+    }
+
     // TODO throw exceptions if tokens.size() != vert_props.size()
     // or if the values do not parse as expected
     double x=0, y=0, z=0;
@@ -318,12 +324,6 @@ read_ply_file( path_t const& file_path )
     lm->set_color( color );
     lm->set_observations( observations );
     landmarks[id] = lm;
-
-    // exit if we have read the expected number of points
-    if ( vert_count > num_verts )
-    {
-      break;
-    }
   }
 
   ifile.close();
-- 
2.43.0


From 1b144b3c68fd7e2ab423ec571f1a69ac5688bd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:02 +0000
Subject: [PATCH 23/80] fix: report incomplete and unparsable PLY files

---
 vital/io/landmark_map_io.cxx | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/vital/io/landmark_map_io.cxx b/vital/io/landmark_map_io.cxx
index 230e2d4..999a6e1 100644
--- a/vital/io/landmark_map_io.cxx
+++ b/vital/io/landmark_map_io.cxx
@@ -264,8 +264,11 @@ read_ply_file( path_t const& file_path )
       break;
     }
 
-    // TODO throw exceptions if tokens.size() != vert_props.size()
-    // or if the values do not parse as expected
+    if ( tokens.size() < vert_props.size() )
+    {
+      throw file_not_read_exception( file_path, "Incomplete vertex." );
+    }
+
     double x=0, y=0, z=0;
     double nx=0, ny=0, nz=0;
     rgb_color color;
@@ -316,6 +319,11 @@ read_ply_file( path_t const& file_path )
         default:
           break;
       }
+      if ( ! iss )
+      {
+        throw file_not_read_exception( file_path,
+              "Could not parse \"" + tokens[i] + "\"." );
+      }
     }
 
     std::shared_ptr<landmark_d> lm =
@@ -328,6 +336,11 @@ read_ply_file( path_t const& file_path )
 
   ifile.close();
 
+  if ( ! parsed_header || vert_count < num_verts )
+  {
+    throw file_not_read_exception( file_path, "Unexpected end of file." );
+  }
+
   return landmark_map_sptr( new simple_landmark_map( landmarks ) );
 } // read_ply_file
 
-- 
2.43.0


From 75649ee72a37fddf7f249d23a63af5e7ab377153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:02 +0000
Subject: [PATCH 24/80] fix: no map entries for images without a camera file

The entry may be created before the file is read, which left a null
pointer in the map when there is no file.
---
 vital/io/camera_map_io.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vital/io/camera_map_io.cxx b/vital/io/camera_map_io.cxx
index c64d91b..503a4cd 100644
--- a/vital/io/camera_map_io.cxx
+++ b/vital/io/camera_map_io.cxx
@@ -57,7 +57,8 @@ read_krtd_files( std::vector< path_t > const& img_files, path_t const& dir )
   {
     try
     {
-      cameras[fid] = read_krtd_file( img_files[fid], dir );
+      camera_sptr const cam = read_krtd_file( img_files[fid], dir );
+      cameras[fid] = cam;
     }
     catch ( file_not_found_exception )
     {
-- 
2.43.0


From e1a654546a56f3de508d2ede0ab7fefca6902b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:20 +0000
Subject: [PATCH 25/80] fix: read the distortion coefficients of cameras

The input operator for matrices of fixed size reads nothing into a vector
of dynamic size, so that the coefficients were lost.
---
 vital/io/eigen_io.h | 41 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/vital/io/eigen_io.h b/vital/io/eigen_io.h
index b90296c..ae84ef4 100644
--- a/vital/io/eigen_io.h
+++ b/vital/io/eigen_io.h
@@ -39,6 +39,8 @@
 
 #include <iostream>
 #include <cstring>
+#include <sstream>
+#include <string>
 
 #include <Eigen/Core>
 
@@ -75,6 +77,45 @@ operator>>( std::istream& s, Matrix< T, M, N >& m )
   return s;
 }
 
+
+/// input stream operator for an Eigen vector of dynamic size
+/**
+ * The elements of the vector are the values on the next non-blank line. The
+ * vector is empty if there is no such line.
+ *
+ * \throws vital::invalid_data
+ *    Throws an invalid data exception when a value on the line is not numeric.
+ *
+ * \param s an input stream
+ * \param v a vector to stream into
+ */
+template < typename T >
+std::istream&
+operator>>( std::istream& s, Matrix< T, Dynamic, 1 >& v )
+{
+  std::string line;
+  while ( line.find_first_not_of( " \t\r" ) == std::string::npos &&
+          std::getline( s, line ) ) { }
+  if ( s.eof() && line.empty() )
+  {
+    s.clear( s.rdstate() & ~std::ios_base::failbit );
+  }
+
+  std::istringstream values( line );
+  v.resize( 0 );
+  for ( T x; ! ( values >> std::ws ).eof(); )
+  {
+    if ( ! ( values >> x ) )
+    {
+      throw kwiver::vital::invalid_data( "Encountered a non-numeric value while "
+                                  "parsing an Eigen::Matrix" );
+    }
+    v.conservativeResize( v.rows() + 1 );
+    v[ v.rows() - 1 ] = x;
+  }
+  return s;
+}
+
 } // end namespace Eigen
 
 #endif // VITAL_EIGEN_IO_H_
-- 
2.43.0


From 2227b3eeaf97a72466b990393803f85fd5d0cd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:58 +0000
Subject: [PATCH 26/80] fix: keep a plugin library open when its registration
 reports failure

Implementations registered before the failure stay in the registrar, so
closing the library left it with objects whose code was unmapped.
---
 vital/algorithm_plugin_manager.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vital/algorithm_plugin_manager.cxx b/vital/algorithm_plugin_manager.cxx
index 41b7d30..742f3d3 100644
--- a/vital/algorithm_plugin_manager.cxx
+++ b/vital/algorithm_plugin_manager.cxx
@@ -247,7 +247,8 @@ public:
                 "more algorithms in plugin module, possibly due to duplicate "
                 "registration: " << module_path );
       // TODO: Throw exception here?
-      DL::CloseLibrary( library );
+      // Some algorithms may have been registered before the failure, and
+      // their code is in the library, so it has to stay open.
       return false;
     }
     else
-- 
2.43.0


From 9578170754207f274a961fe71cfc4766db3a3372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:58 +0000
Subject: [PATCH 27/80] fix: match the plugin name filter against the module
 name

A module's name is its file name without the library suffix. The filter
dropped everything after the first dot instead, so a module named
"a.b" was loaded by the filter "a" and could not be selected.
---
 vital/algorithm_plugin_manager.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/algorithm_plugin_manager.cxx b/vital/algorithm_plugin_manager.cxx
index 742f3d3..8a26be7 100644
--- a/vital/algorithm_plugin_manager.cxx
+++ b/vital/algorithm_plugin_manager.cxx
@@ -174,7 +174,7 @@ public:
       // suffix and matches a provided module name if one was provided.
 
       if ( ( ST::GetFilenameLastExtension( file ) == shared_library_suffix ) &&
-           ( ( name.size() == 0 ) || ( ST::GetFilenameWithoutExtension( file ) == name ) ) )
+           ( ( name.size() == 0 ) || ( ST::GetFilenameWithoutLastExtension( file ) == name ) ) )
       {
         // Check that we're looking a file
         if ( ! ST::FileIsDirectory( file ) )
-- 
2.43.0


From 82a913ec38caed5a41c06915c6f8807a4f127787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:32 +0000
Subject: [PATCH 28/80] fix: data races in the plugin manager's first use

The singleton pointer and the once-only flag were read outside the lock
that guards their writes.
---
 vital/algorithm_plugin_manager.cxx | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/vital/algorithm_plugin_manager.cxx b/vital/algorithm_plugin_manager.cxx
index 8a26be7..4f2fa7d 100644
--- a/vital/algorithm_plugin_manager.cxx
+++ b/vital/algorithm_plugin_manager.cxx
@@ -322,11 +322,6 @@ algorithm_plugin_manager
 {
   static std::mutex local_lock;          // synchronization lock
 
-  if (0 != s_instance)
-  {
-    return *s_instance;
-  }
-
   std::lock_guard<std::mutex> lock(local_lock);
   if (0 == s_instance)
   {
@@ -346,11 +341,6 @@ algorithm_plugin_manager
    static bool first( true );
    static std::mutex local_lock;          // synchronization lock
 
-   if ( ! first )
-   {
-     return false;
-   }
-
    std::lock_guard<std::mutex> lock(local_lock);
    if ( first )
    {
-- 
2.43.0


From 756b49b17bc731b38c3e7bce1cf77376e2b5f3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:43 +0000
Subject: [PATCH 29/80] fix: define the algorithm and camera map functions with
 C linkage

---
 vital/bindings/c/algorithm.cxx  | 5 ++---
 vital/bindings/c/camera_map.cxx | 7 ++++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/vital/bindings/c/algorithm.cxx b/vital/bindings/c/algorithm.cxx
index 81f399e..4b49e12 100644
--- a/vital/bindings/c/algorithm.cxx
+++ b/vital/bindings/c/algorithm.cxx
@@ -52,7 +52,7 @@ namespace vital_c {
 SharedPointerCache< kwiver::vital::algorithm,
                     vital_algorithm_t > ALGORITHM_SPTR_CACHE( "algorithm" );
 
-}
+} }
 
 
 // ===========================================================================
@@ -127,5 +127,4 @@ vital_algorithm_check_impl_configuration( vital_algorithm_t *algo,
     );
   );
   return false;
-
-} } // end namespace
+}
diff --git a/vital/bindings/c/camera_map.cxx b/vital/bindings/c/camera_map.cxx
index 2d3c432..5d7c533 100644
--- a/vital/bindings/c/camera_map.cxx
+++ b/vital/bindings/c/camera_map.cxx
@@ -49,7 +49,9 @@ namespace vital_c {
 SharedPointerCache< vital::camera_map,
                     vital_camera_map_t > CAM_MAP_SPTR_CACHE( "camera_map" );
 
-}
+} }
+
+using namespace kwiver;
 
 
 /// New, simple camera map
@@ -125,5 +127,4 @@ void vital_camera_map_get_map( vital_camera_map_t *cam_map,
       ++i;
     }
   );
-
-} }
+}
-- 
2.43.0


From 97ca0625eb81d8c1f482034ed03fd74f9171e0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:40 +0000
Subject: [PATCH 30/80] fix: room for the terminator of C error messages

---
 vital/bindings/c/helpers/c_utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/bindings/c/helpers/c_utils.h b/vital/bindings/c/helpers/c_utils.h
index 16ec7ae..bb3a579 100644
--- a/vital/bindings/c/helpers/c_utils.h
+++ b/vital/bindings/c/helpers/c_utils.h
@@ -70,7 +70,7 @@ static auto m_logger( kwiver::vital::get_logger( "vital.c_utils" ) );
       vital_error_handle_t *PEH_eh_ptr_cast =                                \
         reinterpret_cast<vital_error_handle_t*>(eh_ptr);                     \
       PEH_eh_ptr_cast->error_code = ec;                                      \
-      PEH_eh_ptr_cast->message = (char*)malloc(sizeof(char) * strlen(msg));  \
+      PEH_eh_ptr_cast->message = (char*)malloc(sizeof(char) * (strlen(msg) + 1));  \
       strcpy(PEH_eh_ptr_cast->message, msg);                                 \
     }                                                                        \
   } while(0)
-- 
2.43.0


From 49c615c3a130086707cdd7fe977f51c0d632df13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:40 +0000
Subject: [PATCH 31/80] fix: room for the terminator of listed C strings

---
 vital/bindings/c/helpers/c_utils.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/bindings/c/helpers/c_utils.cxx b/vital/bindings/c/helpers/c_utils.cxx
index f21dff0..6876968 100644
--- a/vital/bindings/c/helpers/c_utils.cxx
+++ b/vital/bindings/c/helpers/c_utils.cxx
@@ -46,7 +46,7 @@ void make_string_list( std::vector<std::string> const &list,
   strings = (char**)malloc( sizeof(char*) * length );
   for( unsigned int i = 0; i < length; i++ )
   {
-    strings[i] = (char*)malloc(sizeof(char) * list[i].length());
+    strings[i] = (char*)malloc(sizeof(char) * (list[i].length() + 1));
     std::strcpy( strings[i], list[i].c_str() );
   }
 }
-- 
2.43.0


From 16b02585c0d8c62ad808df8285d29ac8b0b2df3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:40 +0000
Subject: [PATCH 32/80] fix: C config file errors with long messages or no
 error handle

---
 vital/bindings/c/config_block.cxx | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/vital/bindings/c/config_block.cxx b/vital/bindings/c/config_block.cxx
index 6437c1a..79f2ef8 100644
--- a/vital/bindings/c/config_block.cxx
+++ b/vital/bindings/c/config_block.cxx
@@ -404,21 +404,15 @@ read_config_file_helper( vital_error_handle_t* eh, Args... args )
   }
   catch ( kwiver::vital::config_file_not_found_exception const& e )
   {
-    eh->error_code = 1;
-    eh->message = (char*)malloc( sizeof( char ) * strlen( e.what() ) );
-    strcpy( eh->message, e.what() );
+    POPULATE_EH( eh, 1, e.what() );
   }
   catch ( kwiver::vital::config_file_not_read_exception const& e )
   {
-    eh->error_code = 2;
-    eh->message = (char*)malloc( sizeof( char ) * strlen( e.what() ) );
-    strcpy( eh->message, e.what() );
+    POPULATE_EH( eh, 2, e.what() );
   }
   catch ( kwiver::vital::config_file_not_parsed_exception const& e )
   {
-    eh->error_code = 3;
-    eh->message = (char*)malloc( sizeof( char ) * strlen( e.what() ) );
-    strcpy( eh->message, e.what() );
+    POPULATE_EH( eh, 3, e.what() );
   }
 
   return 0;
@@ -478,9 +472,7 @@ vital_config_block_file_write( vital_config_block_t*  cb,
     }
     catch ( kwiver::vital::config_file_write_exception const& e )
     {
-      eh->error_code = 1;
-      eh->message = (char*)malloc( sizeof( char ) * strlen( e.what() ) );
-      strcpy( eh->message, e.what() );
+      POPULATE_EH( eh, 1, e.what() );
     }
 
                 );
-- 
2.43.0


From 90d37fa24734562f8c7810f7c7635c4ca1b94099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:40 +0000
Subject: [PATCH 33/80] fix: return the result of the C configuration check

---
 vital/bindings/c/algorithm.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/bindings/c/algorithm.cxx b/vital/bindings/c/algorithm.cxx
index 4b49e12..a9faf6f 100644
--- a/vital/bindings/c/algorithm.cxx
+++ b/vital/bindings/c/algorithm.cxx
@@ -122,7 +122,7 @@ vital_algorithm_check_impl_configuration( vital_algorithm_t *algo,
 {
   STANDARD_CATCH(
     "C::algorithm::check_impl_configuration", eh,
-    kwiver::vital_c::ALGORITHM_SPTR_CACHE.get( algo )->check_configuration(
+    return kwiver::vital_c::ALGORITHM_SPTR_CACHE.get( algo )->check_configuration(
       kwiver::vital_c::CONFIG_BLOCK_SPTR_CACHE.get( cb )
     );
   );
-- 
2.43.0


From b38adc8b73b0eead39dde64a2218a859d823a30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:05 +0000
Subject: [PATCH 34/80] fix: reject algorithms of another type when destroying
 C handles

---
 vital/bindings/c/helpers/algorithm.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vital/bindings/c/helpers/algorithm.h b/vital/bindings/c/helpers/algorithm.h
index 09d5d85..9efadad 100644
--- a/vital/bindings/c/helpers/algorithm.h
+++ b/vital/bindings/c/helpers/algorithm.h
@@ -102,6 +102,8 @@ public:
   {                                                                     \
     STANDARD_CATCH(                                                     \
       "C::algorithm::" #type "::destroy", eh,                           \
+      /* Error if this is not an algorithm of this type */              \
+      kwiver::vital_c::ALGORITHM_##type##_SPTR_CACHE.get( algo );       \
       kwiver::vital_c::ALGORITHM_SPTR_CACHE.erase( algo );              \
       kwiver::vital_c::ALGORITHM_##type##_SPTR_CACHE.erase( algo );     \
     );                                                                  \
-- 
2.43.0


From 9157b492b162d57d1fb1365c4b5fb42640b51e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:42 +0000
Subject: [PATCH 35/80] fix: enumerating a sparse matrix with no rows or
 columns reads out of bounds

---
 vital/util/enumerate_matrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vital/util/enumerate_matrix.h b/vital/util/enumerate_matrix.h
index a159334..4928a8b 100644
--- a/vital/util/enumerate_matrix.h
+++ b/vital/util/enumerate_matrix.h
@@ -123,9 +123,9 @@ template < typename ValueT, int Options, typename IndexT >
 sparse_matrix_enumerator< ValueT, Options, IndexT >::iterator
 ::iterator(Eigen::SparseMatrix< ValueT, Options, IndexT > const& mat)
   : m_matrix(&mat), m_end(mat.outerSize()), m_outer(0),
-    m_inner(new iterator_t(mat, 0))
+    m_inner(mat.outerSize() > 0 ? new iterator_t(mat, 0) : 0)
 {
-  if (!(*(this->m_inner)))
+  if (this->m_inner && !(*(this->m_inner)))
   {
     ++(*this);
   }
-- 
2.43.0


From d0e4ad75b5151fa1f88a0f07d1dbe472cbe5d487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:42 +0000
Subject: [PATCH 36/80] fix: assigned frame homographies shared their
 transformation

---
 vital/types/homography_f2f.cxx | 11 +++++++++++
 vital/types/homography_f2f.h   |  3 +++
 vital/types/homography_f2w.cxx | 10 ++++++++++
 vital/types/homography_f2w.h   |  3 +++
 4 files changed, 27 insertions(+)

diff --git a/vital/types/homography_f2f.cxx b/vital/types/homography_f2f.cxx
index 0fa6456..a729017 100644
--- a/vital/types/homography_f2f.cxx
+++ b/vital/types/homography_f2f.cxx
@@ -71,6 +71,17 @@ f2f_homography
 {
 }
 
+/// Assignment operator
+f2f_homography&
+f2f_homography
+::operator=( f2f_homography const &h )
+{
+  this->h_ = h.h_->clone();
+  this->from_id_ = h.from_id_;
+  this->to_id_ = h.to_id_;
+  return *this;
+}
+
 /// Get the homography transformation
 homography_sptr
 f2f_homography
diff --git a/vital/types/homography_f2f.h b/vital/types/homography_f2f.h
index 03d0e02..8d770ea 100644
--- a/vital/types/homography_f2f.h
+++ b/vital/types/homography_f2f.h
@@ -84,6 +84,9 @@ public:
   /// Copy constructor
   f2f_homography( f2f_homography const& h );
 
+  /// Assignment operator
+  f2f_homography& operator=( f2f_homography const& h );
+
   /// Destructor
   virtual ~f2f_homography() VITAL_DEFAULT_DTOR
 
diff --git a/vital/types/homography_f2w.cxx b/vital/types/homography_f2w.cxx
index 22eccc4..565afa5 100644
--- a/vital/types/homography_f2w.cxx
+++ b/vital/types/homography_f2w.cxx
@@ -63,6 +63,16 @@ f2w_homography
 {
 }
 
+/// Assignment operator
+f2w_homography&
+f2w_homography
+::operator=( f2w_homography const &h )
+{
+  this->h_ = h.h_->clone();
+  this->frame_id_ = h.frame_id_;
+  return *this;
+}
+
 /// Get the homography transformation
 homography_sptr
 f2w_homography
diff --git a/vital/types/homography_f2w.h b/vital/types/homography_f2w.h
index d8573b7..5698912 100644
--- a/vital/types/homography_f2w.h
+++ b/vital/types/homography_f2w.h
@@ -58,6 +58,9 @@ public:
   /// Copy Constructor
   f2w_homography( f2w_homography const &h );
 
+  /// Assignment operator
+  f2w_homography& operator=( f2w_homography const &h );
+
   virtual ~f2w_homography() VITAL_DEFAULT_DTOR
 
   /// Get the homography transformation
-- 
2.43.0


From 92382b8f7c702bdf4d0d96253fb13a7f5cc1ed59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:43 +0000
Subject: [PATCH 37/80] fix: conversion between homographies of different types
 does not compile

---
 vital/types/homography.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/types/homography.h b/vital/types/homography.h
index 76642cc..f331790 100644
--- a/vital/types/homography.h
+++ b/vital/types/homography.h
@@ -147,7 +147,7 @@ public:
   template < typename U >
   explicit
   homography_< T > ( homography_< U > const & other )
-  : h_( other.h_.template cast< T > () )
+  : h_( other.get_matrix().template cast< T > () )
   {
   }
 
-- 
2.43.0


From 683e2447333a2af80f738d2361c4ca882e55912f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:43 +0000
Subject: [PATCH 38/80] fix: converting a covariance left part of it
 uninitialized

---
 vital/types/covariance.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/types/covariance.h b/vital/types/covariance.h
index 9c0b8e3..1dad0c4 100644
--- a/vital/types/covariance.h
+++ b/vital/types/covariance.h
@@ -68,7 +68,7 @@ public:
   {
     const U* in = other.data();
     T* out = this->data_;
-    for ( unsigned i = 0; i < N; ++i, ++in, ++out )
+    for ( unsigned i = 0; i < data_size; ++i, ++in, ++out )
     {
       *out = static_cast< T > ( *in );
     }
-- 
2.43.0


From 12d462b69c830209db895a06f7749c577467193d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:43 +0000
Subject: [PATCH 39/80] fix: features and landmarks built from others lost the
 covariance

---
 vital/types/feature.cxx  | 1 +
 vital/types/landmark.cxx | 1 +
 2 files changed, 2 insertions(+)

diff --git a/vital/types/feature.cxx b/vital/types/feature.cxx
index 1a3361b..a728594 100644
--- a/vital/types/feature.cxx
+++ b/vital/types/feature.cxx
@@ -88,6 +88,7 @@ feature_< T >
   magnitude_( static_cast< T > ( f.magnitude() ) ),
   scale_( static_cast< T > ( f.scale() ) ),
   angle_( static_cast< T > ( f.angle() ) ),
+  covar_( f.covar() ),
   color_( f.color() )
 {
 }
diff --git a/vital/types/landmark.cxx b/vital/types/landmark.cxx
index 79682e8..2a15000 100644
--- a/vital/types/landmark.cxx
+++ b/vital/types/landmark.cxx
@@ -86,6 +86,7 @@ landmark_< T >
   : loc_( lm.loc().cast< T > () ),
     scale_( static_cast< T > ( lm.scale() ) ),
     normal_( lm.normal().cast< T > () ),
+    covar_( lm.covar() ),
     color_( lm.color() ),
     observations_( lm.observations() )
 {
-- 
2.43.0


From ca9ab4be582d555fcdad3b69f28bff8001ce9594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:43 +0000
Subject: [PATCH 40/80] fix: copies of dynamic descriptors freed the same data
 twice

---
 vital/types/descriptor.h | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/vital/types/descriptor.h b/vital/types/descriptor.h
index 928ddc2..812ba5a 100644
--- a/vital/types/descriptor.h
+++ b/vital/types/descriptor.h
@@ -39,6 +39,7 @@
 #include <vital/vital_export.h>
 #include <vital/vital_config.h>
 
+#include <algorithm>
 #include <iostream>
 #include <vector>
 #include <memory>
@@ -163,6 +164,23 @@ public:
   : data_( new T[len] ),
   length_( len ) { }
 
+  /// Copy constructor
+  descriptor_dynamic< T > ( descriptor_dynamic< T > const& other )
+  : data_( new T[other.length_] ),
+  length_( other.length_ )
+  {
+    std::copy( other.data_, other.data_ + length_, data_ );
+  }
+
+  /// Assignment operator
+  descriptor_dynamic< T >& operator=( descriptor_dynamic< T > const& other )
+  {
+    descriptor_dynamic< T > copy( other );
+    std::swap( data_, copy.data_ );
+    std::swap( length_, copy.length_ );
+    return *this;
+  }
+
   /// Destructor
   virtual ~descriptor_dynamic< T > ( ) { delete [] data_; }
 
-- 
2.43.0


From 5d716c3e5bf27225a111763973301cc2f357824b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:43 +0000
Subject: [PATCH 41/80] fix: malformed timestamps in configurations were
 silently accepted

---
 vital/types/timestamp_config.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vital/types/timestamp_config.h b/vital/types/timestamp_config.h
index f2e04ad..e0e7a09 100644
--- a/vital/types/timestamp_config.h
+++ b/vital/types/timestamp_config.h
@@ -70,6 +70,11 @@ config_block_get_value_cast( config_block_value_t const& value )
   str >> f;
   obj.set_frame( f );
 
+  if ( ! str )
+  {
+    throw bad_config_block_cast( "\"" + value + "\" is not a time and a frame number" );
+  }
+
   return obj;
 }
 
-- 
2.43.0


From db3d3633bd79e7dfc8464eef27afb550e81a0c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:43 +0000
Subject: [PATCH 42/80] fix: base64 decoding read past an input that is not a
 multiple of four

---
 vital/kwiversys/Base64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/kwiversys/Base64.c b/vital/kwiversys/Base64.c
index 4b8ede2..d624b29 100644
--- a/vital/kwiversys/Base64.c
+++ b/vital/kwiversys/Base64.c
@@ -220,7 +220,7 @@ size_t kwsysBase64_Decode(const unsigned char *input,
   if (max_input_length)
     {
     const unsigned char *end = input + max_input_length;
-    while (ptr < end)
+    while ((end - ptr) >= 4)
       {
       int len = kwsysBase64_Decode3(ptr, optr);
       optr += len;
-- 
2.43.0


From e5af4cf0660f4c43cc2fd873170d6fdb58029a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:43 +0000
Subject: [PATCH 43/80] fix: the base64 end mark was decoded as an extra byte

---
 vital/kwiversys/Base64.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/vital/kwiversys/Base64.c b/vital/kwiversys/Base64.c
index d624b29..eae9a61 100644
--- a/vital/kwiversys/Base64.c
+++ b/vital/kwiversys/Base64.c
@@ -171,6 +171,13 @@ int kwsysBase64_Decode3(const unsigned char *src, unsigned char *dest)
   d2 = kwsysBase64DecodeChar(src[2]);
   d3 = kwsysBase64DecodeChar(src[3]);
   
+  /* Padding can not start a group, this is an end mark */
+
+  if (src[0] == '=' || src[1] == '=')
+    {
+    return 0;
+    }
+
   /* Make sure all characters were valid */
 
   if (d0 == 0xFF || d1 == 0xFF || d2 == 0xFF || d3 == 0xFF)
-- 
2.43.0


From dd65dabb130e094ff750aa12f7e7d35eb92dab0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:29 +0000
Subject: [PATCH 44/80] fix: the wall timer was never available, its
 configuration test named an unknown macro

---
 vital/util/wall_timer.h.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/util/wall_timer.h.in b/vital/util/wall_timer.h.in
index 7dc3c6c..3fbb026 100644
--- a/vital/util/wall_timer.h.in
+++ b/vital/util/wall_timer.h.in
@@ -38,7 +38,7 @@
 
 #include <vital/util/timer.h>
 
-#if VITAL_USE_CHRONO
+#if VITAL_USE_STD_CHRONO
 
 #include <string>
 #include <chrono>
-- 
2.43.0


From 4132c9ee90ff09b6ed353bca9c7ed7ce8e18576d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:10 +0000
Subject: [PATCH 45/80] fix: copies of regular expressions lost the result of
 the last search

---
 vital/kwiversys/RegularExpression.cxx | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/vital/kwiversys/RegularExpression.cxx b/vital/kwiversys/RegularExpression.cxx
index 488b69a..5c6f29e 100644
--- a/vital/kwiversys/RegularExpression.cxx
+++ b/vital/kwiversys/RegularExpression.cxx
@@ -55,8 +55,12 @@ RegularExpression::RegularExpression (const RegularExpression& rxp) {
   this->program = new char[this->progsize];     // Allocate storage
   for(ind=this->progsize; ind-- != 0;)          // Copy regular expresion
     this->program[ind] = rxp.program[ind];
-  this->startp[0] = rxp.startp[0];              // Copy pointers into last
-  this->endp[0] = rxp.endp[0];                  // Successful "find" operation
+  for(ind=0; ind < NSUBEXP; ++ind)              // Copy pointers into last
+    {                                           // Successful "find" operation
+    this->startp[ind] = rxp.startp[ind];
+    this->endp[ind] = rxp.endp[ind];
+    }
+  this->searchstring = rxp.searchstring;        // Copy searched string
   this->regmust = rxp.regmust;                  // Copy field
   if (rxp.regmust != 0) {
     char* dum = rxp.program;
@@ -81,6 +85,7 @@ RegularExpression& RegularExpression::operator= (const RegularExpression& rxp)
     }
   if ( !rxp.program )
     {
+    delete [] this->program;
     this->program = 0;
     return *this;
     }
@@ -90,8 +95,12 @@ RegularExpression& RegularExpression::operator= (const RegularExpression& rxp)
   this->program = new char[this->progsize];     // Allocate storage
   for(ind=this->progsize; ind-- != 0;)          // Copy regular expresion
     this->program[ind] = rxp.program[ind];
-  this->startp[0] = rxp.startp[0];              // Copy pointers into last
-  this->endp[0] = rxp.endp[0];                  // Successful "find" operation
+  for(ind=0; ind < NSUBEXP; ++ind)              // Copy pointers into last
+    {                                           // Successful "find" operation
+    this->startp[ind] = rxp.startp[ind];
+    this->endp[ind] = rxp.endp[ind];
+    }
+  this->searchstring = rxp.searchstring;        // Copy searched string
   this->regmust = rxp.regmust;                  // Copy field
   if (rxp.regmust != 0) {
     char* dum = rxp.program;
-- 
2.43.0


From 66f0fc0ef0b947ded40d965ea4780d01caa42cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:01 +0000
Subject: [PATCH 46/80] fix: hash containers could not be filled from forward
 iterator ranges, std::distance has no such form

---
 vital/kwiversys/hashtable.hxx.in | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/vital/kwiversys/hashtable.hxx.in b/vital/kwiversys/hashtable.hxx.in
index 9a20226..b459afd 100644
--- a/vital/kwiversys/hashtable.hxx.in
+++ b/vital/kwiversys/hashtable.hxx.in
@@ -427,8 +427,7 @@ public:
   void insert_unique(_ForwardIterator __f, _ForwardIterator __l,
                      std::forward_iterator_tag)
   {
-    size_type __n = 0;
-    std::distance(__f, __l, __n);
+    size_type __n = std::distance(__f, __l);
     resize(_M_num_elements + __n);
     for ( ; __n > 0; --__n, ++__f)
       insert_unique_noresize(*__f);
@@ -438,8 +437,7 @@ public:
   void insert_equal(_ForwardIterator __f, _ForwardIterator __l,
                     std::forward_iterator_tag)
   {
-    size_type __n = 0;
-    std::distance(__f, __l, __n);
+    size_type __n = std::distance(__f, __l);
     resize(_M_num_elements + __n);
     for ( ; __n > 0; --__n, ++__f)
       insert_equal_noresize(*__f);
-- 
2.43.0


From 7d12bd625f9da5ee01ec5a351023961f76a9b59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:01 +0000
Subject: [PATCH 47/80] fix: erasing from a hash container by the key of one of
 its elements read the key after freeing it

---
 vital/kwiversys/hashtable.hxx.in | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/vital/kwiversys/hashtable.hxx.in b/vital/kwiversys/hashtable.hxx.in
index b459afd..b702d20 100644
--- a/vital/kwiversys/hashtable.hxx.in
+++ b/vital/kwiversys/hashtable.hxx.in
@@ -762,6 +762,7 @@ hashtable<_Val,_Key,_HF,_Ex,_Eq,_All>::erase(const key_type& __key)
 {
   const size_type __n = _M_bkt_num_key(__key);
   _Node* __first = _M_buckets[__n];
+  _Node* __dead = 0;
   size_type __erased = 0;
 
   if (__first) {
@@ -770,7 +771,8 @@ hashtable<_Val,_Key,_HF,_Ex,_Eq,_All>::erase(const key_type& __key)
     while (__next) {
       if (_M_equals(_M_get_key(__next->_M_val), __key)) {
         __cur->_M_next = __next->_M_next;
-        _M_delete_node(__next);
+        __next->_M_next = __dead;
+        __dead = __next;
         __next = __cur->_M_next;
         ++__erased;
         --_M_num_elements;
@@ -782,11 +784,19 @@ hashtable<_Val,_Key,_HF,_Ex,_Eq,_All>::erase(const key_type& __key)
     }
     if (_M_equals(_M_get_key(__first->_M_val), __key)) {
       _M_buckets[__n] = __first->_M_next;
-      _M_delete_node(__first);
+      __first->_M_next = __dead;
+      __dead = __first;
       ++__erased;
       --_M_num_elements;
     }
   }
+  // The key may be part of one of the erased elements, so these must
+  // stay until it is not needed any more.
+  while (__dead) {
+    _Node* __next = __dead->_M_next;
+    _M_delete_node(__dead);
+    __dead = __next;
+  }
   return __erased;
 }
 
-- 
2.43.0


From 916108857d20a5c9e6d6469816182ac3642268e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:12 +0000
Subject: [PATCH 48/80] fix: paths with three or more slashes in a row kept
 some of them, so the directory of a file name could end in a slash

---
 vital/kwiversys/SystemTools.cxx | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index da34eb9..1525543 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -1996,7 +1996,6 @@ static void ConvertVMSToUnix(std::string& path)
 void SystemTools::ConvertToUnixSlashes(std::string& path)
 {
   const char* pathCString = path.c_str();
-  bool hasDoubleSlash = false;
 #ifdef __VMS
   ConvertVMSToUnix(path);
 #else
@@ -2010,28 +2009,17 @@ void SystemTools::ConvertToUnixSlashes(std::string& path)
       path[pos] = '/';
       }
 
-    // Also, reuse the loop to check for slash followed by another slash
-    if (*pos1 == '/' && *(pos1+1) == '/' && !hasDoubleSlash)
-      {
-#ifdef _WIN32
-      // However, on windows if the first characters are both slashes,
-      // then keep them that way, so that network paths can be handled.
-      if ( pos > 0)
-        {
-        hasDoubleSlash = true;
-        }
-#else
-      hasDoubleSlash = true;
-#endif
-      }
-
     pos0 ++;
     pos1 ++;
     }
 
-  if ( hasDoubleSlash )
+  // Reduce several slashes in a row to one.  However, if the first
+  // characters are both slashes, then keep them that way, so that network
+  // paths can be handled.
+  std::string::size_type doubleSlash = 1;
+  while ((doubleSlash = path.find("//", doubleSlash)) != std::string::npos)
     {
-    SystemTools::ReplaceString(path, "//", "/");
+    path.erase(doubleSlash, 1);
     }
 #endif
   // remove any trailing slash
@@ -2044,7 +2032,13 @@ void SystemTools::ConvertToUnixSlashes(std::string& path)
       const char* homeEnv = SystemTools::GetEnv("HOME");
       if (homeEnv)
         {
-        path.replace(0,1,homeEnv);
+        // the rest of the path brings its own slash
+        std::string home = homeEnv;
+        if(path.size() > 1 && !home.empty() && *home.rbegin() == '/')
+          {
+          home.resize(home.size() - 1);
+          }
+        path.replace(0,1,home);
         }
       }
 #ifdef HAVE_GETPWNAM
-- 
2.43.0


From fab37302fe7d17938b2c01232df94d1a800e9633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:12 +0000
Subject: [PATCH 49/80] fix: paths below a home directory that is the root
 directory were taken for relative ones

---
 vital/kwiversys/SystemTools.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index 1525543..ca192fc 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -3982,8 +3982,8 @@ void SystemTools::SplitPath(const std::string& p,
         }
       }
 #endif
-    if(!homedir.empty() && (*homedir.rbegin() == '/' ||
-                            *homedir.rbegin() == '\\'))
+    if(homedir.size() > 1 && (*homedir.rbegin() == '/' ||
+                              *homedir.rbegin() == '\\'))
       {
       homedir.resize(homedir.size() - 1);
       }
-- 
2.43.0


From 5d9d9d049c1781bda34680ad12a4ee58b5fe743f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:12 +0000
Subject: [PATCH 50/80] fix: nothing was found to be below the root directory

---
 vital/kwiversys/SystemTools.cxx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index ca192fc..b2eabc9 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -4860,7 +4860,13 @@ bool SystemTools::IsSubDirectory(const std::string& cSubdir, const std::string&
   std::string dir = cDir;
   SystemTools::ConvertToUnixSlashes(subdir);
   SystemTools::ConvertToUnixSlashes(dir);
-  if(subdir.size() > dir.size() && subdir[dir.size()] == '/')
+  // a root directory ends in the slash that follows other directories
+  std::string::size_type slash = dir.size();
+  if(!dir.empty() && *dir.rbegin() == '/')
+    {
+    --slash;
+    }
+  if(subdir.size() > dir.size() && subdir[slash] == '/')
     {
     std::string s = subdir.substr(0, dir.size());
     return SystemTools::ComparePath(s, dir);
-- 
2.43.0


From 8132542daf65f890c81ad108af712a9683b74f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:28 +0000
Subject: [PATCH 51/80] fix: file names that begin with a tilde were dropped
 from paths when there is no such home directory

---
 vital/kwiversys/SystemTools.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index b2eabc9..fa4be81 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -3988,6 +3988,11 @@ void SystemTools::SplitPath(const std::string& p,
       homedir.resize(homedir.size() - 1);
       }
     SystemTools::SplitPath(homedir, components);
+    if(homedir.empty())
+      {
+      // There is no such home directory, so this is a file name.
+      c = p.c_str();
+      }
     }
   else
     {
-- 
2.43.0


From 0c954509197d2df55836ccb129acaaaf1c3d2ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:23 +0000
Subject: [PATCH 52/80] fix: CommandLineArguments::GetLineLength was declared
 but not defined

---
 vital/kwiversys/CommandLineArguments.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vital/kwiversys/CommandLineArguments.cxx b/vital/kwiversys/CommandLineArguments.cxx
index 3636836..5af671a 100644
--- a/vital/kwiversys/CommandLineArguments.cxx
+++ b/vital/kwiversys/CommandLineArguments.cxx
@@ -500,6 +500,12 @@ void CommandLineArguments::SetLineLength(unsigned int ll)
   this->GenerateHelp();
 }
 
+//----------------------------------------------------------------------------
+unsigned int CommandLineArguments::GetLineLength()
+{
+  return this->LineLength;
+}
+
 //----------------------------------------------------------------------------
 const char* CommandLineArguments::GetArgv0()
 {
-- 
2.43.0


From 903d9f443f1cfa6ee2d817b57c2ef07c3f039164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:22 +0000
Subject: [PATCH 53/80] fix: command-line values that follow their option
 stayed among the remaining arguments

---
 vital/kwiversys/CommandLineArguments.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vital/kwiversys/CommandLineArguments.cxx b/vital/kwiversys/CommandLineArguments.cxx
index 5af671a..fe9de1a 100644
--- a/vital/kwiversys/CommandLineArguments.cxx
+++ b/vital/kwiversys/CommandLineArguments.cxx
@@ -239,6 +239,7 @@ int CommandLineArguments::Parse()
           return 0;
           }
         cc ++;
+        this->Internals->LastArgument = cc;
         break;
       case EQUAL_ARGUMENT:
         if ( arg.size() == sarg.size() || arg.at(sarg.size()) != '=' )
@@ -277,6 +278,7 @@ int CommandLineArguments::Parse()
             return 0;
             }
           }
+        this->Internals->LastArgument = cc - 1;
         if ( cc != this->Internals->Argv.size() )
           {
           CommandLineArguments_DEBUG("Again End of multi argument " << arg);
-- 
2.43.0


From 1110defd491025be40d7d9e3f3d5a657e2b2bab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:22 +0000
Subject: [PATCH 54/80] fix: before parsing a command line, its first argument
 was not among the remaining ones

---
 vital/kwiversys/CommandLineArguments.cxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vital/kwiversys/CommandLineArguments.cxx b/vital/kwiversys/CommandLineArguments.cxx
index fe9de1a..b048bf5 100644
--- a/vital/kwiversys/CommandLineArguments.cxx
+++ b/vital/kwiversys/CommandLineArguments.cxx
@@ -78,7 +78,7 @@ public:
     {
     this->UnknownArgumentCallback = 0;
     this->ClientData = 0;
-    this->LastArgument = 0;
+    this->LastArgument = static_cast<VectorOfStrings::size_type>(-1);
     }
 
   typedef CommandLineArgumentsVectorOfStrings VectorOfStrings;
@@ -93,6 +93,7 @@ public:
   CommandLineArguments::ErrorCallbackType UnknownArgumentCallback;
   void*             ClientData;
 
+  // Index of the last argument parsed, one before the first if there is none.
   VectorOfStrings::size_type LastArgument;
 
   VectorOfStrings UnusedArguments;
@@ -138,7 +139,8 @@ void CommandLineArguments::Initialize(int argc, char* argv[])
 void CommandLineArguments::Initialize()
 {
   this->Internals->Argv.clear();
-  this->Internals->LastArgument = 0;
+  this->Internals->LastArgument =
+    static_cast<CommandLineArguments::Internal::VectorOfStrings::size_type>(-1);
 }
 
 //----------------------------------------------------------------------------
-- 
2.43.0


From 7cca8a808e47422f963dd6664b0b0bda07a5b20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:22 +0000
Subject: [PATCH 55/80] fix: a command line without even a program name was
 read beyond its end

---
 vital/kwiversys/CommandLineArguments.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/kwiversys/CommandLineArguments.cxx b/vital/kwiversys/CommandLineArguments.cxx
index b048bf5..678b422 100644
--- a/vital/kwiversys/CommandLineArguments.cxx
+++ b/vital/kwiversys/CommandLineArguments.cxx
@@ -122,7 +122,7 @@ void CommandLineArguments::Initialize(int argc, const char* const argv[])
   int cc;
 
   this->Initialize();
-  this->Internals->Argv0 = argv[0];
+  this->Internals->Argv0 = (argc > 0) ? argv[0] : "";
   for ( cc = 1; cc < argc; cc ++ )
     {
     this->ProcessArgument(argv[cc]);
-- 
2.43.0


From 39d0e79f8316cb5a04a0fe972fdaf371c4ae7f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:22 +0000
Subject: [PATCH 56/80] fix: option names of more than 75 characters overran
 the buffers of the help text

---
 vital/kwiversys/CommandLineArguments.cxx | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/vital/kwiversys/CommandLineArguments.cxx b/vital/kwiversys/CommandLineArguments.cxx
index 678b422..63aafc4 100644
--- a/vital/kwiversys/CommandLineArguments.cxx
+++ b/vital/kwiversys/CommandLineArguments.cxx
@@ -597,10 +597,6 @@ void CommandLineArguments::GenerateHelp()
       }
     }
 
-  // Create format for that string
-  char format[80];
-  sprintf(format, "  %%-%us  ", static_cast<unsigned int>(maxlen));
-
   maxlen += 4; // For the space before and after the option
 
   // Print help for each option
@@ -612,19 +608,20 @@ void CommandLineArguments::GenerateHelp()
     for ( sit = mpit->second.begin(); sit != mpit->second.end(); sit++ )
       {
       str << std::endl;
-      char argument[100];
-      sprintf(argument, "%s", sit->c_str());
+      std::string argument = *sit;
       switch ( this->Internals->Callbacks[*sit].ArgumentType )
         {
         case CommandLineArguments::NO_ARGUMENT: break;
-        case CommandLineArguments::CONCAT_ARGUMENT: strcat(argument, "opt"); break;
-        case CommandLineArguments::SPACE_ARGUMENT:  strcat(argument, " opt"); break;
-        case CommandLineArguments::EQUAL_ARGUMENT:  strcat(argument, "=opt"); break;
-        case CommandLineArguments::MULTI_ARGUMENT:  strcat(argument, " opt opt ..."); break;
+        case CommandLineArguments::CONCAT_ARGUMENT: argument += "opt"; break;
+        case CommandLineArguments::SPACE_ARGUMENT:  argument += " opt"; break;
+        case CommandLineArguments::EQUAL_ARGUMENT:  argument += "=opt"; break;
+        case CommandLineArguments::MULTI_ARGUMENT:  argument += " opt opt ..."; break;
+        }
+      if ( argument.size() + 4 < maxlen )
+        {
+        argument.append(maxlen - 4 - argument.size(), ' ');
         }
-      char buffer[80];
-      sprintf(buffer, format, argument);
-      str << buffer;
+      str << "  " << argument << "  ";
       }
     const char* ptr = this->Internals->Callbacks[mpit->first].Help;
     size_t len = strlen(ptr);
-- 
2.43.0


From b667719698e790a8fa873e466df639b0846c2fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:22 +0000
Subject: [PATCH 57/80] fix: the help of options that take several values was
 wider than the lines of the help text

---
 vital/kwiversys/CommandLineArguments.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vital/kwiversys/CommandLineArguments.cxx b/vital/kwiversys/CommandLineArguments.cxx
index 63aafc4..0c43a34 100644
--- a/vital/kwiversys/CommandLineArguments.cxx
+++ b/vital/kwiversys/CommandLineArguments.cxx
@@ -589,6 +589,7 @@ void CommandLineArguments::GenerateHelp()
         case CommandLineArguments::CONCAT_ARGUMENT: clen += 3; break;
         case CommandLineArguments::SPACE_ARGUMENT:  clen += 4; break;
         case CommandLineArguments::EQUAL_ARGUMENT:  clen += 4; break;
+        case CommandLineArguments::MULTI_ARGUMENT:  clen += 12; break;
         }
       if ( clen > maxlen )
         {
-- 
2.43.0


From 91564af87d6e13edb8b0f1cdeaf4d07f260459a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:22 +0000
Subject: [PATCH 58/80] fix: help texts of blanks were read beyond their end,
 and so were those without room in their lines

---
 vital/kwiversys/CommandLineArguments.cxx | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/vital/kwiversys/CommandLineArguments.cxx b/vital/kwiversys/CommandLineArguments.cxx
index 0c43a34..55b6474 100644
--- a/vital/kwiversys/CommandLineArguments.cxx
+++ b/vital/kwiversys/CommandLineArguments.cxx
@@ -632,13 +632,14 @@ void CommandLineArguments::GenerateHelp()
       // If argument with help is longer than line length, split it on previous
       // space (or tab) and continue on the next line
       CommandLineArguments::Internal::String::size_type cc;
-      for ( cc = 0; ptr[cc]; cc ++ )
+      while ( *ptr == ' ' || *ptr == '\t' )
         {
-        if ( *ptr == ' ' || *ptr == '\t' )
-          {
-          ptr ++;
-          len --;
-          }
+        ptr ++;
+        len --;
+        }
+      if ( len == 0 )
+        {
+        break;
         }
       if ( cnt > 0 )
         {
@@ -648,7 +649,7 @@ void CommandLineArguments::GenerateHelp()
           }
         }
       CommandLineArguments::Internal::String::size_type skip = len;
-      if ( skip > this->LineLength - maxlen )
+      if ( maxlen < this->LineLength && skip > this->LineLength - maxlen )
         {
         skip = this->LineLength - maxlen;
         for ( cc = skip-1; cc > 0; cc -- )
-- 
2.43.0


From 62529deccf30ce61addad4243163ae8673bd427e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:32 +0000
Subject: [PATCH 59/80] fix: making a directory where a link leads nowhere, or
 an unreadable file is, was reported to succeed

---
 vital/kwiversys/SystemTools.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index fa4be81..e991411 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -766,6 +766,8 @@ bool SystemTools::MakeDirectory(const std::string& path)
       {
       return false;
       }
+    // what exists may be something else
+    return SystemTools::FileIsDirectory(path);
     }
   return true;
 }
-- 
2.43.0


From a4321cac56f6cf859733e26676dcc6389ae40e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:32 +0000
Subject: [PATCH 60/80] fix: copying a directory over a file was reported to
 succeed and changed the permissions of the file

---
 vital/kwiversys/SystemTools.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index e991411..6ea7fb2 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -2387,7 +2387,10 @@ bool SystemTools::CopyFileAlways(const std::string& source, const std::string& d
 
   if(SystemTools::FileIsDirectory(source))
     {
-    SystemTools::MakeDirectory(destination);
+    if(!SystemTools::MakeDirectory(destination))
+      {
+      return false;
+      }
     }
   else
     {
-- 
2.43.0


From 4267b972ba8dd0c148a867592608338fc973c4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:32 +0000
Subject: [PATCH 61/80] fix: copying a file into a directory that could not be
 read replaced the link to the directory

---
 vital/kwiversys/SystemTools.cxx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index 6ea7fb2..bbd2dbf 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -2401,8 +2401,7 @@ bool SystemTools::CopyFileAlways(const std::string& source, const std::string& d
     // name as the source in that directory.
 
     std::string destination_dir;
-    if(SystemTools::FileExists(destination) &&
-       SystemTools::FileIsDirectory(destination))
+    if(SystemTools::FileIsDirectory(destination))
       {
       destination_dir = real_destination;
       SystemTools::ConvertToUnixSlashes(real_destination);
-- 
2.43.0


From ecb6ea086456bb0fd7e5374ff53376e7b652f649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:32 +0000
Subject: [PATCH 62/80] fix: copying a file into the directory it is in removed
 it first

---
 vital/kwiversys/SystemTools.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index bbd2dbf..7b8893d 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -2418,6 +2418,12 @@ bool SystemTools::CopyFileAlways(const std::string& source, const std::string& d
 
     SystemTools::MakeDirectory(destination_dir);
 
+    // The file in that directory may be the source itself
+    if(SystemTools::SameFile(source, real_destination))
+      {
+      return true;
+      }
+
     // Open files
 #if defined(_WIN32)
     kwsys::ifstream fin(Encoding::ToNarrow(
-- 
2.43.0


From e4697c73bca3cbe5ad5b356f51d7f780439d08de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:32 +0000
Subject: [PATCH 63/80] fix: copying a directory that could not be listed was
 reported to succeed

---
 vital/kwiversys/SystemTools.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index 7b8893d..5cbde74 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -2521,13 +2521,13 @@ bool SystemTools::CopyADirectory(const std::string& source, const std::string& d
 {
   Directory dir;
 #ifdef _WIN32
-  dir.Load(Encoding::ToNarrow(
+  bool const loaded = dir.Load(Encoding::ToNarrow(
              SystemTools::ConvertToWindowsExtendedPath(source)));
 #else
-  dir.Load(source);
+  bool const loaded = dir.Load(source);
 #endif
   size_t fileNum;
-  if ( !SystemTools::MakeDirectory(destination) )
+  if ( !loaded || !SystemTools::MakeDirectory(destination) )
     {
     return false;
     }
-- 
2.43.0


From 24f098b1a49fde15c166f901f879e90f36052088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:32 +0000
Subject: [PATCH 64/80] fix: removing a link to a directory emptied the
 directory, although it failed

---
 vital/kwiversys/SystemTools.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index 5cbde74..b3efac4 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -2803,6 +2803,12 @@ bool SystemTools::RemoveFile(const std::string& source)
 
 bool SystemTools::RemoveADirectory(const std::string& source)
 {
+  // A link is not a directory; what it leads to is left alone.
+  if(SystemTools::FileIsSymlink(source))
+    {
+    return false;
+    }
+
   // Add write permission to the directory so we can modify its
   // content to remove files and directories from it.
   mode_t mode;
-- 
2.43.0


From d926f83dce63840c97c6ae1130cfa3375a399e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:47 +0000
Subject: [PATCH 65/80] fix: the search for a file ended at a directory of that
 name, and that for a directory at a file

---
 vital/kwiversys/SystemTools.cxx    | 13 +++++++------
 vital/kwiversys/SystemTools.hxx.in |  2 +-
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index b3efac4..830c957 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -2872,7 +2872,7 @@ size_t SystemTools::GetMaximumFilePathLength()
  * found.  Otherwise, the empty string is returned.
  */
 std::string SystemTools
-::FindName(const std::string& name,
+::FindName(const std::string& name, bool isDirectory,
            const std::vector<std::string>& userPaths,
            bool no_system_path)
 {
@@ -2910,7 +2910,8 @@ std::string SystemTools
     {
     tryPath = *p;
     tryPath += name;
-    if(SystemTools::FileExists(tryPath))
+    if(SystemTools::FileExists(tryPath) &&
+       SystemTools::FileIsDirectory(tryPath) == isDirectory)
       {
       return tryPath;
       }
@@ -2929,8 +2930,8 @@ std::string SystemTools
            const std::vector<std::string>& userPaths,
            bool no_system_path)
 {
-  std::string tryPath = SystemTools::FindName(name, userPaths, no_system_path);
-  if(!tryPath.empty() && !SystemTools::FileIsDirectory(tryPath))
+  std::string tryPath = SystemTools::FindName(name, false, userPaths, no_system_path);
+  if(!tryPath.empty())
     {
     return SystemTools::CollapseFullPath(tryPath);
     }
@@ -2948,8 +2949,8 @@ std::string SystemTools
                 const std::vector<std::string>& userPaths,
                 bool no_system_path)
 {
-  std::string tryPath = SystemTools::FindName(name, userPaths, no_system_path);
-  if(!tryPath.empty() && SystemTools::FileIsDirectory(tryPath))
+  std::string tryPath = SystemTools::FindName(name, true, userPaths, no_system_path);
+  if(!tryPath.empty())
     {
     return SystemTools::CollapseFullPath(tryPath);
     }
diff --git a/vital/kwiversys/SystemTools.hxx.in b/vital/kwiversys/SystemTools.hxx.in
index bba5a5c..d10c7cd 100644
--- a/vital/kwiversys/SystemTools.hxx.in
+++ b/vital/kwiversys/SystemTools.hxx.in
@@ -976,7 +976,7 @@ private:
    * optional extra paths.
    */
   static std::string FindName(
-    const std::string& name,
+    const std::string& name, bool isDirectory,
     const std::vector<std::string>& path =
     std::vector<std::string>(),
     bool no_system_path = false);
-- 
2.43.0


From 3295b7fd8068208adcf110bf746459a79991b495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:19 +0000
Subject: [PATCH 66/80] fix: removing a directory where there is a file changed
 the permissions of the file

---
 vital/kwiversys/SystemTools.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index 830c957..5cd50af 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -2804,7 +2804,8 @@ bool SystemTools::RemoveFile(const std::string& source)
 bool SystemTools::RemoveADirectory(const std::string& source)
 {
   // A link is not a directory; what it leads to is left alone.
-  if(SystemTools::FileIsSymlink(source))
+  if(!SystemTools::FileIsDirectory(source) ||
+     SystemTools::FileIsSymlink(source))
     {
     return false;
     }
-- 
2.43.0


From 31794ff758e8aa97e0cce086d9a1319e2bcb9262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:49 +0000
Subject: [PATCH 67/80] fix: kwsysProcess restores the previous SIGINT and
 SIGTERM handlers

The old SIGTERM action was saved over the old SIGINT action.
---
 vital/kwiversys/ProcessUNIX.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/kwiversys/ProcessUNIX.c b/vital/kwiversys/ProcessUNIX.c
index 6d9b109..07eb61a 100644
--- a/vital/kwiversys/ProcessUNIX.c
+++ b/vital/kwiversys/ProcessUNIX.c
@@ -2883,7 +2883,7 @@ static int kwsysProcessesAdd(kwsysProcess* cp)
     sigemptyset(&newSigAction.sa_mask);
     sigaddset(&newSigAction.sa_mask, SIGINT);
     while((sigaction(SIGTERM, &newSigAction,
-                     &kwsysProcessesOldSigIntAction) < 0) &&
+                     &kwsysProcessesOldSigTermAction) < 0) &&
           (errno == EINTR));
     }
   }
-- 
2.43.0


From daa563fce11c34540e3b31fafbfa7ccba3e34c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:49 +0000
Subject: [PATCH 68/80] fix: kwsysProcess_Kill does not signal the ids of
 reaped processes

A second Kill, or one after the timeout expired, used ids that may belong
to other processes by then.
---
 vital/kwiversys/ProcessUNIX.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vital/kwiversys/ProcessUNIX.c b/vital/kwiversys/ProcessUNIX.c
index 07eb61a..a6540c3 100644
--- a/vital/kwiversys/ProcessUNIX.c
+++ b/vital/kwiversys/ProcessUNIX.c
@@ -1575,6 +1575,9 @@ void kwsysProcess_Kill(kwsysProcess* cp)
       /* Reap the child.  Keep trying until the call is not
          interrupted.  */
       while((waitpid(cp->ForkPIDs[i], &status, 0) < 0) && (errno == EINTR));
+
+      /* The process is gone.  Its id may be used by another process now.  */
+      cp->ForkPIDs[i] = 0;
       }
     }
 
-- 
2.43.0


From 981d3d6bf37d4a5e73b2b4032fe060efe99795b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:49 +0000
Subject: [PATCH 69/80] fix: kwsysProcess does not kill every process when fork
 fails

The -1 returned by fork was later passed to kill(), once with SIGSTOP and
once with SIGKILL.
---
 vital/kwiversys/ProcessUNIX.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vital/kwiversys/ProcessUNIX.c b/vital/kwiversys/ProcessUNIX.c
index a6540c3..b4b62ec 100644
--- a/vital/kwiversys/ProcessUNIX.c
+++ b/vital/kwiversys/ProcessUNIX.c
@@ -1892,6 +1892,8 @@ static int kwsysProcessCreate(kwsysProcess* cp, int prIndex,
 #endif
   if(cp->ForkPIDs[prIndex] < 0)
     {
+    /* There is no process to kill during cleanup; -1 would be all of them.  */
+    cp->ForkPIDs[prIndex] = 0;
     sigprocmask(SIG_SETMASK, &old_mask, 0);
     kwsysProcessCleanupDescriptor(&si->ErrorPipe[0]);
     kwsysProcessCleanupDescriptor(&si->ErrorPipe[1]);
-- 
2.43.0


From 863e78c19b44582b5aeb5d9c6e6b8649b2bd8776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:49 +0000
Subject: [PATCH 70/80] fix: kwsysProcess_Execute goes on when a signal
 interrupts it

The wait for the process group of the child was not repeated after EINTR.
---
 vital/kwiversys/ProcessUNIX.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vital/kwiversys/ProcessUNIX.c b/vital/kwiversys/ProcessUNIX.c
index b4b62ec..c899c9a 100644
--- a/vital/kwiversys/ProcessUNIX.c
+++ b/vital/kwiversys/ProcessUNIX.c
@@ -1976,7 +1976,8 @@ static int kwsysProcessCreate(kwsysProcess* cp, int prIndex,
   /* Make sure the child is in the process group before we proceed.  This
      avoids race conditions with calls to the kill function that we make for
      signalling process groups.  */
-  while((readRes = read(pgidPipe[0], &tmp, 1)) > 0);
+  while((readRes = read(pgidPipe[0], &tmp, 1)) > 0 ||
+        (readRes < 0 && errno == EINTR));
   if(readRes < 0)
     {
     sigprocmask(SIG_SETMASK, &old_mask, 0);
-- 
2.43.0


From 7a007a11e8f5ccc4b94096e67ed5f2aa0ad55c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:49 +0000
Subject: [PATCH 71/80] fix: kwsysProcess cleanup does not depend on the detach
 option set since

Setting the option while a process runs left a pointer to the object in the
table that the signal handler uses.
---
 vital/kwiversys/ProcessUNIX.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/vital/kwiversys/ProcessUNIX.c b/vital/kwiversys/ProcessUNIX.c
index c899c9a..d72d914 100644
--- a/vital/kwiversys/ProcessUNIX.c
+++ b/vital/kwiversys/ProcessUNIX.c
@@ -1736,13 +1736,10 @@ static void kwsysProcessCleanup(kwsysProcess* cp, int error)
       }
     }
 
-  /* If not creating a detached child, remove this object from the
-     global set of process objects that wish to be notified when a
-     child exits.  */
-  if(!cp->OptionDetach)
-    {
-    kwsysProcessesRemove(cp);
-    }
+  /* Remove this object from the global set of process objects that
+     wish to be notified when a child exits.  It is there only if the
+     child was not created detached; the option may have changed since.  */
+  kwsysProcessesRemove(cp);
 
   /* Free memory.  */
   if(cp->ForkPIDs)
-- 
2.43.0


From 45aaad80ba5636b6957858dad076748d0f0d8c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:49 +0000
Subject: [PATCH 72/80] fix: kwsysProcess terminates the error message of a
 child

The end of an earlier, longer message followed it.
---
 vital/kwiversys/ProcessUNIX.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vital/kwiversys/ProcessUNIX.c b/vital/kwiversys/ProcessUNIX.c
index d72d914..60ce67b 100644
--- a/vital/kwiversys/ProcessUNIX.c
+++ b/vital/kwiversys/ProcessUNIX.c
@@ -2018,6 +2018,7 @@ static int kwsysProcessCreate(kwsysProcess* cp, int prIndex,
   if(total > 0)
     {
     /* The child failed to execute the process.  */
+    cp->ErrorMessage[total] = 0;
     return 0;
     }
   }
-- 
2.43.0


From d7cd83154ba3cae8dabc3675b8e6c6c0e262b06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:49 +0000
Subject: [PATCH 73/80] fix: kwsysProcess times never have a full second of
 microseconds

select() rejects such a timeout, which was reported as an error of the process.
---
 vital/kwiversys/ProcessUNIX.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/kwiversys/ProcessUNIX.c b/vital/kwiversys/ProcessUNIX.c
index 60ce67b..0f7bce5 100644
--- a/vital/kwiversys/ProcessUNIX.c
+++ b/vital/kwiversys/ProcessUNIX.c
@@ -2245,7 +2245,7 @@ static kwsysProcessTime kwsysProcessTimeAdd(kwsysProcessTime in1, kwsysProcessTi
   kwsysProcessTime out;
   out.tv_sec = in1.tv_sec + in2.tv_sec;
   out.tv_usec = in1.tv_usec + in2.tv_usec;
-  if(out.tv_usec > 1000000)
+  if(out.tv_usec >= 1000000)
     {
     out.tv_usec -= 1000000;
     out.tv_sec += 1;
-- 
2.43.0


From 1723563ee5e476989bac8239466411baa2eb2c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:12 +0000
Subject: [PATCH 74/80] fix: merged stderr of a kwsysProcess pipeline goes to
 the shared stdout

Every process but the last wrote its stderr to the next process instead when
stdout is shared with the parent.
---
 vital/kwiversys/ProcessUNIX.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vital/kwiversys/ProcessUNIX.c b/vital/kwiversys/ProcessUNIX.c
index 0f7bce5..4f7fbc0 100644
--- a/vital/kwiversys/ProcessUNIX.c
+++ b/vital/kwiversys/ProcessUNIX.c
@@ -1919,11 +1919,17 @@ static int kwsysProcessCreate(kwsysProcess* cp, int prIndex,
       {
       close(0);
       }
+    if(si->StdErr == 1)
+      {
+      /* Merged into the stdout shared with the parent, which may be
+         replaced by the pipe to the next process below.  */
+      dup2(si->StdErr, 2);
+      }
     if(si->StdOut != 1)
       {
       dup2(si->StdOut, 1);
       }
-    if(si->StdErr != 2)
+    if(si->StdErr != 1 && si->StdErr != 2)
       {
       dup2(si->StdErr, 2);
       }
-- 
2.43.0


From ecf46b96412c93dabfaa48d165378b0235c63e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:24 +0000
Subject: [PATCH 75/80] fix: SplitString kept a separator that follows another
 one or begins the text

---
 vital/kwiversys/SystemTools.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index 5cd50af..2d2d556 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -1854,12 +1854,12 @@ std::vector<kwsys::String> SystemTools::SplitString(const std::string& p, char s
     paths.push_back("/");
     }
   std::string::size_type pos1 = 0;
-  std::string::size_type pos2 = path.find(sep, pos1+1);
+  std::string::size_type pos2 = path.find(sep, pos1);
   while(pos2 != std::string::npos)
     {
     paths.push_back(path.substr(pos1, pos2-pos1));
     pos1 = pos2+1;
-    pos2 = path.find(sep, pos1+1);
+    pos2 = path.find(sep, pos1);
     }
   paths.push_back(path.substr(pos1, pos2-pos1));
 
-- 
2.43.0


From f3dcaa4ef1a5fb1d2929e12e7d467e1ac8320558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:24 +0000
Subject: [PATCH 76/80] fix: EstimateFormatLength under-estimated widths,
 precisions and large numbers

---
 vital/kwiversys/SystemTools.cxx | 64 ++++-----------------------------
 1 file changed, 6 insertions(+), 58 deletions(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index 2d2d556..ad5b4b2 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -1874,65 +1874,13 @@ int SystemTools::EstimateFormatLength(const char *format, va_list ap)
     return 0;
     }
 
-  // Quick-hack attempt at estimating the length of the string.
-  // Should never under-estimate.
-
-  // Start with the length of the format string itself.
-
-  size_t length = strlen(format);
-
-  // Increase the length for every argument in the format.
-
-  const char* cur = format;
-  while(*cur)
-    {
-    if(*cur++ == '%')
-      {
-      // Skip "%%" since it doesn't correspond to a va_arg.
-      if(*cur != '%')
-        {
-        while(!int(isalpha(*cur)))
-          {
-          ++cur;
-          }
-        switch (*cur)
-          {
-          case 's':
-          {
-          // Check the length of the string.
-          char* s = va_arg(ap, char*);
-          if(s)
-            {
-            length += strlen(s);
-            }
-          } break;
-          case 'e':
-          case 'f':
-          case 'g':
-          {
-          // Assume the argument contributes no more than 64 characters.
-          length += 64;
-
-          // Eat the argument.
-          static_cast<void>(va_arg(ap, double));
-          } break;
-          default:
-          {
-          // Assume the argument contributes no more than 64 characters.
-          length += 64;
-
-          // Eat the argument.
-          static_cast<void>(va_arg(ap, int));
-          } break;
-          }
-        }
-
-      // Move past the characters just tested.
-      ++cur;
-      }
-    }
+#if defined(_MSC_VER)
+  int length = _vscprintf(format, ap);
+#else
+  int length = vsnprintf(0, 0, format, ap);
+#endif
 
-  return static_cast<int>(length);
+  return length < 0 ? 0 : length;
 }
 
 std::string SystemTools::EscapeChars(
-- 
2.43.0


From 84e963cb091b3adc2b67d4200e7bdfc9c4ab6c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:24 +0000
Subject: [PATCH 77/80] fix: dates and time stamps of the wrong length or with
 parts of two months were accepted

---
 vital/kwiversys/SystemTools.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index ad5b4b2..2d83729 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -2601,7 +2601,7 @@ long int SystemTools::CreationTime(const std::string& filename)
 
 bool SystemTools::ConvertDateMacroString(const char *str, time_t *tmt)
 {
-  if (!str || !tmt || strlen(str) > 11)
+  if (!str || !tmt || strlen(str) != 11)
     {
     return false;
     }
@@ -2624,7 +2624,7 @@ bool SystemTools::ConvertDateMacroString(const char *str, time_t *tmt)
 
   buffer[3] = 0;
   char *ptr = strstr(month_names, buffer);
-  if (!ptr)
+  if (!ptr || (ptr - month_names) % 3 != 0)
     {
     return false;
     }
@@ -2649,7 +2649,7 @@ bool SystemTools::ConvertDateMacroString(const char *str, time_t *tmt)
 
 bool SystemTools::ConvertTimeStampMacroString(const char *str, time_t *tmt)
 {
-  if (!str || !tmt || strlen(str) > 26)
+  if (!str || !tmt || strlen(str) < 24 || strlen(str) > 26)
     {
     return false;
     }
@@ -2675,7 +2675,7 @@ bool SystemTools::ConvertTimeStampMacroString(const char *str, time_t *tmt)
 
   buffer[7] = 0;
   char *ptr = strstr(month_names, buffer + 4);
-  if (!ptr)
+  if (!ptr || (ptr - month_names) % 3 != 0)
     {
     return false;
     }
-- 
2.43.0


From d8e315a9f7b079dd456fbf24857d27c3a1a00e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:24 +0000
Subject: [PATCH 78/80] fix: SplitProgramFromArgs never ended for a text that
 begins with a space

---
 vital/kwiversys/SystemTools.cxx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index 2d83729..8808f43 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -4568,8 +4568,11 @@ void SystemTools::SplitProgramFromArgs(const std::string& path,
       return;
       }
     // move past the space for the next search
-    spacePos--;
-    spacePos = dir.rfind(' ', spacePos);
+    if(spacePos == 0)
+      {
+      break;
+      }
+    spacePos = dir.rfind(' ', spacePos - 1);
     }
 
   program = "";
-- 
2.43.0


From cef574e849c63d64536dea5ba817b6ec2863657a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:24 +0000
Subject: [PATCH 79/80] fix: GetLineFromStream lost carriage returns at buffer
 boundaries, text after NUL, and the last character allowed

---
 vital/kwiversys/SystemTools.cxx | 63 ++++++++-------------------------
 1 file changed, 15 insertions(+), 48 deletions(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index 8808f43..97a8e72 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -4608,24 +4608,15 @@ std::string SystemTools::MakeCidentifier(const std::string& s)
   return str;
 }
 
-// Due to a buggy stream library on the HP and another on Mac OS X, we
-// need this very carefully written version of getline.  Returns true
-// if any data were read before the end-of-file was reached.
+// Returns true if any data were read before the end-of-file was reached.
 bool SystemTools::GetLineFromStream(std::istream& is,
                                     std::string& line,
                                     bool* has_newline /* = 0 */,
                                     long sizeLimit /* = -1 */)
 {
-  const int bufferSize = 1024;
-  char buffer[bufferSize];
-  bool haveData = false;
-  bool haveNewline = false;
-
   // Start with an empty line.
   line = "";
 
-  long leftToRead = sizeLimit;
-
   // Early short circuit return if stream is no good. Just return
   // false and the empty line. (Probably means caller tried to
   // create a file stream with a non-existent file name...)
@@ -4639,46 +4630,22 @@ bool SystemTools::GetLineFromStream(std::istream& is,
     return false;
     }
 
-  // If no characters are read from the stream, the end of file has
-  // been reached.  Clear the fail bit just before reading.
-  while(!haveNewline &&
-        leftToRead != 0 &&
-        (is.clear(is.rdstate() & ~std::ios::failbit),
-         is.getline(buffer, bufferSize), is.gcount() > 0))
-    {
-    // We have read at least one byte.
-    haveData = true;
-
-    // If newline character was read the gcount includes the character
-    // but the buffer does not: the end of line has been reached.
-    size_t length = strlen(buffer);
-    if(length < static_cast<size_t>(is.gcount()))
-      {
-      haveNewline = true;
-      }
-
-    // Avoid storing a carriage return character.
-    if(length > 0 && buffer[length-1] == '\r')
-      {
-      buffer[length-1] = 0;
-      }
+  // Reading stops at the end of the file or after a newline character,
+  // which is not stored.
+  std::getline(is, line);
+  bool haveNewline = !is.eof() && !is.fail();
+  bool haveData = haveNewline || !line.empty();
 
-    // if we read too much then truncate the buffer
-    if (leftToRead > 0)
-      {
-      if (static_cast<long>(length) > leftToRead)
-        {
-        buffer[leftToRead-1] = 0;
-        leftToRead = 0;
-        }
-      else
-        {
-        leftToRead -= static_cast<long>(length);
-        }
-      }
+  // Avoid storing a carriage return character at the end of the line.
+  if(!line.empty() && line[line.size()-1] == '\r')
+    {
+    line.resize(line.size()-1);
+    }
 
-    // Append the data read to the line.
-    line.append(buffer);
+  // if we read too much then truncate the line
+  if(sizeLimit >= 0 && line.size() > static_cast<size_t>(sizeLimit))
+    {
+    line.resize(static_cast<size_t>(sizeLimit));
     }
 
   // Return the results.
-- 
2.43.0


From a666e47d5f153176a3797d12c673b974ee740a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:37 +0000
Subject: [PATCH 80/80] fix: put the tangential part of the distortion
 derivative in its place

The second diagonal element of the Jacobian was added to the first one, so that
undistorting a point converged slowly and not to the point.
---
 vital/types/camera_intrinsics.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/types/camera_intrinsics.cxx b/vital/types/camera_intrinsics.cxx
index b6b2c3e..5aef4db 100644
--- a/vital/types/camera_intrinsics.cxx
+++ b/vital/types/camera_intrinsics.cxx
@@ -223,7 +223,7 @@ distortion_jacobian( const Eigen::Matrix< T, 2, 1 >& pt,
     J( 0, 0 ) += ay + 3 * ax;
     J( 0, 1 ) += axy;
     J( 1, 0 ) += axy;
-    J( 0, 0 ) += 3 * ay + ax;
+    J( 1, 1 ) += 3 * ay + ax;
   }
   return J;
 }
-- 
2.43.0

