From 5cbe9fb1bc58d1ee03f8803ece75b80815c6f380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:46 +0000
Subject: [PATCH 01/40] fix: table_search's older constructors no longer read
 the flags before setting them, nor search an empty length range

---
 ringing/table_search.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ringing/table_search.cpp b/ringing/table_search.cpp
index edf138e..3d08c4e 100644
--- a/ringing/table_search.cpp
+++ b/ringing/table_search.cpp
@@ -90,14 +90,14 @@ table_search::table_search( const method &meth, const vector<change> &calls,
 table_search::table_search( const method &meth, const vector<change> &calls,
                             bool set_nr )
   : meth( meth ), calls( calls ),
+    lenrange( make_pair( size_t(0), size_t(-1) ) ),
     f( set_nr ? ignore_rotations : no_flags )
 {}
 
 table_search::table_search( const method &meth, const vector<change> &calls,
                             pair< size_t, size_t > lenrange, bool set_nr )
   : meth( meth ), calls( calls ),
-    lenrange( range_div( lenrange, f & length_in_changes
-                                     ? partends.size() * meth.length() : 1) ),
+    lenrange( lenrange ),
     f( set_nr ? ignore_rotations : no_flags )
 {
   DEBUG( "Length range set to " << lenrange.first << "-" << lenrange.second 
@@ -108,7 +108,7 @@ class table_search::context : public search_base::context_base
 {
 public:
   context( const table_search *s ) 
-    : lenrange( s->lenrange ),  impossible( false ),
+    : lenrange( s->lenrange ),  force_halt( false ),  impossible( false ),
       table( make_table( s ) ),
       f( s->f )
   {
-- 
2.43.0


From c19f1ae0dd15b2bd704bc4f449e0689ed1e68a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:46 +0000
Subject: [PATCH 02/40] fix: give every scalar member a value in constructors
 that left it indeterminate

---
 apps/gsiril/functions.cpp             |  4 ----
 apps/methsearch/mask.cpp              |  2 +-
 apps/touchsearch/join_plan_search.cpp |  1 +
 apps/utils/args.cpp                   |  4 ++--
 apps/utils/row_calc.cpp               |  2 +-
 ringing/basic_search.cpp              |  1 +
 ringing/extent.h                      |  4 ++--
 ringing/falseness.cpp                 |  4 ++--
 ringing/litelib.cpp                   |  2 +-
 ringing/print_pdf.cpp                 |  2 +-
 ringing/print_pdf.h                   |  5 +++--
 ringing/print_ps.cpp                  |  5 +++--
 ringing/print_ps.h                    |  3 ++-
 ringing/printm.h                      | 10 ++++++++--
 ringing/touch.cpp                     |  2 +-
 15 files changed, 29 insertions(+), 22 deletions(-)

diff --git a/apps/gsiril/functions.cpp b/apps/gsiril/functions.cpp
index 608c858..90ef5fe 100644
--- a/apps/gsiril/functions.cpp
+++ b/apps/gsiril/functions.cpp
@@ -192,8 +192,6 @@ class crus_impl : public fnnode {
   virtual void debug_print( ostream &os ) const { os << "crus"; }
   virtual expression::type_t type( proof_context &ctx ) const 
     { return expression::no_type; }
-
-  music::match_pos pos;
 };
 
 class methname_impl : public fnnode {
@@ -208,8 +206,6 @@ class methname_impl : public fnnode {
   virtual void debug_print( ostream &os ) const { os << "methname"; }
   virtual expression::type_t type( proof_context &ctx ) const 
     { return expression::no_type; }
-
-  music::match_pos pos;
 };
 
 class pnstr_impl : public fnnode {
diff --git a/apps/methsearch/mask.cpp b/apps/methsearch/mask.cpp
index 9d95256..907b809 100644
--- a/apps/methsearch/mask.cpp
+++ b/apps/methsearch/mask.cpp
@@ -109,7 +109,7 @@ pair< int, int > get_posn2( const arguments &args, int depth )
 
 struct block 
 {
-  block() : is_sym(false), got_star(false) {}
+  block() : is_sym(false), got_star(false), star_idx(0) {}
 
   vector< vector<change> > data;
   bool is_sym;
diff --git a/apps/touchsearch/join_plan_search.cpp b/apps/touchsearch/join_plan_search.cpp
index 7d97638..6a12f2b 100644
--- a/apps/touchsearch/join_plan_search.cpp
+++ b/apps/touchsearch/join_plan_search.cpp
@@ -72,6 +72,7 @@ class join_plan_search::context : public search_base::context_base
 public:
   context( const join_plan_search* s ) 
     : lenrange( s->lenrange ),
+      force_halt( false ),
       table( make_table(s) )
   {
     DEBUG( "Constructing context: table size " << table.size() );
diff --git a/apps/utils/args.cpp b/apps/utils/args.cpp
index b7e5eff..5c4736e 100644
--- a/apps/utils/args.cpp
+++ b/apps/utils/args.cpp
@@ -340,12 +340,12 @@ bool repeated_boolean_opt::process( const string &, const arg_parser & ) const
 
 integer_opt::integer_opt( char c, const string &l, const string &d, 
 			  const string &a, int &opt )
-  : option(c, l, d, a), opt(opt)
+  : option(c, l, d, a), opt(opt), default_val(0)
 {}
 
 integer_opt::integer_opt( char c, const string &l, const string &d, 
 			  const string &a, init_val_base<int> &opt )
-  : option(c, l, d, a), opt(opt.get())
+  : option(c, l, d, a), opt(opt.get()), default_val(0)
 {}
 
 integer_opt::integer_opt( char c, const string& l, const string& d, 
diff --git a/apps/utils/row_calc.cpp b/apps/utils/row_calc.cpp
index 19dc0f6..e24ca8a 100644
--- a/apps/utils/row_calc.cpp
+++ b/apps/utils/row_calc.cpp
@@ -435,7 +435,7 @@ private:
 
 class exec_node : public row_calc::expr::node {
 public:
-  exec_node( string const& cmd ) : cmd(cmd), invoked(false) {}
+  exec_node( string const& cmd ) : cmd(cmd), invoked(false), idx(0) {}
 
 private:
   virtual void restart() { idx = 0; }
diff --git a/ringing/basic_search.cpp b/ringing/basic_search.cpp
index 2d466fa..987f77e 100644
--- a/ringing/basic_search.cpp
+++ b/ringing/basic_search.cpp
@@ -58,6 +58,7 @@ class basic_search::context : public search_base::context_base
 public:
   context( const basic_search *s ) 
     : lenrange( s->lenrange ),
+      force_halt( false ),
       ignore_rotations( s->ignore_rotations )
   {
     row le; 
diff --git a/ringing/extent.h b/ringing/extent.h
index 22c54a1..d26b2b3 100644
--- a/ringing/extent.h
+++ b/ringing/extent.h
@@ -64,7 +64,7 @@ public:
   typedef const row &reference;
 
   // A generic end iterator (cannot be decremented)
-  extent_iterator() : end_(true) {}
+  extent_iterator() : nw(0), nh(0), nt(0), end_(true) {}
   
   // The beginning iterator
   //   nw == The number of working bells 
@@ -263,7 +263,7 @@ public:
   typedef const change &reference;
 
   // A generic end iterator
-  changes_iterator() : end_(true) {}
+  changes_iterator() : nw(0), nh(0), end_(true) {}
 
   // The beginning iterator
   //   nw == The number of working bells 
diff --git a/ringing/falseness.cpp b/ringing/falseness.cpp
index 5a24bfd..d4ff63b 100644
--- a/ringing/falseness.cpp
+++ b/ringing/falseness.cpp
@@ -63,7 +63,7 @@ static bool are_tenors_together( const row &r, int working_bells )
 }
 
 falseness_table::falseness_table()
-  : t(1, row())
+  : t(1, row()), flags(0)
 {}
 
 void falseness_table::init( vector<row> const& m1, vector<row> const& m2 )
@@ -153,7 +153,7 @@ group falseness_table::generate_group() const
 }
 
 false_courses::false_courses()
-  : t(1, row())
+  : t(1, row()), flags(0)
 {}
 
 
diff --git a/ringing/litelib.cpp b/ringing/litelib.cpp
index 8ed37b6..44e992f 100644
--- a/ringing/litelib.cpp
+++ b/ringing/litelib.cpp
@@ -95,7 +95,7 @@ litelib::litelib(int b, istream& is, int flags)
 class litelib::impl::entry_type : public library_entry::impl
 {
 public:
-  explicit entry_type(int b, int flags) : b(b), flags(flags) {}
+  explicit entry_type(int b, int flags) : linestart(0), b(b), flags(flags) {}
 
 private:
   virtual string name() const;
diff --git a/ringing/print_pdf.cpp b/ringing/print_pdf.cpp
index 7d2e50b..ff14558 100644
--- a/ringing/print_pdf.cpp
+++ b/ringing/print_pdf.cpp
@@ -45,7 +45,7 @@
 RINGING_START_NAMESPACE
 
 pdf_file::pdf_file(ostream& o, bool l, int w, int h)
-  : csb(o.rdbuf()), os(&csb), width(w), height(h), landscape(l)
+  : csb(o.rdbuf()), os(&csb), stream_start(0), width(w), height(h), landscape(l)
 {
   start();
 }
diff --git a/ringing/print_pdf.h b/ringing/print_pdf.h
index 1c65e4e..d93e87a 100644
--- a/ringing/print_pdf.h
+++ b/ringing/print_pdf.h
@@ -161,7 +161,7 @@ public:
   circle_pdf(float _x, float _y, float _r, char _op, colour _c) : 
     x(_x), y(_y), r(_r), op(_op), set_colour(true), c(_c) {}
   circle_pdf(float _x, float _y, float _r, char _op) : 
-    x(_x), y(_y), r(_r), op(_op), set_colour(false) {}
+    x(_x), y(_y), r(_r), op(_op), set_colour(false), c() {}
   void output(printpage_pdf& pp);
 
   RINGING_FAKE_DEFAULT_CONSTRUCTOR( circle_pdf )
@@ -204,7 +204,8 @@ private:
 
 public:
   printrow_pdf(printpage_pdf& p, const printrow::options& op) 
-    : pp(p), in_column(false), lastrow(8), opt(op) { start(); }
+    : pp(p), currx(0), curry(0), count(0), gapcount(0), in_column(false),
+      lastrow(8), opt(op) { start(); }
   ~printrow_pdf() { if(in_column) end_column(); }
   void print(const row& r);
   void rule();
diff --git a/ringing/print_ps.cpp b/ringing/print_ps.cpp
index b095f4d..0e3fa15 100644
--- a/ringing/print_ps.cpp
+++ b/ringing/print_ps.cpp
@@ -162,7 +162,8 @@ RINGING_VERSION " 0\n"
 "%%DocumentNeededResources: (atend)\n"
 "%%EndComments\n\n";
 
-printpage_ps::printpage_ps(ostream& o) : os(o), eps(false), landscape(false)
+printpage_ps::printpage_ps(ostream& o)
+  : os(o), eps(false), landscape(false), ph(0)
 {
   pages = 1;
   os << "%!PS-Adobe-3.0\n" << "%%Pages: (atend)\n%%Orientation: Portrait\n"
@@ -180,7 +181,7 @@ printpage_ps::printpage_ps(ostream& o, const dimension& page_height)
 }
 
 printpage_ps::printpage_ps(ostream& o, int x0, int y0, int x1, int y1)
-  : os(o), eps(true)
+  : os(o), eps(true), landscape(false), ph(0)
 {
   pages = 0;
   os << "%!PS-Adobe-3.0 EPSF-3.0\n"
diff --git a/ringing/print_ps.h b/ringing/print_ps.h
index e17330b..9e11237 100644
--- a/ringing/print_ps.h
+++ b/ringing/print_ps.h
@@ -94,7 +94,8 @@ private:
 
 public:
   printrow_ps(printpage_ps& p, const printrow::options& op) 
-    : pp(p), in_column(false), lastrow(8), opt(op) { start(); }
+    : pp(p), currx(0), curry(0), count(0), gapcount(0), in_column(false),
+      lastrow(8), opt(op) { start(); }
   ~printrow_ps() { if(in_column) end_column(); }
   void print(const row& r);
   void rule();
diff --git a/ringing/printm.h b/ringing/printm.h
index deeaf2a..397d4f5 100644
--- a/ringing/printm.h
+++ b/ringing/printm.h
@@ -61,8 +61,14 @@ public:
     
   void defaults(); 
 
-  printmethod() : m(0) {}
-  printmethod(const method& mm) : m(&mm) {}
+  printmethod() 
+    : m(0), opt(), total_rows(0), rows_per_column(1), columns_per_set(1), 
+      sets_per_page(0), number_mode(miss_never), pn_mode(pn_none), 
+      placebells(0) {}
+  printmethod(const method& mm) 
+    : m(&mm), opt(), total_rows(0), rows_per_column(1), columns_per_set(1), 
+      sets_per_page(0), number_mode(miss_never), pn_mode(pn_none), 
+      placebells(0) {}
   void set_method(const method& mm) { m = &mm; }
   const method& get_method() { return *m; }
 
diff --git a/ringing/touch.cpp b/ringing/touch.cpp
index d81a625..62d292d 100644
--- a/ringing/touch.cpp
+++ b/ringing/touch.cpp
@@ -71,7 +71,7 @@ private:
   touch_node::const_iterator ci;
   int count;
 public:
-  iterator() {}
+  iterator() : count(0) {}
   ~iterator() {}
   change operator*() const { return *ci; }
   touch_node::iterator_base& operator++();
-- 
2.43.0


From 60d61c530e2aaa2ce47e1be7405e32bc0067533a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:54 +0000
Subject: [PATCH 03/40] fix: comparing a null touch iterator with a real one no
 longer dereferences null

---
 ringing/touch.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/touch.h b/ringing/touch.h
index 833f3f5..861c759 100644
--- a/ringing/touch.h
+++ b/ringing/touch.h
@@ -91,7 +91,7 @@ public:
     const_iterator operator++(int) 
       { const_iterator tmp(*this); ++*this; return tmp; }
     bool operator==(const const_iterator& i) const 
-      { return (!bp && !(i.bp)) || (*bp == *(i.bp)); }
+      { return (!bp || !i.bp) ? (!bp && !i.bp) : (*bp == *(i.bp)); }
     bool operator!=(const const_iterator& i) const
       { return !operator==(i); }
 
-- 
2.43.0


From caef7fb5fe565282dd6c44e9f14efe897a06fc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:51 +0000
Subject: [PATCH 04/40] fix: swapping false_courses or falseness_table objects
 exchanges all of their state

---
 ringing/falseness.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ringing/falseness.h b/ringing/falseness.h
index 304910c..e3ac175 100644
--- a/ringing/falseness.h
+++ b/ringing/falseness.h
@@ -74,7 +74,8 @@ public:
   falseness_table( const vector<row> &a, const vector<row> &b, int flags = 0 );
 
   // Assignment and swapping
-  void swap( falseness_table &other ) { t.swap( other.t ); }
+  void swap( falseness_table &other ) 
+    { t.swap( other.t ); RINGING_PREFIX_STD swap( flags, other.flags ); }
 
   // Iterators
   typedef row value_type;
@@ -113,7 +114,9 @@ public:
   false_courses( const method &m, int flags = 0 );
 
   // Assignment and swapping
-  void swap( false_courses &other ) { t.swap( other.t ); }
+  void swap( false_courses &other ) 
+    { t.swap( other.t ); lh.swap( other.lh );
+      RINGING_PREFIX_STD swap( flags, other.flags ); }
 
   // Iterators
   typedef row value_type;
-- 
2.43.0


From 9f8a6bb9b77faaaedf7ca086e15e7f5675537c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:42 +0000
Subject: [PATCH 05/40] fix: release every XML node reference taken while
 writing namespace declarations

---
 ringing/dom_gdome.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ringing/dom_gdome.cpp b/ringing/dom_gdome.cpp
index 9b195dd..c18b177 100644
--- a/ringing/dom_gdome.cpp
+++ b/ringing/dom_gdome.cpp
@@ -210,14 +210,15 @@ static bool has_ns_recurse( GdomeElement* elt, char const* ns,
   if (a == ns) return true; 
   else if (!a.empty()) return false; 
 
+  bool val = false;
   GdomeNode* parent = gdome_el_parentNode(elt, exc);
-  if (parent && gdome_n_nodeType(parent, exc) == GDOME_ELEMENT_NODE) {
-    bool val = has_ns_recurse( GDOME_EL(parent), ns, xmlns, exc ); 
+  if (parent) {
+    if (gdome_n_nodeType(parent, exc) == GDOME_ELEMENT_NODE)
+      val = has_ns_recurse( GDOME_EL(parent), ns, xmlns, exc ); 
     gdome_n_unref(parent, exc); 
-    return val;
   }
 
-  return false;
+  return val;
 }
 
 
@@ -240,8 +241,9 @@ dom_element dom_document::create_document( char const* ns, char const* qn )
   pimpl->doc = gdome_di_createDocument
     ( pimpl->domimpl, TRANSCODE_O(ns), TRANSCODE_O(qn), NULL, &pimpl->exc );
 
-  setup_elt_ns( gdome_doc_documentElement(pimpl->doc, &pimpl->exc), 
-                ns, qn, &pimpl->exc );
+  GdomeElement* root = gdome_doc_documentElement(pimpl->doc, &pimpl->exc);
+  setup_elt_ns( root, ns, qn, &pimpl->exc );
+  gdome_el_unref( root, &pimpl->exc );
 
   return get_document();
 }
-- 
2.43.0


From b7a7dec72c314011dabc0bb61687b381bb32d2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:22 +0000
Subject: [PATCH 06/40] fix: programs report errors in their input and exit
 with status 1 instead of aborting

---
 apps/methodlib/methodlib.cpp   | 9 ++++++++-
 apps/methsearch/main.cpp       | 7 +++++++
 apps/printmethod/main.cpp      | 8 +++++++-
 apps/rowcalc/rowcalc.cpp       | 4 ++++
 apps/spliceplan/spliceplan.cpp | 6 ++++++
 apps/splices/splices.cpp       | 6 ++++++
 6 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/apps/methodlib/methodlib.cpp b/apps/methodlib/methodlib.cpp
index 0a080d4..b6bdf0c 100644
--- a/apps/methodlib/methodlib.cpp
+++ b/apps/methodlib/methodlib.cpp
@@ -27,6 +27,7 @@
 
 #include <map>
 #include <iostream>
+#include <exception>
 
 #include "init_val.h"
 #include "args.h"
@@ -285,7 +286,9 @@ bool filter_by_start( library const& meths, arguments& args, libout& out ) {
   return okay;
 }
 
-int main(int argc, char const** argv) {
+int main(int argc, char const** argv)
+try
+{
   // Register mslib last, as various things can accidentally match it
   cclib::registerlib();
   xmllib::registerlib();
@@ -319,3 +322,7 @@ int main(int argc, char const** argv) {
     okay = filter_by_start(meths, args, out);
   return okay ? 0 : 1;
 }
+catch ( const exception &ex ) {
+  cerr << "methodlib: " << ex.what() << endl;
+  return 1;
+}
diff --git a/apps/methsearch/main.cpp b/apps/methsearch/main.cpp
index 3d70f9f..c9eab08 100644
--- a/apps/methsearch/main.cpp
+++ b/apps/methsearch/main.cpp
@@ -25,6 +25,8 @@
 #include "format.h"
 #include "search.h"
 #include "prog_args.h"
+#include <iostream>
+#include <exception>
 #include <ctime>
 #include <cstdlib>
 
@@ -33,6 +35,7 @@ RINGING_USING_NAMESPACE
 RINGING_USING_STD
 
 int main( int argc, char *argv[] )
+try
 {
   bell::set_symbols_from_env();
 
@@ -57,3 +60,7 @@ int main( int argc, char *argv[] )
 
   return 0;
 }
+catch ( const exception &ex ) {
+  cerr << "methsearch: " << ex.what() << endl;
+  return 1;
+}
diff --git a/apps/printmethod/main.cpp b/apps/printmethod/main.cpp
index a3ba3f1..b5d3e69 100644
--- a/apps/printmethod/main.cpp
+++ b/apps/printmethod/main.cpp
@@ -19,6 +19,7 @@
 #include <ringing/common.h>
 
 #include <iostream>
+#include <exception>
 #include <map>
 #include <string>
 #include <cassert>
@@ -189,7 +190,8 @@ bool arguments::validate( arg_parser &ap )
   return true;
 }
 
-int main(int argc, char* argv[]) 
+int main(int argc, char* argv[])
+try
 {
   bell::set_symbols_from_env();
 
@@ -235,5 +237,9 @@ int main(int argc, char* argv[])
   for ( int i=0; i<args.final_rounds*2; ++i)
     cout << args.bellfmt << r << "\n";
 }
+catch ( const exception &ex ) {
+  cerr << "printmethod: " << ex.what() << endl;
+  return 1;
+}
 
 
diff --git a/apps/rowcalc/rowcalc.cpp b/apps/rowcalc/rowcalc.cpp
index 95c5cef..8ba0eed 100644
--- a/apps/rowcalc/rowcalc.cpp
+++ b/apps/rowcalc/rowcalc.cpp
@@ -146,6 +146,10 @@ bool evaluate_expr( arguments const& args, string const& expr )
     cerr << "Invalid row produced: " << ex.what() << "\n";
     return false;
   }
+  catch ( exception const& ex ) {
+    cerr << "Error evaluating expression: " << ex.what() << "\n";
+    return false;
+  }
 
   return true;
 }
diff --git a/apps/spliceplan/spliceplan.cpp b/apps/spliceplan/spliceplan.cpp
index ec9700c..61f57a3 100644
--- a/apps/spliceplan/spliceplan.cpp
+++ b/apps/spliceplan/spliceplan.cpp
@@ -34,6 +34,7 @@
 
 #include <algorithm>
 #include <iostream>
+#include <exception>
 #include <iterator>
 #include <map>
 #include <fstream>
@@ -866,6 +867,7 @@ sqmulttab* analyser::make_multtab()
 }
 
 int main(int argc, char const* argv[] )
+try
 {
   bell::set_symbols_from_env();
 
@@ -882,3 +884,7 @@ int main(int argc, char const* argv[] )
       a.add_plan( argv[i] );
   } 
 }
+catch ( const exception &ex ) {
+  cerr << "spliceplan: " << ex.what() << endl;
+  return 1;
+}
diff --git a/apps/splices/splices.cpp b/apps/splices/splices.cpp
index 9594008..d76f6d7 100644
--- a/apps/splices/splices.cpp
+++ b/apps/splices/splices.cpp
@@ -28,6 +28,7 @@
 #include "args.h"
 
 #include <iostream>
+#include <exception>
 #include <list>
 #include <set>
 #include <map>
@@ -640,6 +641,7 @@ void splices::find_splices( library const& lib )
 }
 
 int main( int argc, char *argv[] )
+try
 {
   bell::set_symbols_from_env();
 
@@ -664,3 +666,7 @@ int main( int argc, char *argv[] )
     spl.find_splices( in );
   }
 }
+catch ( const exception &ex ) {
+  cerr << "splices: " << ex.what() << endl;
+  return 1;
+}
-- 
2.43.0


From c667273bbbc411564788f85397f30f3d201b225b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:00 +0000
Subject: [PATCH 07/40] fix: methsearch honours suppress and abort in
 statistics formats instead of aborting

---
 apps/methsearch/format.cpp | 20 ++++++++++++++++++--
 apps/methsearch/search.cpp |  4 +++-
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/apps/methsearch/format.cpp b/apps/methsearch/format.cpp
index 7f57fda..c7fb967 100644
--- a/apps/methsearch/format.cpp
+++ b/apps/methsearch/format.cpp
@@ -172,6 +172,9 @@ public:
     
     bool operator()( const histogram_entry &x, 
                      const histogram_entry &y ) const;
+
+  private:
+    static string evaluate( size_t idx, const method_properties &props );
   };
 
   histogram_entry( const format_string &f, 
@@ -189,6 +192,19 @@ private:
   method_properties props;
 };
 
+// Methods whose expression stops their output, using the suppress or abort 
+// keywords, compare equal: print() deals with the keyword.
+string histogram_entry::cmp::evaluate( size_t idx, 
+                                       const method_properties &props )
+{
+  try {
+    return expression_cache::evaluate( idx, props );
+  }
+  catch ( const script_exception& ) {
+    return string();
+  }
+}
+
 bool histogram_entry::cmp::operator()( const histogram_entry &x, 
                                        const histogram_entry &y ) const
 {
@@ -209,8 +225,8 @@ bool histogram_entry::cmp::operator()( const histogram_entry &x,
       if ( i->second == "*" ) {
         // TODO: We should cache these in case they contain lengthy 
         // command invocations and/or non-deterministic output
-        xval = expression_cache::evaluate(i->first.first, x.props);
-        yval = expression_cache::evaluate(i->first.first, y.props);
+        xval = evaluate(i->first.first, x.props);
+        yval = evaluate(i->first.first, y.props);
       }
       else {
         xval = x.props.get_property( i->first, i->second );
diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 9a5b083..3c55bb6 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -293,7 +293,9 @@ void run_search( arguments &args )
   // Causes the stats to be emittted
   if ( args.H_fmt_str.size() ) {
     if ( !args.quiet && s.search_count ) cout << "\n";
-    args.outputs.flush();
+    try {
+      args.outputs.flush();
+    } catch ( const exit_exception& ) {}
   }
 
   if ( args.count || args.raw_count || args.node_count )
-- 
2.43.0


From 663e98a74cf22f284384243ef95e37b1fd04c80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:37 +0000
Subject: [PATCH 08/40] fix: a plan search never outputs touches longer than
 the maximum length

---
 apps/touchsearch/join_plan_search.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/touchsearch/join_plan_search.cpp b/apps/touchsearch/join_plan_search.cpp
index 6a12f2b..5675bc5 100644
--- a/apps/touchsearch/join_plan_search.cpp
+++ b/apps/touchsearch/join_plan_search.cpp
@@ -209,7 +209,7 @@ private:
         if ( depth >= lenrange.first && lh.isrounds() )
           output_touch( output );
       }
-    else if ( depth < lenrange.second )
+    else if ( depth + lens[meth_n] <= lenrange.second )
       {
         const int num_meths = les.size();
 
-- 
2.43.0


From 744074b7ece73b5f3afd6cc65d94b9f7f3f9e8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:43 +0000
Subject: [PATCH 09/40] fix: proof constructs its list of failures before
 proving anything

---
 ringing/proof.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ringing/proof.h b/ringing/proof.h
index 0ac162d..296b243 100644
--- a/ringing/proof.h
+++ b/ringing/proof.h
@@ -228,8 +228,9 @@ public:
   int operator!() const { return !istrue; }
 
 private:
-  bool istrue;                   // Well, is it true or not?
   failinfo where;                // Details of where it failed.
+                                 // (Before istrue, as proving fills it in.)
+  bool istrue;                   // Well, is it true or not?
 }; 
 
 /******************************************
-- 
2.43.0


From cf64a7256b9b732df923405bdffa3b578a253b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:01 +0000
Subject: [PATCH 10/40] fix: a full proof goes on after the first false row,
 and reports only its own failures

---
 ringing/proof.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ringing/proof.h b/ringing/proof.h
index 296b243..cf7b1fb 100644
--- a/ringing/proof.h
+++ b/ringing/proof.h
@@ -248,11 +248,12 @@ bool proof<RowIterator>::prove(RowIterator true_first,
 			       bool qp)
 {
   scoped_pointer<prover> p( qp ? new prover(max) : new prover(where, max) );
+  where.clear();
   istrue = true;
   for ( ; true_first != true_last && (!qp || istrue) ; ++true_first )
-    istrue = istrue && p->add_row( *true_first );
+    istrue = p->add_row( *true_first );
   for ( ; unknown_first != unknown_last && (!qp || istrue) ; ++unknown_first )
-    istrue = istrue && p->add_row( *unknown_first );
+    istrue = p->add_row( *unknown_first );
   return istrue;
 }
 
-- 
2.43.0


From d4b4107e5e061a06b1c5d3425865adc4b7727fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:01 +0000
Subject: [PATCH 11/40] fix: a prover's branches know it is false, and removing
 a row takes back exactly what adding it did

---
 ringing/proof.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ringing/proof.cpp b/ringing/proof.cpp
index 4405f39..3374d23 100644
--- a/ringing/proof.cpp
+++ b/ringing/proof.cpp
@@ -80,9 +80,8 @@ bool prover::add_row( const row &r )
 
   range const& rng = ranges.back();
 
-  mmap::iterator i( m.insert( rng.first == m.begin() ? m.begin() 
-			                             : prior( rng.first ),
-			      mmap::value_type( r, ++lineno ) ) );
+  // Insert after any identical elements so that they stay in line order.
+  mmap::iterator i( m.insert( rng.second, mmap::value_type( r, ++lineno ) ) );
 
   if ( n > 1 )
     ++dups; 
@@ -163,7 +162,8 @@ void prover::remove_row( const row& r )
 	    if ( j->_row == r )
 	      {
 		j->_lines.pop_back(); 
-                if ( j->_lines.empty() ) fi->erase(j);
+                if ( (int) n == max_occurs + 1 || j->_lines.empty() ) 
+                  fi->erase(j); // The row is no longer false
                 break;
 	      }
         }
@@ -177,6 +177,7 @@ prover::create_branch( shared_pointer<prover> const& chain )
   p->chain      = chain;
   p->max_occurs = chain->max_occurs;
   p->lineno     = chain->lineno;
+  p->falsec     = chain->falsec;
   p->dups       = chain->dups;
   p->fi         = chain->fi;
   // NB do not copy chain->m.
-- 
2.43.0


From 882cab3585fea28eff4b9693ef7361d03e7f30a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:55 +0000
Subject: [PATCH 12/40] fix: the failures a branched prover lists include the
 lines of the provers it branches from

---
 ringing/proof.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/ringing/proof.cpp b/ringing/proof.cpp
index 3374d23..1755a71 100644
--- a/ringing/proof.cpp
+++ b/ringing/proof.cpp
@@ -101,20 +101,19 @@ bool prover::add_row( const row &r )
 
 	  linedetail l;
 
-	  // The C++ standard doesn't make any guarantee about where i
-	  // is in relation to rng.first and rng.second -- it may fall in
-	  // the range [rng.first, rng.second), but equally, it might get 
-	  // inserted immediately before rng.first.  If we don't detect i 
-	  // in this range, we explicitly add it by hand afterwards.
+	  // List every line with this row, those in the provers this one
+	  // is branched from first.  The C++ standard doesn't guarantee
+	  // that i is put before rng.second, so it is added by hand if it 
+	  // is not in the range [rng.first, rng.second).
 	  l._row = r;
 	  bool added_i = false;
-	  {
-	    for ( mmap::iterator j = rng.first; j != rng.second; ++j )
+	  for ( list<range>::const_iterator ri = ranges.begin(), 
+		  re = ranges.end(); ri != re; ++ri ) 
+	    for ( mmap::iterator j = ri->first; j != ri->second; ++j )
 	      {
 		if ( j == i ) added_i = true;
 		l._lines.push_back( j->second );
 	      }
-	  }
 	  if (!added_i) 
 	    l._lines.push_back( i->second );
 
-- 
2.43.0


From 851d4b1956304a6f1e13ad4b306e376becf533f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:45 +0000
Subject: [PATCH 13/40] fix: each call of method::set_untitled takes effect,
 not only the first

---
 ringing/method.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ringing/method.cpp b/ringing/method.cpp
index b3238ef..36bb6df 100644
--- a/ringing/method.cpp
+++ b/ringing/method.cpp
@@ -106,7 +106,8 @@ const char *method::txt_double       = "Double";
 const char *method::txt_little       = "Little";
 
 void method::set_untitled(string const& str) {
-  static string str_untitled = str;
+  static string str_untitled;
+  str_untitled = str;
   txt_untitled = str_untitled.c_str();
 }
 
-- 
2.43.0


From 46ca18265a435072cf053b29df709071306bbf92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:46 +0000
Subject: [PATCH 14/40] fix: methsearch judges regular half-leads with the
 plain bob lead head of the method's own stage

---
 apps/methsearch/search.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 3c55bb6..5794de8 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -719,7 +719,7 @@ inline bool searcher::is_rev_cyclic_hl( const row& hl )
 
 bool searcher::is_regular_hl( const row& hl )
 {
-  static row pblh( row::pblh(bells) );
+  row pblh( row::pblh(bells) );
   row rr( row::reverse_rounds(bells) );
   
   row rhl(rr);
-- 
2.43.0


From 5dd7873cdb62503e83b4c21e6dd258fdc97a8d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:46 +0000
Subject: [PATCH 15/40] fix: methsearch analyses the music of each method on
 its own number of bells

---
 apps/methsearch/music.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/apps/methsearch/music.cpp b/apps/methsearch/music.cpp
index b5d1780..01d07f4 100644
--- a/apps/methsearch/music.cpp
+++ b/apps/methsearch/music.cpp
@@ -31,6 +31,7 @@
 #include <ringing/row.h>
 #include <ringing/method.h>
 #include <ringing/music.h>
+#include <ringing/pointers.h>
 #include <ringing/streamutils.h>
 
 
@@ -64,8 +65,15 @@ public:
   // This is public to get it to compile in MSVC.
  ~analyser() {}
     
+  // There is one for each number of bells: methods read in filter mode 
+  // do not necessarily all have the same number of bells.
   static analyser &instance( int bells ) 
-  { static analyser tmp( bells ); return tmp; }
+  { 
+    static map< int, shared_pointer<analyser> > tmp;
+    shared_pointer<analyser> &p = tmp[bells];
+    if ( !p ) p.reset( new analyser(bells) );
+    return *p;
+  }
 
   friend class patterns;
     
@@ -244,6 +252,8 @@ int musical_analysis::analyse( const method &m )
 
 void musical_analysis::force_init( int bells )
 {
-  // Going into this function initialises the static there.
-  analyser::instance( bells );
+  // Going into this function initialises the static there.  In filter mode
+  // we may not know the number of bells yet.
+  if ( bells )
+    analyser::instance( bells );
 }
-- 
2.43.0


From 485ed74adefed7bb7e64d40ad343f0d96a14e7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:49 +0000
Subject: [PATCH 16/40] fix: gsiril reports a division by zero instead of dying
 of it

---
 apps/gsiril/expression.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apps/gsiril/expression.cpp b/apps/gsiril/expression.cpp
index b6e4236..db2c0e6 100644
--- a/apps/gsiril/expression.cpp
+++ b/apps/gsiril/expression.cpp
@@ -819,6 +819,7 @@ void mod_node::debug_print( ostream &os ) const
 RINGING_LLONG mod_node::int_evaluate( proof_context& ctx ) const
 {
   RINGING_LLONG l = left.int_evaluate(ctx), r = right.int_evaluate(ctx);
+  if (r == 0) throw runtime_error("Division by zero");
   return l % r;
 }
 
@@ -832,6 +833,7 @@ void div_node::debug_print( ostream &os ) const
 RINGING_LLONG div_node::int_evaluate( proof_context& ctx ) const
 {
   RINGING_LLONG l = left.int_evaluate(ctx), r = right.int_evaluate(ctx);
+  if (r == 0) throw runtime_error("Division by zero");
   return l / r;
 }
 
-- 
2.43.0


From e4109bbe10a611a09731ff6864127f4ed8947756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:49 +0000
Subject: [PATCH 17/40] fix: methsearch's % by zero is an expression error, as
 / by zero is

---
 apps/methsearch/expression.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/apps/methsearch/expression.cpp b/apps/methsearch/expression.cpp
index c625686..611e4ba 100644
--- a/apps/methsearch/expression.cpp
+++ b/apps/methsearch/expression.cpp
@@ -522,6 +522,14 @@ struct safe_divides : binary_function<T,T,T> {
   }
 };
 
+template <class T> 
+struct safe_modulus : binary_function<T,T,T> {
+  T operator() (const T& x, const T& y) const {
+    if (y == T()) throw division_by_zero();
+    return x%y;
+  }
+};
+
 RINGING_END_ANON_NAMESPACE
 
 shared_pointer<expression::node> 
@@ -559,7 +567,7 @@ expression::parser::split_expr( vector<token>::const_iterator first,
       CASE( minus,      RINGING_PREFIX_STD minus         );
       CASE( times,      RINGING_PREFIX_STD multiplies    );
       CASE( divide,                        safe_divides  );
-      CASE( modulo,     RINGING_PREFIX_STD modulus       );
+      CASE( modulo,                        safe_modulus  );
       CASE( iless,      RINGING_PREFIX_STD less          );
       CASE( igreater,   RINGING_PREFIX_STD greater       );
       CASE( ilesseq,    RINGING_PREFIX_STD less_equal    );
-- 
2.43.0


From 00d19c68c0c48c424754c292a44bfcd0318f5b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:49 +0000
Subject: [PATCH 18/40] fix: methsearch's $r stops at the end of the method it
 is printing

---
 apps/methsearch/output.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/methsearch/output.cpp b/apps/methsearch/output.cpp
index f118573..3fa5f93 100644
--- a/apps/methsearch/output.cpp
+++ b/apps/methsearch/output.cpp
@@ -203,7 +203,7 @@ string method_properties::impl2::get_property( pair<int,int> const& num_opts,
 	  row r( m.bells() );
 	  int n( num_opts.first );
 	  for ( method::const_iterator 
-		  i( m.begin() ), e( m.begin() + num_opts.first );
+		  i( m.begin() ), e( m.end() );
 		n && i != e; ++i, --n ) 
 	    r *= *i;
 	  if ( n )
-- 
2.43.0


From 34b2faba8ec74c869ea79f7a19ef54534745b979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:49 +0000
Subject: [PATCH 19/40] fix: a dimension with a zero denominator is refused,
 and 0 by 0 is not reduced

---
 ringing/dimension.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ringing/dimension.cpp b/ringing/dimension.cpp
index cc9f2aa..2b3316f 100644
--- a/ringing/dimension.cpp
+++ b/ringing/dimension.cpp
@@ -56,6 +56,7 @@ void dimension::reduce()
 {
   int a = n, b = d, r;
   while(b != 0) { r = a % b; a = b; b = r; }
+  if(a == 0) return;
   n /= a; d /= a;
   if(d < 0) { d = -d; n = -n; }
 }
@@ -118,6 +119,7 @@ void dimension::read(const char *s)
       if(!isdigit(*s)) RINGING_THROW_OR_RETURN_VOID( bad_format() );
       c = *s++ - '0';
       while(isdigit(*s)) c = 10*c + (*s++ - '0');
+      if(c == 0) RINGING_THROW_OR_RETURN_VOID( bad_format() );
       read_units(s);
       n = a * c + b; d = c;
       if(negative) n = -n;
@@ -127,6 +129,7 @@ void dimension::read(const char *s)
       if(!isdigit(*s)) RINGING_THROW_OR_RETURN_VOID( bad_format() );
       c = *s++ - '0';
       while(isdigit(*s)) c = 10*c + (*s++ - '0');
+      if(c == 0) RINGING_THROW_OR_RETURN_VOID( bad_format() );
       read_units(s);
       n = negative ? -a : a; d = c;     
     } else { // Just an integer
-- 
2.43.0


From d781783c72b43326c156169cd3313c98a441b6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:34 +0000
Subject: [PATCH 20/40] fix: an empty bell expression is refused before its
 first character is read

---
 apps/gsiril/expression.cpp | 2 +-
 apps/methsearch/mask.cpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/gsiril/expression.cpp b/apps/gsiril/expression.cpp
index db2c0e6..49b47d0 100644
--- a/apps/gsiril/expression.cpp
+++ b/apps/gsiril/expression.cpp
@@ -231,7 +231,7 @@ static int parse_bell_expr( int bells, string const& expr ) {
   string::const_iterator i(expr.begin()), e(expr.end());
   while (i != e && isspace(*i)) ++i;
 
-  if (*i == 'N') {
+  if (i != e && *i == 'N') {
     ++i; while (i != e && isspace(*i)) ++i;
     if ( i == e ) return bells;
 
diff --git a/apps/methsearch/mask.cpp b/apps/methsearch/mask.cpp
index 907b809..6da68b8 100644
--- a/apps/methsearch/mask.cpp
+++ b/apps/methsearch/mask.cpp
@@ -140,7 +140,7 @@ static int parse_bell_expr( int bells, string const& expr ) {
   string::const_iterator i(expr.begin()), e(expr.end());
   while (i != e && isspace(*i)) ++i;
 
-  if (*i == 'N') {
+  if (i != e && *i == 'N') {
     ++i; while (i != e && isspace(*i)) ++i;
     if ( i == e ) return bells;
 
-- 
2.43.0


From 0ac8b761fc0641b48619cb451efba2f21a788705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:34 +0000
Subject: [PATCH 21/40] fix: change::swappair looks at the next swap only if
 there is one

---
 ringing/change.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/change.cpp b/ringing/change.cpp
index 4f4f170..cc1d3f4 100644
--- a/ringing/change.cpp
+++ b/ringing/change.cpp
@@ -180,7 +180,7 @@ bool change::swappair(bell which)
     if(*s == which - 1) { // The swap before it is there. Replace it
                           // with our new swap.
       *s++ = which;
-      if(*s == which + 1) // The swap after it is there too. Take it out.
+      if(s != swaps.end() && *s == which + 1) // The swap after it is there too. Take it out.
         swaps.erase(s);
       return true;
     }
-- 
2.43.0


From 39014223388e254b7f98eeb341dfe1ada6f86215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:34 +0000
Subject: [PATCH 22/40] fix: methsearch refuses unmatched brackets and cut-off
 escapes in formats instead of reading past them

---
 apps/methsearch/format.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/apps/methsearch/format.cpp b/apps/methsearch/format.cpp
index c7fb967..0b235ca 100644
--- a/apps/methsearch/format.cpp
+++ b/apps/methsearch/format.cpp
@@ -264,6 +264,8 @@ void histogram_entry::print( ostream &os2, RINGING_ULLONG count ) const
             {
               string::const_iterator iter2(++iter);
               while ( iter != end && isdigit(*iter) ) ++iter;
+              if ( iter == end )
+                throw runtime_error( "Format ends within a `$' specifier" );
               
               int num_opt = 0;
               if ( iter2 != iter )
@@ -273,6 +275,8 @@ void histogram_entry::print( ostream &os2, RINGING_ULLONG count ) const
               if ( *iter == ',' ) {
                 ++iter; iter2 = iter;
                 while ( iter != end && isdigit(*iter) ) ++iter;
+                if ( iter == end )
+                  throw runtime_error( "Format ends within a `$' specifier" );
 
                 if ( iter2 != iter )
                   num2_opt = atoi( string( &*iter2, &*iter ).c_str() );
@@ -551,8 +555,13 @@ format_string::format_string( const string &infmt,
         case '$': *outfmts.top() << "$$";  break;
         case 'x': {
           unsigned char value = 0x00;
-          value += parse_xdigit(*++iter) * 0x10;
-          value += parse_xdigit(*++iter);
+          for ( int shift = 4; shift >= 0; shift -= 4 ) {
+            if ( ++iter == end )
+              throw argument_error("Invalid \\xNN character escape sequence");
+            value += parse_xdigit(*iter) << shift;
+          }
+          // As with \$, escape '$' from the next stage
+          if ( value == '$' ) *outfmts.top() << '$';
           *outfmts.top() << char(value);
         } break;
         // For everything else, \x -> literal x
@@ -592,13 +601,13 @@ format_string::format_string( const string &infmt,
       *outfmts.top() << *iter;
     }
     else if ( *iter == ')' && in_expr ) {
-      if ( parens.top() != '(' )
+      if ( parens.empty() || parens.top() != '(' )
         throw argument_error( "Unmatched parenthesis in $[ ] expression" );
       parens.pop();
       *outfmts.top() << *iter;
     }
     else if ( *iter == ']' && in_expr ) {
-      if ( parens.top() != '[' )
+      if ( parens.empty() || parens.top() != '[' )
         throw argument_error( "Unmatched brackets in $[ ] expression" );
 
       string expr( *outfmts.top() );
-- 
2.43.0


From ec1ea725f1af53a09aca3b1b51bc9f5af829df67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:39 +0000
Subject: [PATCH 23/40] fix: read_bell_expr looks for the closing brace at the
 cursor, not at the end of the range

---
 ringing/place_notation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/place_notation.h b/ringing/place_notation.h
index 03d3c38..2fc89b1 100644
--- a/ringing/place_notation.h
+++ b/ringing/place_notation.h
@@ -97,7 +97,7 @@ ForwardIterator read_bell_expr(ForwardIterator first, ForwardIterator last) {
     for ( int depth = 0; first < last && !(*first == '}' && depth == 0);
           ++first ) {
       if (*first == '{') ++depth;
-      else if (*last == '}') --depth;
+      else if (*first == '}') --depth;
     }
     if ( first == last || *first != '}') throw bell::invalid();
     ++first;
-- 
2.43.0


From bad5fb8e3af5bf1c13b60fc48bced4cebf85a0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:11 +0000
Subject: [PATCH 24/40] fix: a landscape PostScript document gives its first
 page an ordinal as well as a label

---
 ringing/print_ps.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/print_ps.cpp b/ringing/print_ps.cpp
index 0e3fa15..cbc0a7f 100644
--- a/ringing/print_ps.cpp
+++ b/ringing/print_ps.cpp
@@ -175,7 +175,7 @@ printpage_ps::printpage_ps(ostream& o, const dimension& page_height)
 {
   pages = 1;
   os << "%!PS-Adobe-3.0\n" << "%%Pages: (atend)\n%%Orientation: Landscape\n"
-     << header_string << def_string << "%%Page: 1\nsave\n";
+     << header_string << def_string << "%%Page: 1 1\nsave\n";
   ph = static_cast<int>(page_height.in_points());
   landscape_mode();
 }
-- 
2.43.0


From 343d23fcb059f9901846b7d41cffb64002a6da74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:11 +0000
Subject: [PATCH 25/40] fix: a PostScript document which uses no fonts ends
 with %%EOF on a line of its own

---
 ringing/print_ps.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ringing/print_ps.cpp b/ringing/print_ps.cpp
index cbc0a7f..876285d 100644
--- a/ringing/print_ps.cpp
+++ b/ringing/print_ps.cpp
@@ -200,9 +200,8 @@ printpage_ps::~printpage_ps()
     os << " font ";
     copy(used_fonts.begin(), used_fonts.end(), 
 	 ostream_iterator<string>(os, " "));
-    os << '\n';
   } 
-  os << "%%EOF\n";
+  os << "\n%%EOF\n";
 }
 
 void printpage_ps::new_page()
-- 
2.43.0


From ff81dd8deac7bba15501424f96b5b80226c08d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:11 +0000
Subject: [PATCH 26/40] fix: printpage_ps::new_page does not restore what an
 EPS file never saved

---
 ringing/print_ps.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ringing/print_ps.cpp b/ringing/print_ps.cpp
index 876285d..513ff83 100644
--- a/ringing/print_ps.cpp
+++ b/ringing/print_ps.cpp
@@ -206,6 +206,7 @@ printpage_ps::~printpage_ps()
 
 void printpage_ps::new_page()
 {
+  if(eps) return;  // An EPS file is a single page
   pages++;
   os << "restore showpage\n\n%%Page: " << pages << ' ' << pages << "\nsave\n";
   if(landscape) landscape_mode();
-- 
2.43.0


From 1423dc78cd59dc9872b1d6c5c63588f7d1f6d844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:12 +0000
Subject: [PATCH 27/40] fix: characters which cannot be printed are escaped in
 PostScript and PDF strings as three octal digits

---
 ringing/print_pdf.cpp | 5 +++--
 ringing/print_ps.cpp  | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/ringing/print_pdf.cpp b/ringing/print_pdf.cpp
index ff14558..1ab493a 100644
--- a/ringing/print_pdf.cpp
+++ b/ringing/print_pdf.cpp
@@ -191,10 +191,11 @@ void pdf_file::output_string(const string& s)
       case ')' : os << "\\)"; break;
       case '\\': os << "\\\\"; break;
       default:
-	if(isprint(*i))
+	if(isprint(static_cast<unsigned char>(*i)))
 	  os << *i;
 	else
-	  os << '\\' << setw(3) << static_cast<int>(*i);
+	  os << '\\' << setfill('0') << setw(3)
+	     << static_cast<int>(static_cast<unsigned char>(*i));
 	break;
     }
   }
diff --git a/ringing/print_ps.cpp b/ringing/print_ps.cpp
index 513ff83..243ff6c 100644
--- a/ringing/print_ps.cpp
+++ b/ringing/print_ps.cpp
@@ -247,10 +247,11 @@ void printpage_ps::write_string(const string& s)
       case ')' : os << "\\)"; break;
       case '\\': os << "\\\\"; break;
       default:
-	if(isprint(*i))
+	if(isprint(static_cast<unsigned char>(*i)))
 	  os << *i;
 	else
-	  os << '\\' << setw(3) << static_cast<int>(*i);
+	  os << '\\' << setfill('0') << setw(3)
+	     << static_cast<int>(static_cast<unsigned char>(*i));
 	break;
     }
   }
-- 
2.43.0


From 29e762ff1f566e2b96f4b4c7306d0601c77474b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:45 +0000
Subject: [PATCH 28/40] fix: rowcalc's <(file) no longer takes the end of a
 file without a final newline for a bell

---
 apps/utils/row_calc.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apps/utils/row_calc.cpp b/apps/utils/row_calc.cpp
index e24ca8a..7e46866 100644
--- a/apps/utils/row_calc.cpp
+++ b/apps/utils/row_calc.cpp
@@ -515,7 +515,8 @@ private:
     if ( !*in || in->peek() == EOF ) throw vector_end();
 
     string r;
-    while ( *in && !strchr( seps, in->peek() ) ) r += (char)in->get(); 
+    while ( *in && in->peek() != EOF && !strchr( seps, in->peek() ) ) 
+      r += (char)in->get(); 
     return row(r);
   }
 
-- 
2.43.0


From d02255a6b4ac050cabedf47124136d7df5af4d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:54 +0000
Subject: [PATCH 29/40] fix: tokeniser keeps its place in the buffer when the
 input ends

---
 apps/utils/tokeniser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/utils/tokeniser.cpp b/apps/utils/tokeniser.cpp
index 9b2f0f4..b5e363b 100644
--- a/apps/utils/tokeniser.cpp
+++ b/apps/utils/tokeniser.cpp
@@ -145,7 +145,7 @@ bool tokeniser::parse( token& tok )
   while ( i == e )
     {
       getline(*in, buffer); ++lineno; buffer += '\n';
-      if (!*in) return false;
+      if (!*in) { i = e = buffer.end(); return false; }
 
       i = buffer.begin();
       e = buffer.end();
-- 
2.43.0


From 5819e506794c4be9319962091dd6cdd4d8a98617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:38 +0000
Subject: [PATCH 30/40] fix: a file which cannot be opened is reported by
 splices, spliceplan and methsearch, not taken for empty

---
 apps/methsearch/format.cpp     | 5 ++++-
 apps/methsearch/libraries.cpp  | 6 ++++++
 apps/spliceplan/spliceplan.cpp | 1 +
 apps/splices/splices.cpp       | 2 ++
 4 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/apps/methsearch/format.cpp b/apps/methsearch/format.cpp
index 0b235ca..ef7789d 100644
--- a/apps/methsearch/format.cpp
+++ b/apps/methsearch/format.cpp
@@ -96,8 +96,11 @@ class fmtout::impl : public libout::interface {
 public:
   impl( string const& fmt, string const& filename ) 
     : fs( fmt, format_string::normal_type ) {
-    if ( filename.size() && filename != "-" ) 
+    if ( filename.size() && filename != "-" ) {
       os.reset( new ofstream( filename.c_str() ) );
+      if ( !*os ) 
+        throw runtime_error( "Unable to open output file: " + filename );
+    }
   }
 
 private:
diff --git a/apps/methsearch/libraries.cpp b/apps/methsearch/libraries.cpp
index e232b5b..a4dd42e 100644
--- a/apps/methsearch/libraries.cpp
+++ b/apps/methsearch/libraries.cpp
@@ -28,8 +28,10 @@
 #include "format.h"
 #include <string>
 #if RINGING_OLD_INCLUDES
+#include <stdexcept.h>
 #include <vector.h>
 #else
+#include <stdexcept>
 #include <vector>
 #endif
 #if RINGING_HAVE_OLD_IOSTREAMS
@@ -132,6 +134,8 @@ library const& overwork_map( int bells, const string& filename ) {
   static methodset out;
   if ( bells ) {
     litelib in( bells, filename );
+    if ( !in.good() )
+      throw runtime_error( "Unable to open file: " + filename );
     out = methodset();
     out.store_facet<litelib::payload>();
     out.append( in.begin(), in.end() );
@@ -143,6 +147,8 @@ library const& underwork_map( int bells, const string& filename ) {
   static methodset out;
   if ( bells ) {
     litelib in( bells, filename );
+    if ( !in.good() )
+      throw runtime_error( "Unable to open file: " + filename );
     out = methodset();
     out.store_facet<litelib::payload>();
     out.append( in.begin(), in.end() );
diff --git a/apps/spliceplan/spliceplan.cpp b/apps/spliceplan/spliceplan.cpp
index 61f57a3..b365df8 100644
--- a/apps/spliceplan/spliceplan.cpp
+++ b/apps/spliceplan/spliceplan.cpp
@@ -617,6 +617,7 @@ void searcher::found( unsigned rotn_count )
     }
 
     ofstream os( filename.c_str() );
+    if (!os) throw runtime_error("Unable to write plan: " + filename);
     comp.write_plan(os);
     os.close();
   }
diff --git a/apps/splices/splices.cpp b/apps/splices/splices.cpp
index d76f6d7..23862b2 100644
--- a/apps/splices/splices.cpp
+++ b/apps/splices/splices.cpp
@@ -654,6 +654,8 @@ try
 
   else if ( !args.rows_file.empty() ) {
     ifstream in(args.rows_file);
+    if (!in) 
+      throw runtime_error( "Unable to open file: '" + args.rows_file + "'" );
     args.rows.assign( istream_iterator<row>(in), istream_iterator<row>() );
   }
 
-- 
2.43.0


From dd0a2226f632a86e3076ac07a2c99905f17d04f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:41 +0000
Subject: [PATCH 31/40] fix: a library, outputter or method printer with
 nothing behind it is asked before it is used

---
 ringing/libout.cpp  |  4 ++--
 ringing/libout.h    |  3 ++-
 ringing/library.cpp | 12 ++++++++++++
 ringing/library.h   | 19 ++++++++++---------
 ringing/printm.cpp  |  7 +++++++
 5 files changed, 33 insertions(+), 12 deletions(-)

diff --git a/ringing/libout.cpp b/ringing/libout.cpp
index ebb7316..9345c3d 100644
--- a/ringing/libout.cpp
+++ b/ringing/libout.cpp
@@ -35,11 +35,11 @@ RINGING_START_NAMESPACE
 RINGING_USING_STD
 
 void libout::flush() { 
-  get_impl<interface>()->flush(); 
+  if (interface* i = get_impl<interface>()) i->flush(); 
 }
 
 void libout::append( library_entry const& entry ) { 
-  get_impl<interface>()->append(entry); 
+  if (interface* i = get_impl<interface>()) i->append(entry); 
 }
 
 libout::iterator libout::begin() { 
diff --git a/ringing/libout.h b/ringing/libout.h
index 262051f..af0926a 100644
--- a/ringing/libout.h
+++ b/ringing/libout.h
@@ -78,7 +78,8 @@ public:
   iterator operator++(int) { return *this; }
   iterator& operator*() { return *this; }
   
-  void operator=( library_entry const& entry ) { pimpl->append(entry); }
+  void operator=( library_entry const& entry ) 
+    { if (pimpl) pimpl->append(entry); }
   
 private:
   friend class libout;
diff --git a/ringing/library.cpp b/ringing/library.cpp
index bba221d..ab40f6c 100644
--- a/ringing/library.cpp
+++ b/ringing/library.cpp
@@ -191,6 +191,18 @@ method library_base::load(const string& name, int stage) const
   return method( 0, 0, "Not Found" );
 }
 
+// A library that could not be opened contains no methods.
+method library::load(const string& name, int stage) const
+{
+  if (lb())
+    return lb()->load(name, stage);
+
+#if RINGING_USE_EXCEPTIONS
+  throw library_base::invalid_name();
+#endif 
+  return method( 0, 0, "Not Found" );
+}
+
 library_entry library_base::find( method const& pn ) const
 {
   for ( const_iterator i(begin()); i != end(); ++i )
diff --git a/ringing/library.h b/ringing/library.h
index 646a9d6..dbb7de1 100644
--- a/ringing/library.h
+++ b/ringing/library.h
@@ -164,23 +164,24 @@ public:
   library(library_base* i) { this->set_impl(i); }
 
   // Reading the library.
-  library_entry find(const method& pn) const { return lb()->find(pn); }
-  library_entry find(const string& title) const { return lb()->find(title); }
+  library_entry find(const method& pn) const 
+    { return lb() ? lb()->find(pn) : library_entry(); }
+  library_entry find(const string& title) const 
+    { return lb() ? lb()->find(title) : library_entry(); }
 
-  method load(const string& name, int stage=0) const
-    { return lb()->load(name, stage); }
+  method load(const string& name, int stage=0) const;
 
 #if RINGING_BACKWARDS_COMPATIBLE(0,4,0)
-  int dir(list<string>& result) const { return lb()->dir(result); }
-  int mdir(list<method>& result ) const { return lb()->mdir(result); }
+  int dir(list<string>& result) const { return lb() ? lb()->dir(result) : 0; }
+  int mdir(list<method>& result ) const { return lb() ? lb()->mdir(result) : 0; }
 #endif
 
 #if RINGING_BACKWARDS_COMPATIBLE(0,3,0)
   // Writing to the library
-  bool save(const method& m) { return lb()->save(m); }
+  bool save(const method& m) { return lb() && lb()->save(m); }
   bool rename_method(const string& name1, const string& name2) 
-    { return lb()->rename_method(name1, name2); }
-  bool remove(const string name) { return lb()->remove(name); }
+    { return lb() && lb()->rename_method(name1, name2); }
+  bool remove(const string name) { return lb() && lb()->remove(name); }
 #endif
 
   // Library status
diff --git a/ringing/printm.cpp b/ringing/printm.cpp
index aae9104..874514b 100644
--- a/ringing/printm.cpp
+++ b/ringing/printm.cpp
@@ -202,6 +202,7 @@ void printmethod::print(printpage& pp)
 int printmethod::find_pnextra()
 {
   int result = 0;
+  if(!m) return result;
   method::const_iterator i; int k;
   for(i = m->begin(); i != m->end(); i++) {
     k = (*i).count_places();
@@ -215,6 +216,8 @@ void printmethod::scale_to_space(const dimension& width,
                                  float aspect,
                                  int pnextra)
 {
+  if(!m) return;
+
   float new_xspace, vlimit;
 
   if((pn_mode & pn_mask) != pn_none && pnextra == -1) 
@@ -277,6 +280,8 @@ void printmethod::fit_to_space(const dimension& width,
 }
 
 float printmethod::total_width() {
+  if(!m) return 0;
+
   int columns = divu(total_rows, rows_per_column);
   if(columns_per_set < columns) columns = columns_per_set;
   return (opt.xspace.in_points() * (m->bells() * columns + 
@@ -299,6 +304,8 @@ float printmethod::total_height() {
 
 void printmethod::get_bbox(float& blx, float& bly, float& urx, float& ury)
 {
+  if(!m) { blx = bly = urx = ury = 0; return; }
+
   int columns = divu(total_rows, rows_per_column);
   if(columns_per_set < columns) columns = columns_per_set;
   blx = -opt.xspace.in_points() 
-- 
2.43.0


From 7de6213ea7a4f0f6d6f47d985025ecf312d1b8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:08 +0000
Subject: [PATCH 32/40] fix: a row, pattern or music score that is refused
 leaves the object as it was

---
 ringing/music.cpp        |  4 +++-
 ringing/row.cpp          | 14 ++++++++++++++
 ringing/row.h            |  2 +-
 ringing/row_wildcard.cpp | 19 ++++++++++++-------
 4 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/ringing/music.cpp b/ringing/music.cpp
index 49039b2..34cd456 100644
--- a/ringing/music.cpp
+++ b/ringing/music.cpp
@@ -126,12 +126,14 @@ bool music_details::set(const string &e, int s)
 
 bool music_details::set(const string &e, int sh, int sb)
 {
+  bool isvalid = pat.set(e);
+
   scoreh = sh;  scoreb = sb;
 
   // Should reset this here as we have changed the expression
   counth = countb = 0;
 
-  return pat.set(e);
+  return isvalid;
 }
 
 string const& music_details::get() const
diff --git a/ringing/row.cpp b/ringing/row.cpp
index 61440fb..5c0050d 100644
--- a/ringing/row.cpp
+++ b/ringing/row.cpp
@@ -119,6 +119,20 @@ row::invalid::invalid()
 row::invalid::invalid(const string& s)
   : invalid_argument("The row '" + s + "' was invalid") {} 
 
+void row::swap(vector<bell>& other)
+{
+  data.swap(other);
+#if RINGING_USE_EXCEPTIONS
+  try { 
+    validate(); 
+  } 
+  catch (...) {
+    data.swap(other);
+    throw;
+  }
+#endif
+}
+
 // Assign a string value to a row
 row& row::operator=(const char *s)
 {
diff --git a/ringing/row.h b/ringing/row.h
index ebc7823..3450ed5 100644
--- a/ringing/row.h
+++ b/ringing/row.h
@@ -131,7 +131,7 @@ public:
   friend RINGING_API ostream& operator<<(ostream&, const row&);
   friend RINGING_API istream& operator>>(istream&, row&);
   void swap(row &other) { data.swap(other.data); }
-  void swap(vector<bell>& other) { data.swap(other); validate(); }
+  void swap(vector<bell>& other); // Throws, leaving both alone, if not a row
   size_t hash() const;
 
   int find(bell const& b) const;// Finds the bell
diff --git a/ringing/row_wildcard.cpp b/ringing/row_wildcard.cpp
index 2594ff2..b8a77e2 100644
--- a/ringing/row_wildcard.cpp
+++ b/ringing/row_wildcard.cpp
@@ -35,16 +35,22 @@ RINGING_START_NAMESPACE
 RINGING_USING_STD
 
 row_wildcard::row_wildcard( string const& pattern, unsigned bells )
+  : b(0)
 {
   this->set(pattern, bells);
 }
 
 bool row_wildcard::set( string const& pattern, unsigned bells )
 {
-  pat = pattern;  
-  b = bells; // Set this now in case of an exception from check_expression
+  // Check a copy so that this is unchanged if the pattern is invalid
+  row_wildcard tmp( *this );
+  tmp.pat = pattern;  
+  tmp.b = bells;
 
-  bool isvalid = ( check_expression() && set_bells(bells) );
+  bool isvalid = ( tmp.check_expression() && tmp.set_bells(bells) );
+
+  pat.swap( tmp.pat );
+  b = bells;
 #if !RINGING_USE_EXCEPTIONS
   // Can't do match if we don't use exceptions, so
   // just set the expression to "", hopefully the user will catch this.
@@ -55,14 +61,13 @@ bool row_wildcard::set( string const& pattern, unsigned bells )
 
 bool row_wildcard::set_bells( unsigned bells )
 {
-  b = bells;
-
-  if (b) 
+  if (bells) 
     for (string::const_iterator i = pat.begin(); i != pat.end(); i++)
-      if (bell::is_symbol(*i) && bell::read_char(*i) >= b )
+      if (bell::is_symbol(*i) && bell::read_char(*i) >= bells )
         RINGING_THROW_OR_RETURN( 
           invalid_pattern(pat, string("Bell out of range: ") + *i ), false );
 
+  b = bells;
   return true;
 }
 
-- 
2.43.0


From dd071044a79487a344d662e62c407a9d340836d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:08 +0000
Subject: [PATCH 33/40] fix: gsiril's number of bells and row mask are changed
 only once they suit each other, and restoring them after an import cannot
 terminate it

---
 apps/gsiril/execution_context.cpp | 23 +++++++++++++++--------
 apps/gsiril/execution_context.h   |  3 ++-
 apps/gsiril/statement.cpp         | 17 +++++++++++++++--
 3 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/apps/gsiril/execution_context.cpp b/apps/gsiril/execution_context.cpp
index c10ec4d..e9b05d9 100644
--- a/apps/gsiril/execution_context.cpp
+++ b/apps/gsiril/execution_context.cpp
@@ -34,6 +34,9 @@ RINGING_USING_NAMESPACE
 
 int execution_context::bells( int b ) 
 {
+  // Do this first, as it throws if the row mask is for more bells.
+  string const line( make_line( b, rmask ) );
+
   if ( b > args.rounds.bells() )
     args.rounds *= row(b);
   else if ( b < args.rounds.bells() )
@@ -44,26 +47,30 @@ int execution_context::bells( int b )
     }
 
   swap( b, args.bells.get() );
-  define_line();
+  define_line(line);
   return b;
 }
 
 void execution_context::row_mask(music_details const& m) { 
+  string const line( make_line( bells(), m ) );
   rmask = m; 
-  define_line();
+  define_line(line);
 }
   
-void execution_context::define_line() {
-  size_t len = args.bells.get();
-  music row_mask( bells(), rmask );
-  if ( row_mask.process_row( row( bells() ) ) )
+string execution_context::make_line( int b, music_details const& m ) const {
+  size_t len = b;
+  music row_mask( b, m );
+  if ( row_mask.process_row( row(b) ) )
     len = row_mask.begin()->last_wildcard_matches().size();
+  return string( len, '-' );
+}
 
+void execution_context::define_line( string const& line ) {
   // Define __line__ to be a line of hyphens, one per displayed bell.
   // The expectation is that users will do something like: line = __line__
   sym_table.define
     ( pair<const string, expression>( "__line__", 
-        expression( new string_node( string(len, '-') ) ) ) );
+        expression( new string_node(line) ) ) );
 }
   
 pair<size_t,size_t> 
@@ -95,7 +102,7 @@ execution_context::execution_context( ostream& os, const arguments& a )
   if ( args.bells ) {
     if ( !args.rounds.bells() )
       args.rounds = row(args.bells);
-    define_line();
+    define_line( make_line( args.bells, rmask ) );
   }
   expected_length(args.expected_length);
 }
diff --git a/apps/gsiril/execution_context.h b/apps/gsiril/execution_context.h
index b59db98..c32be78 100644
--- a/apps/gsiril/execution_context.h
+++ b/apps/gsiril/execution_context.h
@@ -108,7 +108,8 @@ public:
   string evaluate_string_var( string const& ) const;
 
 private:
-  void define_line();
+  string make_line( int b, music_details const& m ) const;
+  void define_line( string const& line );
 
   arguments args;
   music_details rmask;
diff --git a/apps/gsiril/statement.cpp b/apps/gsiril/statement.cpp
index 32b8b5e..1a2ab3c 100644
--- a/apps/gsiril/statement.cpp
+++ b/apps/gsiril/statement.cpp
@@ -208,19 +208,32 @@ void import_stmt::execute( execution_context& e )
     execution_context& e;
     bool i, v;
     int b;
+    music_details mask;
     expression first;
 
   public:
     restore_values( execution_context& e )
       : e(e), i( e.interactive() ), v( e.verbose() ), b( e.bells() ),
-        first(NULL)
+        mask( e.row_mask() ), first(NULL)
     {
       if (e.defined("__first__"))
        first = e.lookup_symbol("__first__");
     }
 
    ~restore_values() {
-      if (b > 0) e.bells(b);
+      try {
+        if (b > 0) e.bells(b);
+      }
+      catch ( const exception& ) {
+        // The module has set a row mask which is for more bells than this
+        try { 
+          e.row_mask(mask); 
+          e.bells(b);
+        }
+        catch ( const exception& ex ) {
+          cerr << "Error: " << ex.what() << endl;
+        }
+      }
       e.interactive(i);
       e.verbose(v);
 
-- 
2.43.0


From ea4afe648541521fc35a16428d5d0cafff633b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:28 +0000
Subject: [PATCH 34/40] fix: let the Siril function crus count crus, not runs

---
 apps/gsiril/functions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/gsiril/functions.cpp b/apps/gsiril/functions.cpp
index 90ef5fe..fcc37b2 100644
--- a/apps/gsiril/functions.cpp
+++ b/apps/gsiril/functions.cpp
@@ -254,7 +254,7 @@ void register_functions( execution_context& ectx )
   ectx.define_symbol( pair< const string, expression >
     ( "backruns", expression( new runs_impl( music::at_back ) ) ) );
   ectx.define_symbol( pair< const string, expression >
-    ( "crus", expression( new runs_impl ) ) );
+    ( "crus", expression( new crus_impl ) ) );
   ectx.define_symbol( pair< const string, expression >
     ( "methname", expression( new methname_impl ) ) );
   ectx.define_symbol( pair< const string, expression >
-- 
2.43.0


From 4ad4299dfa198e9d33a3a9726676592d18691b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:28 +0000
Subject: [PATCH 35/40] fix: let the Siril function at call itself at in
 messages

---
 apps/gsiril/functions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/gsiril/functions.cpp b/apps/gsiril/functions.cpp
index fcc37b2..e0a5446 100644
--- a/apps/gsiril/functions.cpp
+++ b/apps/gsiril/functions.cpp
@@ -53,7 +53,7 @@ class at_fn_impl : public fnnode {
     return expression( new integer_node(rv) );
   }
 
-  virtual void debug_print( ostream &os ) const { os << "pos"; }
+  virtual void debug_print( ostream &os ) const { os << "at"; }
   virtual expression::type_t type( proof_context &ctx ) const 
     { return expression::integer; }
 };
-- 
2.43.0


From 5e523f559df72e6b8e147ed18ef65e1c37896318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:48 +0000
Subject: [PATCH 36/40] fix: printpage_ps leaves the fill character and base of
 its caller's stream as they were

---
 ringing/print_ps.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ringing/print_ps.cpp b/ringing/print_ps.cpp
index 243ff6c..5d5ee33 100644
--- a/ringing/print_ps.cpp
+++ b/ringing/print_ps.cpp
@@ -235,6 +235,8 @@ void printpage_ps::set_colour(const colour& c)
 void printpage_ps::write_string(const string& s)
 {
   string::const_iterator i;
+  const ios::fmtflags oldflags = os.flags();
+  const char oldfill = os.fill();
   os << '(' << oct;
   for(i = s.begin(); i != s.end(); ++i) {
     switch(*i) {
@@ -255,7 +257,9 @@ void printpage_ps::write_string(const string& s)
 	break;
     }
   }
-  os << dec << ')';
+  os.fill(oldfill);
+  os.flags(oldflags);
+  os << ')';
 }
 
 void printpage_ps::text(const string t, const dimension& x, 
-- 
2.43.0


From e13405187cf84f796f6d679aa403e87f17af2321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:48 +0000
Subject: [PATCH 37/40] fix: gsiril's silence is put back when everyrow throws
 an exception

---
 apps/gsiril/proof_context.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/apps/gsiril/proof_context.cpp b/apps/gsiril/proof_context.cpp
index f910877..7772940 100644
--- a/apps/gsiril/proof_context.cpp
+++ b/apps/gsiril/proof_context.cpp
@@ -106,14 +106,28 @@ void proof_context::output_string( const string& str, bool to_parent ) const
   else do_output(str);
 }
 
+namespace
+{
+  // Puts the flag back even if executing the symbol throws
+  class restore_silent
+  {
+  public:
+    explicit restore_silent( bool &silent ) : silent(silent), old(silent) {}
+   ~restore_silent() { silent = old; }
+
+  private:
+    bool &silent;
+    bool const old;
+  };
+}
+
 void proof_context::execute_everyrow()
 {
   // Temporarily disable silent flag if running with -E
-  bool s = silent;
+  restore_silent rs(silent);
   if ( ectx.get_args().everyrow_only && !ectx.get_args().filter ) 
     silent = false;
   execute_symbol("everyrow");
-  silent = s;
 }
 
 bool proof_context::permute_and_prove_t::operator()( const change &c )
-- 
2.43.0


From 19b557005c4ccebcec411dfae500e71f0688f80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:47 +0000
Subject: [PATCH 38/40] fix: neither a NUL character nor the number 0 is a bell

---
 ringing/bell.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ringing/bell.cpp b/ringing/bell.cpp
index 1df6691..f4875b8 100644
--- a/ringing/bell.cpp
+++ b/ringing/bell.cpp
@@ -96,7 +96,8 @@ bell::invalid::invalid()
 bool bell::is_symbol(char c)
 {
   if ( bells_case_mapper ) c = bells_case_mapper(c);
-  if ( strchr(symbols, c) ) return true;
+  // strchr would find the string's terminating null
+  if ( c && strchr(symbols, c) ) return true;
 
   // I/1 and O/0 ambiguities:
   switch (c) {
@@ -113,7 +114,8 @@ bell bell::read_char(char c)
 {
   if ( bells_case_mapper ) c = bells_case_mapper(c);
   bell b;
-  if ( char const* cp = strchr(symbols, c) )
+  char const* cp;
+  if ( c && ( cp = strchr(symbols, c) ) )
     b.x = cp - symbols;
   else {
     // I/1 and O/0 ambiguities:
@@ -144,7 +146,7 @@ bell bell::read_extended(char const* str, char const** endp)
   } else {
     unsigned long val = strtoul(++str, const_cast<char**&>(endp), 10);
     while (isspace(**endp)) ++*endp;
-    if ( *str == '-' || **endp != '}' ||
+    if ( *str == '-' || **endp != '}' || val == 0 ||
          RINGING_BELL_BITS < sizeof(unsigned long) * CHAR_BIT
          && val > (1ul<<RINGING_BELL_BITS) )
 #if RINGING_USE_EXCEPTIONS
@@ -178,7 +180,7 @@ RINGING_API istream& operator>>(istream& i, bell& b)
       else {
         i.get(); // drop the '{'
         unsigned long val;  i >> noskipws >> val;
-        if ( i.get() != '}' ||
+        if ( i.get() != '}' || val == 0 ||
              RINGING_BELL_BITS < sizeof(unsigned long) * CHAR_BIT
              && val > (1ul<<RINGING_BELL_BITS) )
 #if RINGING_USE_EXCEPTIONS
-- 
2.43.0


From 6517c5c4d33d0f7b26a73d66f694cfa19079aeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:32 +0000
Subject: [PATCH 39/40] fix: a row at the very end of a stream is read without
 setting failbit

---
 ringing/row.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ringing/row.cpp b/ringing/row.cpp
index 5c0050d..8ae0269 100644
--- a/ringing/row.cpp
+++ b/ringing/row.cpp
@@ -574,7 +574,8 @@ RINGING_API istream& operator>>(istream& i, row& r)
     vector<bell> bells;  
     bells.reserve(r.bells()); // The only hint we might have available
 
-    while ( i && ( bell::is_symbol( i.peek() ) || i.peek() == '{' ) ) {
+    // Peeking again at the end of the stream would set failbit
+    for ( int c; i && ( ( c = i.peek() ) == '{' || bell::is_symbol( c ) ); ) {
       bell b;  
       i >> noskipws >> b;
       bells.push_back(b);
-- 
2.43.0


From 9ffb301adaa2a877d03ff2a031ebb26726217108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:35:54 +0000
Subject: [PATCH 40/40] fix: give ringmethod an end time when its input has no
 rows

---
 apps/ringmethod/ringmethod.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/ringmethod/ringmethod.cpp b/apps/ringmethod/ringmethod.cpp
index d13fac2..346d51d 100644
--- a/apps/ringmethod/ringmethod.cpp
+++ b/apps/ringmethod/ringmethod.cpp
@@ -305,7 +305,7 @@ void row_player::do_ring( shared_pointer<row_reader_base> const& rr,
   //bool have_queued_bell = false;
   //bell queued_bell;
   //int queued_timestep;
-  int eof_timestep;
+  int eof_timestep = 0;
 
   size_t t = 0;
 
-- 
2.43.0

