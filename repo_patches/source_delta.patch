From fd57d6339e33edf168ad4c35839b31f87bca56c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:54 +0000
Subject: [PATCH 01/75] fix: change::swappair reads past the last swap

After replacing the swap before the requested one, the iterator may be
past the end of the vector; it was dereferenced unconditionally.
---
 ringing/change.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/change.cpp b/ringing/change.cpp
index 4f4f170..cc1d3f4 100644
--- a/ringing/change.cpp
+++ b/ringing/change.cpp
@@ -180,7 +180,7 @@ bool change::swappair(bell which)
     if(*s == which - 1) { // The swap before it is there. Replace it
                           // with our new swap.
       *s++ = which;
-      if(*s == which + 1) // The swap after it is there too. Take it out.
+      if(s != swaps.end() && *s == which + 1) // The swap after it is there too. Take it out.
         swaps.erase(s);
       return true;
     }
-- 
2.43.0


From 5aee76ff0f8679e5782ff271e2fb67d7858f752b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:39 +0000
Subject: [PATCH 02/75] fix: row::swap(vector) leaves an invalid row behind
 when it throws

The contents were exchanged before being validated, so after row::invalid
was thrown the row held something that is not a permutation.
---
 ringing/row.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/row.h b/ringing/row.h
index ebc7823..57c2404 100644
--- a/ringing/row.h
+++ b/ringing/row.h
@@ -131,7 +131,7 @@ public:
   friend RINGING_API ostream& operator<<(ostream&, const row&);
   friend RINGING_API istream& operator>>(istream&, row&);
   void swap(row &other) { data.swap(other.data); }
-  void swap(vector<bell>& other) { data.swap(other); validate(); }
+  void swap(vector<bell>& other) { row tmp(other); data.swap(other); }
   size_t hash() const;
 
   int find(bell const& b) const;// Finds the bell
-- 
2.43.0


From 7d55f6339f8c5c1d2bc809de15fe2afb83f7c66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:55 +0000
Subject: [PATCH 03/75] fix: row::power overflows on the most negative exponent

Negating INT_MIN is undefined; take one factor out first.
---
 ringing/row.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ringing/row.cpp b/ringing/row.cpp
index 61440fb..4095835 100644
--- a/ringing/row.cpp
+++ b/ringing/row.cpp
@@ -522,7 +522,10 @@ row row::power( int n ) const
   if (n == 0)
     return row(b);
   else if (n < 0)
-    return inverse().power( -n );
+  {
+    row const inv( inverse() );
+    return inv * inv.power( -(n+1) );  // Note: -n overflows for INT_MIN
+  }
   else if (n > b*b) 
     // Only do this optimisation if n is large as order() is expensive
     return power( n % order() );
-- 
2.43.0


From d03f224ac24285ae8e230f74329dbd99d68e87b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:55 +0000
Subject: [PATCH 04/75] fix: bell accepts the NUL character as a bell symbol

strchr finds the terminating NUL, so '\0' was read as bell MAX_BELLS + 1.
---
 ringing/bell.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ringing/bell.cpp b/ringing/bell.cpp
index 1df6691..04331a2 100644
--- a/ringing/bell.cpp
+++ b/ringing/bell.cpp
@@ -96,7 +96,7 @@ bell::invalid::invalid()
 bool bell::is_symbol(char c)
 {
   if ( bells_case_mapper ) c = bells_case_mapper(c);
-  if ( strchr(symbols, c) ) return true;
+  if ( c && strchr(symbols, c) ) return true;
 
   // I/1 and O/0 ambiguities:
   switch (c) {
@@ -113,7 +113,8 @@ bell bell::read_char(char c)
 {
   if ( bells_case_mapper ) c = bells_case_mapper(c);
   bell b;
-  if ( char const* cp = strchr(symbols, c) )
+  char const* cp = c ? strchr(symbols, c) : NULL;
+  if ( cp )
     b.x = cp - symbols;
   else {
     // I/1 and O/0 ambiguities:
-- 
2.43.0


From 7a8b2db5dd7ffd447e9025137fc758df8ce710e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:55 +0000
Subject: [PATCH 05/75] fix: {0} and {} are accepted as bell numbers

Bells are numbered from one; subtracting one wrapped round to the largest
representable bell.
---
 ringing/bell.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ringing/bell.cpp b/ringing/bell.cpp
index 04331a2..2eb7829 100644
--- a/ringing/bell.cpp
+++ b/ringing/bell.cpp
@@ -145,7 +145,7 @@ bell bell::read_extended(char const* str, char const** endp)
   } else {
     unsigned long val = strtoul(++str, const_cast<char**&>(endp), 10);
     while (isspace(**endp)) ++*endp;
-    if ( *str == '-' || **endp != '}' ||
+    if ( *str == '-' || **endp != '}' || val == 0 ||
          RINGING_BELL_BITS < sizeof(unsigned long) * CHAR_BIT
          && val > (1ul<<RINGING_BELL_BITS) )
 #if RINGING_USE_EXCEPTIONS
@@ -179,7 +179,7 @@ RINGING_API istream& operator>>(istream& i, bell& b)
       else {
         i.get(); // drop the '{'
         unsigned long val;  i >> noskipws >> val;
-        if ( i.get() != '}' ||
+        if ( i.get() != '}' || val == 0 ||
              RINGING_BELL_BITS < sizeof(unsigned long) * CHAR_BIT
              && val > (1ul<<RINGING_BELL_BITS) )
 #if RINGING_USE_EXCEPTIONS
-- 
2.43.0


From d5d0db54fd8269ae77b473cedfcf63924b119f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:55 +0000
Subject: [PATCH 06/75] fix: hcf and lcm divide by zero, and lcm overflows
 needlessly

The hcf of n and 0 is n.  Divide before multiplying in lcm, so that it is
right whenever the answer is representable.
---
 ringing/mathutils.cpp | 7 +++----
 ringing/mathutils.h   | 3 ++-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/ringing/mathutils.cpp b/ringing/mathutils.cpp
index f06602a..891b0dd 100644
--- a/ringing/mathutils.cpp
+++ b/ringing/mathutils.cpp
@@ -55,12 +55,11 @@ int hcf(int a, int b)
   // Make sure we have a >= b
   if(a < b) RINGING_PREFIX_STD swap(a, b);
 
-  int r;
-  do {
-    r = a % b;
+  while(b > 0) {
+    int r = a % b;
     a = b;
     b = r;
-  } while(r > 0);
+  }
 
   // a is now the last non-zero remainder we had.
   return a;
diff --git a/ringing/mathutils.h b/ringing/mathutils.h
index d240f44..48b4c6d 100644
--- a/ringing/mathutils.h
+++ b/ringing/mathutils.h
@@ -53,7 +53,8 @@ inline RINGING_API int lcm(int a, int b)
   // Check for a couple of quick cases
   if(a == 1) return b;
   if(b == 1) return a;
-  return a * b / hcf(a,b);
+  if(a == 0 || b == 0) return 0;
+  return a / hcf(a,b) * b;
 }
 
 RINGING_API unsigned factorial(unsigned n);
-- 
2.43.0


From 390596ac3f16caf4b6a340b69ad59e58d87fb653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:55 +0000
Subject: [PATCH 07/75] fix: landau(0) converts a NaN to an integer

---
 ringing/mathutils.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ringing/mathutils.cpp b/ringing/mathutils.cpp
index 891b0dd..3099661 100644
--- a/ringing/mathutils.cpp
+++ b/ringing/mathutils.cpp
@@ -197,6 +197,7 @@ unsigned next_prime(unsigned n)
 // larger values of n, but that seems needless complex for our purposes.
 unsigned landau(unsigned const n)
 {
+  if (n == 0) return 1; // log(0) is not finite
   vector<unsigned> g(n+1, 1);
   // Strictly speaking, this bound is only valid for n>=5.  Adding 1 
   // empirically fixes it for n<5.
-- 
2.43.0


From 7b7567e02104b717007afb2775ee3d395b2a306f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:55 +0000
Subject: [PATCH 08/75] fix: row_block writes its first row when it has no rows

With one change and both flags given, the block is empty.
---
 ringing/row.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/row.cpp b/ringing/row.cpp
index 4095835..6bb9911 100644
--- a/ringing/row.cpp
+++ b/ringing/row.cpp
@@ -603,7 +603,7 @@ static size_t row_block_base_size(vector<change> const& c, int flags)
 row_block::row_block(const vector<change> &c, int flags) 
   : vector<row>( row_block_base_size(c, flags) ), ch(c), flags(flags)
 {
-  if (ch.size()) {
+  if (ch.size() && size()) {
     (*this)[0] = row::rounds(ch[0].bells());
     recalculate();
   }
-- 
2.43.0


From f0779df8f7f5c1e249a57c9febd83db661fb6540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:55 +0000
Subject: [PATCH 09/75] fix: reading a row that ends the stream sets failbit

The second peek at the end of the stream fails.
---
 ringing/row.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ringing/row.cpp b/ringing/row.cpp
index 6bb9911..bf26a75 100644
--- a/ringing/row.cpp
+++ b/ringing/row.cpp
@@ -563,7 +563,9 @@ RINGING_API istream& operator>>(istream& i, row& r)
     vector<bell> bells;  
     bells.reserve(r.bells()); // The only hint we might have available
 
-    while ( i && ( bell::is_symbol( i.peek() ) || i.peek() == '{' ) ) {
+    int c;
+    // Only peek once: peeking again at the end of the stream sets failbit
+    while ( i && ( bell::is_symbol( c = i.peek() ) || c == '{' ) ) {
       bell b;  
       i >> noskipws >> b;
       bells.push_back(b);
-- 
2.43.0


From d55213bdadfb0941600780411b23611196f51ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:55 +0000
Subject: [PATCH 10/75] fix: conjugator throws for rows on more than
 bell::MAX_BELLS bells

It went through the printed cycles, in which such bells have no symbol.
---
 ringing/row.cpp | 42 +++++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/ringing/row.cpp b/ringing/row.cpp
index bf26a75..10e66cf 100644
--- a/ringing/row.cpp
+++ b/ringing/row.cpp
@@ -631,45 +631,53 @@ row_block& row_block::recalculate(int start)
 
 RINGING_START_ANON_NAMESPACE
 
+typedef vector<bell> cycle;
+
 struct cycle_cmp {
-  bool operator()( string const& x, string const& y ) const { 
+  bool operator()( cycle const& x, cycle const& y ) const { 
     return x.size() < y.size();
   }
 };
 
 struct cycle_eq {
-  bool operator()( string const& x, string const& y ) const { 
+  bool operator()( cycle const& x, cycle const& y ) const { 
     return x.size() == y.size();
   }
 };
 
-vector<string> conjugacy_class_vector( row const& r )
+// Don't use row::cycles() here as not all bells have a symbol.
+vector<cycle> conjugacy_class_vector( row const& r )
 {
-  string c = r.cycles();
-  vector<string> v;  v.reserve( c.size() - r.bells() + 1 );
+  vector<cycle> v;
+  vector<bool> done( r.bells(), false );
 
-  size_t i = 0;
-  for ( size_t j; (j = c.find(',', i)) != string::npos; i=j+1)
-    v.push_back( c.substr(i, j-i ) );
-  v.push_back( c.substr(i, c.size()-i) );
+  for ( int i=0; i<r.bells(); ++i ) 
+    if ( !done[i] ) {
+      cycle c;
+      for ( int j=i; !done[j]; j=r[j] ) {
+        c.push_back(j);
+        done[j] = true;
+      }
+      v.push_back(c);
+    }
 
   sort( v.begin(), v.end(), cycle_cmp() );
   return v;
 }
 
-bool are_conjugate_impl( vector<string> const& xc, vector<string> const& yc )
+bool are_conjugate_impl( vector<cycle> const& xc, vector<cycle> const& yc )
 {
   return xc.size() == yc.size() && 
     equal( xc.begin(), xc.end(), yc.begin(), cycle_eq() );
 }
 
-row cycles_as_row( vector<string> const& rc )
+row cycles_as_row( vector<cycle> const& rc )
 {
-  string s;
-  for ( vector<string>::const_iterator i=rc.begin(), e=rc.end(); i!=e; ++i )
-    s += *i;
+  vector<bell> v;
+  for ( vector<cycle>::const_iterator i=rc.begin(), e=rc.end(); i!=e; ++i )
+    v.insert( v.end(), i->begin(), i->end() );
 
-  return row(s);
+  return row(v);
 }
 
 RINGING_END_ANON_NAMESPACE
@@ -690,8 +698,8 @@ bool are_conjugate( row const& x, row const& y )
 //
 row conjugator( row const& x, row const& y )
 {
-  const vector<string> xc( conjugacy_class_vector(x) ),
-                       yc( conjugacy_class_vector(y) );
+  const vector<cycle> xc( conjugacy_class_vector(x) ),
+                      yc( conjugacy_class_vector(y) );
 
   if ( are_conjugate_impl(xc, yc) )
     return cycles_as_row(xc) * cycles_as_row(yc).inverse();
-- 
2.43.0


From 2a22b65bcceccc01a1646101f16fe4d33111c532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:43 +0000
Subject: [PATCH 11/75] fix: row::power does not terminate when the order of
 the row exceeds the exponent

---
 ringing/row.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ringing/row.cpp b/ringing/row.cpp
index 10e66cf..f2230d9 100644
--- a/ringing/row.cpp
+++ b/ringing/row.cpp
@@ -526,10 +526,14 @@ row row::power( int n ) const
     row const inv( inverse() );
     return inv * inv.power( -(n+1) );  // Note: -n overflows for INT_MIN
   }
-  else if (n > b*b) 
-    // Only do this optimisation if n is large as order() is expensive
-    return power( n % order() );
-  else if (n % 2)
+
+  // Only do this optimisation if n is large as order() is expensive
+  if (n > b*b) {
+    int const o = order();
+    if (n >= o) return power( n % o );
+  }
+
+  if (n % 2)
     return *this * power( n-1 );
   else {
     row temp = power( n/2 );
-- 
2.43.0


From c4d021b8f29beba3da095fbb8e1719d5e6cb42b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:01 +0000
Subject: [PATCH 12/75] fix: read_bell_expr reads past the end of the place
 notation

---
 ringing/place_notation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/place_notation.h b/ringing/place_notation.h
index 03d3c38..2fc89b1 100644
--- a/ringing/place_notation.h
+++ b/ringing/place_notation.h
@@ -97,7 +97,7 @@ ForwardIterator read_bell_expr(ForwardIterator first, ForwardIterator last) {
     for ( int depth = 0; first < last && !(*first == '}' && depth == 0);
           ++first ) {
       if (*first == '{') ++depth;
-      else if (*last == '}') --depth;
+      else if (*first == '}') --depth;
     }
     if ( first == last || *first != '}') throw bell::invalid();
     ++first;
-- 
2.43.0


From 2bc3a7743ad2360eaed04cc10f31935d25c8c1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:01 +0000
Subject: [PATCH 13/75] fix: the symmetry of a bell's path is tested outside
 the method, and aborts on an odd number of changes

---
 ringing/method.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ringing/method.cpp b/ringing/method.cpp
index b3238ef..e99bf73 100644
--- a/ringing/method.cpp
+++ b/ringing/method.cpp
@@ -212,6 +212,7 @@ int method::huntbells(void) const
 bool method::is_palindromic_about(bell b, int i) const
 {
   const int n( size() );
+  if (n == 0) return true;
 
   // Trace path of bell, b, to the prospective symmetry point, i
   for ( int j=0; j < (i+1) % n; ++j )
@@ -231,8 +232,9 @@ bool method::is_palindromic_about(bell b, int i) const
     b = b1;
   }
 
-  // We're now at the other symmetry point.  Is there a place there too?
-  if(b * (*this)[i+(n%2==0 ? n/2 : n/2+1)] != b) 
+  // We're now at the other symmetry point.  If it's a change (rather than
+  // a row), is there a place there too?
+  if(n%2 == 0 && b * (*this)[(i+n/2) % n] != b) 
     return false;
 
   return true;
@@ -553,7 +555,7 @@ int method::symmetry_point() const
 int method::symmetry_point(bell b) const
 {
   const int n( size() );
-  assert( n%2 == 0 );
+  if ( n%2 ) return -1;
   for ( int i=0; i < (n%2==0 ? n/2 : n); ++i )
     // Try m[i] as the sym point
     if (is_palindromic_about(b, i))
-- 
2.43.0


From e0f939610ae43cbe7b53d6a8db9dd4fafcd38807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:01 +0000
Subject: [PATCH 14/75] fix: method::hasdodges divides by zero on an empty
 method

---
 ringing/method.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ringing/method.cpp b/ringing/method.cpp
index e99bf73..2c011eb 100644
--- a/ringing/method.cpp
+++ b/ringing/method.cpp
@@ -274,6 +274,7 @@ bool method::hasdodges(bell b) const
   bell j2 = -1; // and its position before that
   // We need to search beyond the lead end in order to find points
   // at the lead head, as in Dusty Bob Minimus.
+  if (length() == 0) return false;
   for (int i = 0, n = length(); i < n + 1; i++) {
     j2 = j1; j1 = j;
     j *= (*this)[i % n];
-- 
2.43.0


From 386fa54863278340cb58a9ccc3e345492978108f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:01 +0000
Subject: [PATCH 15/75] fix: method::methclass reads past the end of the lead
 head

---
 ringing/method.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ringing/method.cpp b/ringing/method.cpp
index 2c011eb..6392366 100644
--- a/ringing/method.cpp
+++ b/ringing/method.cpp
@@ -307,13 +307,13 @@ int method::methclass(int year) const
 
   // Set hb to be the first hunt bell, or hb=n if there is none
   bell hb;
-  for (hb = 0; lhr[hb] != hb && hb < n; ++hb)
+  for (hb = 0; hb < n && lhr[hb] != hb; ++hb)
     ;
   
   // Set wb to be the size of the first set of working bells    
   int wb = 0;
   { int i;
-    for (i = 0; lhr[i] == i && i < n; ++i)
+    for (i = 0; i < n && lhr[i] == i; ++i)
       ;
     if (i < n) 
       wb = lhr.cycle_size(i);
@@ -361,7 +361,7 @@ int method::methclass(int year) const
   if(isplain(hb)) {
     // Check for Slow Course methods.  These were abolished in the 
     // Framework for Method Ringing, v1.00, effective 1 July 2019.
-    if(year < 2019 && hb == 0 && lhr[1] == 1 && issym(1))
+    if(year < 2019 && hb == 0 && n > 1 && lhr[1] == 1 && issym(1))
       return cl | M_SLOW_COURSE;
     // Now see whether any of the working bells make any dodges
     for (int i = 1; i < bells(); i++)
-- 
2.43.0


From d6883e49f247918256d957f9899535ddde9fb0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:01 +0000
Subject: [PATCH 16/75] fix: method::lhcode reads past the end of short lead
 heads

---
 ringing/method.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/method.cpp b/ringing/method.cpp
index 6392366..3692432 100644
--- a/ringing/method.cpp
+++ b/ringing/method.cpp
@@ -467,7 +467,7 @@ char *method::lhcode(void) const
   int lhplace = 0;
 
   buff[0] = 'z'; buff[1] = '\0';
-  if(!isregular()) return buff;
+  if(bells() < 3 || length() == 0 || !isregular()) return buff;
 
   // For a normal lead head code to be used, the method must be regular,
   // and have either one or two hunt bells, treble and 2.
-- 
2.43.0


From 0a38c1ea3af61ddf5e4d2701ee0215fa6cdfe3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:01 +0000
Subject: [PATCH 17/75] fix: method::maxblows returns -1 if no places are made

---
 ringing/method.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/method.cpp b/ringing/method.cpp
index 3692432..f5106d1 100644
--- a/ringing/method.cpp
+++ b/ringing/method.cpp
@@ -644,7 +644,7 @@ string method::format( int flags ) const
 // Counts the maximum number of consecutive blows in one place
 int method::maxblows(void) const
 {
-  int maxn = 0;
+  int maxn = 2;  // There is at least one blow in each place
 
   for ( const_iterator b(begin()), i(b), e(end()); i != e; ++i )
     for ( int p(0); p < bells(); ++p )
-- 
2.43.0


From d37da04c6e0c4526958231827d0279a1b3191e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:01 +0000
Subject: [PATCH 18/75] fix: formatting an empty method without its lead head
 reads past its end

---
 ringing/method.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/method.cpp b/ringing/method.cpp
index f5106d1..0c3812a 100644
--- a/ringing/method.cpp
+++ b/ringing/method.cpp
@@ -635,7 +635,7 @@ string method::format( int flags ) const
   } else {
     if (flags & M_PLUS) out += '+';
     do_compressed_section( out, *this, 0, 
-                           size() - ( (flags & M_OMIT_LH) ? 1 : 0 ),  flags );
+                           size() - ( (flags & M_OMIT_LH) && size() ? 1 : 0 ),  flags );
   }
 
   return out;
-- 
2.43.0


From 65081878742419b0c2bde661ab289d5d8b3c0550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:40 +0000
Subject: [PATCH 19/75] fix: decrementing the end extent_iterator leaves it at
 the end

---
 ringing/extent.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ringing/extent.cpp b/ringing/extent.cpp
index 5ae46dc..22aec8d 100644
--- a/ringing/extent.cpp
+++ b/ringing/extent.cpp
@@ -74,6 +74,7 @@ extent_iterator &extent_iterator::operator--()
     for ( unsigned i=nh; i<nw+nh; ++i ) v[i] = nw+nh-1 - i + nh;
     for ( unsigned i=nw+nh; i<nt; ++i ) v[i] = i;
     r.swap(v);
+    end_ = false;
   } 
   else {
     vector<bell> v; r.swap(v);
-- 
2.43.0


From af868434ba3bcb5af6fd6ca947bb8846cf84a9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:40 +0000
Subject: [PATCH 20/75] fix: position_in_extent reads past the end of rows on
 fewer bells

---
 ringing/extent.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ringing/extent.cpp b/ringing/extent.cpp
index 22aec8d..a97634b 100644
--- a/ringing/extent.cpp
+++ b/ringing/extent.cpp
@@ -106,10 +106,10 @@ position_in_extent( row const& r, unsigned nw, unsigned nh, unsigned nt )
   if (b > nt) 
     throw out_of_range( "Row has too many bells" );
   for ( size_t i=0; i<nh; ++i )
-    if ( r[i] != i )
+    if ( i < b && r[i] != i )
       throw out_of_range( "Row does not have fixed trebles" );
   for ( size_t i=nh+nw; i<nt; ++i )
-    if ( r[i] != i )
+    if ( i < b && r[i] != i )
       throw out_of_range( "Row does not have fixed tenors" );
 
   size_t x = 0u;
-- 
2.43.0


From b927f8807b2e3f435cd16d1b0816b2838fb7898b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:40 +0000
Subject: [PATCH 21/75] fix: extents on more than 12 working bells are numbered
 with 32-bit factorials

---
 ringing/extent.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/ringing/extent.cpp b/ringing/extent.cpp
index a97634b..c979e46 100644
--- a/ringing/extent.cpp
+++ b/ringing/extent.cpp
@@ -124,6 +124,18 @@ position_in_extent( row const& r, unsigned nw, unsigned nh, unsigned nt )
   return x;
 }
 
+// As factorial, but to the range of size_t.  Returns 0 if the result would not
+// be representable.
+static size_t size_factorial( unsigned n )
+{
+  size_t f = 1;
+  for ( ; n > 1; --n ) {
+    if ( f > size_t(-1) / n ) return 0;
+    f *= n;
+  }
+  return f;
+}
+
 RINGING_API row
 nth_row_of_extent( size_t n, unsigned nw, unsigned nh, unsigned nt )
 {
@@ -132,8 +144,9 @@ nth_row_of_extent( size_t n, unsigned nw, unsigned nh, unsigned nt )
   for ( unsigned i=0; i<nh; ++i ) v[i] = i;
   for ( unsigned i=nh; i<nw+nh; ++i )
   {
-    size_t const fact = factorial(nw + nh - i - 1);
-    bell b = n / fact + nh; n %= fact;
+    size_t const fact = size_factorial(nw + nh - i - 1);
+    bell b = nh;
+    if (fact) { b = n / fact + nh; n %= fact; }
      
     for ( bell ob(nh); ob <= b; ++ob )
       for ( unsigned j=0; j<i; ++j )
@@ -182,7 +195,7 @@ size_t extent::operator[]( row r ) const
 
 size_t extent::size() const
 {
-  return factorial(nw); 
+  return size_factorial(nw); 
 }
 
 
-- 
2.43.0


From 16694a3347362d1b32af30ebb8c05f02f972b90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:40 +0000
Subject: [PATCH 22/75] fix: random_row cannot draw every row on more than 12
 working bells

---
 ringing/extent.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ringing/extent.cpp b/ringing/extent.cpp
index c979e46..11cce16 100644
--- a/ringing/extent.cpp
+++ b/ringing/extent.cpp
@@ -261,7 +261,10 @@ changes_iterator::changes_iterator( unsigned int nw, unsigned int nh,
 
 row random_row( unsigned int nw, unsigned int nh, unsigned int nt )
 {
-  return nth_row_of_extent( random_int( factorial(nw) ), nw, nh, nt );
+  row r(nt);
+  for ( unsigned i=nw; i>1; --i )
+    r.swap( nh + i - 1, nh + random_int(i) );
+  return r;
 }
 
 
-- 
2.43.0


From f4b53a0e137e403a790cb12acbb8ce51716dd09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:45 +0000
Subject: [PATCH 23/75] fix: conjugating a group by a row on more bells gives a
 group on too few bells

---
 ringing/group.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/group.cpp b/ringing/group.cpp
index 4bf2630..3518edb 100644
--- a/ringing/group.cpp
+++ b/ringing/group.cpp
@@ -217,7 +217,7 @@ group group::conjugate( const row& r ) const
 {
   group g;
 
-  g.b = b;
+  g.b = b > size_t(r.bells()) ? b : r.bells();
   g.v.clear();  // Default constructor populates it with a single element
   g.v.reserve( v.size() );
 
-- 
2.43.0


From b2722ba6a70a7eb271a579d3e65083f2a933c3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:45 +0000
Subject: [PATCH 24/75] fix: group::rcoset_label assumes that the row is on the
 same number of bells

---
 ringing/group.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ringing/group.cpp b/ringing/group.cpp
index 3518edb..a1f93bf 100644
--- a/ringing/group.cpp
+++ b/ringing/group.cpp
@@ -277,7 +277,9 @@ row group::rcoset_label( row const& r ) const
   if ( size() >= 6 && is_direct_product_of_symmetric_groups( o, size() ) ) 
   {
     // Use an O(1) algorithm.
-    vector<bell> label( r.bells() );
+    vector<bell> label( b > size_t(r.bells()) ? b : r.bells() );
+    for ( size_t j=0; j<label.size(); ++j )
+      label[j] = j < size_t(r.bells()) ? r[j] : bell(j);
 
     for ( vector< vector<bell> >::const_iterator i=o.begin(), e=o.end(); 
             i != e; ++i ) {
-- 
2.43.0


From 652cde3a471e265e625f37561cb044eb1e8e8236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:52 +0000
Subject: [PATCH 25/75] fix: group::dihedral_r has half its order on an even
 number of bells

---
 ringing/group.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ringing/group.cpp b/ringing/group.cpp
index a1f93bf..84a9eb2 100644
--- a/ringing/group.cpp
+++ b/ringing/group.cpp
@@ -135,7 +135,12 @@ group group::dihedral_c(int nw, int nh, int nt)
 group group::dihedral_r(int nw, int nh, int nt)
 {
   if (!nt) nt = nh + nw;
-  return group( row::pblh(nh+nw, nh), row::reverse_rounds(nw, nh, nt) );
+  // On an even number of bells, reverse_rounds is a power of pblh, so it is
+  // not one of the reflections.
+  change ch(nt);
+  for (int i = nh + 1; i + 1 < nh + nw; i += 2)
+    ch.swappair(i);
+  return group( row::pblh(nh+nw, nh), row(nt) * ch );
 }
 
 group group::cyclic_c(int nw, int nh, int nt)
-- 
2.43.0


From 87e1a9edd6319fc0ef6caef689583c46f59a1214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:42 +0000
Subject: [PATCH 26/75] fix: a branch of a false prover is true

---
 ringing/proof.cpp | 1 +
 ringing/proof.h   | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/ringing/proof.cpp b/ringing/proof.cpp
index 4405f39..84bf1bc 100644
--- a/ringing/proof.cpp
+++ b/ringing/proof.cpp
@@ -177,6 +177,7 @@ prover::create_branch( shared_pointer<prover> const& chain )
   p->chain      = chain;
   p->max_occurs = chain->max_occurs;
   p->lineno     = chain->lineno;
+  p->falsec     = chain->falsec;
   p->dups       = chain->dups;
   p->fi         = chain->fi;
   // NB do not copy chain->m.
diff --git a/ringing/proof.h b/ringing/proof.h
index 0ac162d..694d015 100644
--- a/ringing/proof.h
+++ b/ringing/proof.h
@@ -99,7 +99,7 @@ public:
 
   bool truth() const { return falsec == 0; }
 
-  void disable_proving() { max_occurs = -1; }
+  void disable_proving() { max_occurs = -1; falsec = 0u; }
 
   // Create a prover referencing all the rows in its argument.  It is 
   // undefined behaviour if chained prover (the argument) is modified
-- 
2.43.0


From 56b25cad098d05555ef819bbeb574fb283484412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:42 +0000
Subject: [PATCH 27/75] fix: a branched prover does not report the lines before
 the branch

---
 ringing/proof.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ringing/proof.cpp b/ringing/proof.cpp
index 84bf1bc..a8cad3d 100644
--- a/ringing/proof.cpp
+++ b/ringing/proof.cpp
@@ -109,8 +109,10 @@ bool prover::add_row( const row &r )
 	  // in this range, we explicitly add it by hand afterwards.
 	  l._row = r;
 	  bool added_i = false;
+	  for ( list<range>::const_iterator ri = ranges.begin(), 
+		  re = ranges.end(); ri != re; ++ri )
 	  {
-	    for ( mmap::iterator j = rng.first; j != rng.second; ++j )
+	    for ( mmap::iterator j = ri->first; j != ri->second; ++j )
 	      {
 		if ( j == i ) added_i = true;
 		l._lines.push_back( j->second );
-- 
2.43.0


From c6d6582471312203efb4aabfc81f46b59c08d066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:42 +0000
Subject: [PATCH 28/75] fix: prover::remove_row removes the first of several
 equal rows

---
 ringing/proof.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ringing/proof.cpp b/ringing/proof.cpp
index a8cad3d..624f005 100644
--- a/ringing/proof.cpp
+++ b/ringing/proof.cpp
@@ -80,8 +80,9 @@ bool prover::add_row( const row &r )
 
   range const& rng = ranges.back();
 
-  mmap::iterator i( m.insert( rng.first == m.begin() ? m.begin() 
-			                             : prior( rng.first ),
+  // Equal rows are kept in the order in which they were added, as remove_row
+  // removes the last of them.
+  mmap::iterator i( m.insert( rng.second, 
 			      mmap::value_type( r, ++lineno ) ) );
 
   if ( n > 1 )
-- 
2.43.0


From 1de9c792c15436ccb08925811357011a366c280f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:42 +0000
Subject: [PATCH 29/75] fix: prover::remove_row leaves rows that are no longer
 false in the failinfo

---
 ringing/proof.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/proof.cpp b/ringing/proof.cpp
index 624f005..7ae26fc 100644
--- a/ringing/proof.cpp
+++ b/ringing/proof.cpp
@@ -166,7 +166,7 @@ void prover::remove_row( const row& r )
 	    if ( j->_row == r )
 	      {
 		j->_lines.pop_back(); 
-                if ( j->_lines.empty() ) fi->erase(j);
+                if ( (int) n - 1 <= max_occurs ) fi->erase(j);
                 break;
 	      }
         }
-- 
2.43.0


From 2d1973fc8574d78a7f51c09625cac113fd1701ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:42 +0000
Subject: [PATCH 30/75] fix: proof stops recording false rows after the first
 one

---
 ringing/proof.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ringing/proof.h b/ringing/proof.h
index 694d015..e5391d9 100644
--- a/ringing/proof.h
+++ b/ringing/proof.h
@@ -246,12 +246,13 @@ bool proof<RowIterator>::prove(RowIterator true_first,
 			       const int max,
 			       bool qp)
 {
+  where.clear();
   scoped_pointer<prover> p( qp ? new prover(max) : new prover(where, max) );
   istrue = true;
   for ( ; true_first != true_last && (!qp || istrue) ; ++true_first )
-    istrue = istrue && p->add_row( *true_first );
+    istrue = p->add_row( *true_first ) && istrue;
   for ( ; unknown_first != unknown_last && (!qp || istrue) ; ++unknown_first )
-    istrue = istrue && p->add_row( *unknown_first );
+    istrue = p->add_row( *unknown_first ) && istrue;
   return istrue;
 }
 
-- 
2.43.0


From 64bbcab1398e2c388de37d5b652b104d8bd23052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:24 +0000
Subject: [PATCH 31/75] fix: the proof constructors prove before the list of
 false rows is constructed

---
 ringing/proof.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/proof.h b/ringing/proof.h
index e5391d9..beb954c 100644
--- a/ringing/proof.h
+++ b/ringing/proof.h
@@ -228,8 +228,8 @@ public:
   int operator!() const { return !istrue; }
 
 private:
-  bool istrue;                   // Well, is it true or not?
   failinfo where;                // Details of where it failed.
+  bool istrue;                   // Well, is it true or not?
 }; 
 
 /******************************************
-- 
2.43.0


From 0fb27a57addda250b8e003fa7cfac3a1a4e81c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:03 +0000
Subject: [PATCH 32/75] fix: the intersection of a bell and a set of bells is
 always empty

---
 ringing/row_wildcard.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/row_wildcard.cpp b/ringing/row_wildcard.cpp
index 2594ff2..e483b7e 100644
--- a/ringing/row_wildcard.cpp
+++ b/ringing/row_wildcard.cpp
@@ -191,7 +191,7 @@ bool row_wildcard::make_intersection( string& dest,
     else if ( b_wild && a_bell )
       dest += a[ai];
 
-    else if ( a_bell && a_bell ) {
+    else if ( a_bell && b_bell ) {
       if ( a[ai] == b[bi] ) 
         dest += a[ai];
       else return false;
-- 
2.43.0


From 1aa5bdc4b4d579959d324f421e568d7b9b382f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:03 +0000
Subject: [PATCH 33/75] fix: row_wildcard::count counts rows with a bell twice,
 out of range, or in too many places

---
 ringing/row_wildcard.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ringing/row_wildcard.cpp b/ringing/row_wildcard.cpp
index e483b7e..9c6b66b 100644
--- a/ringing/row_wildcard.cpp
+++ b/ringing/row_wildcard.cpp
@@ -314,15 +314,20 @@ RINGING_ULLONG row_wildcard::possible_matches
       // Elsewhere (and traditionally in the music_details class) we
       // consider a overly-short pattern without a star (e.g. '5') to
       // have an implicit trailing '*'.  For consistency, lets do that here.
-      if ( count_bells(s) < bells )
+      unsigned const n = count_bells(s);
+      if ( n < bells )
         return possible_matches( bells, pos, s + '*', q );
       else
-        return 1;
+        return n == bells ? 1 : 0;
     }
   else
     {
       if (bell::is_symbol(s[pos]))
 	{
+	  // A row contains each of its bells once, and no others
+	  if (bell::read_char(s[pos]) >= bells || s.find(s[pos]) < pos)
+	    return 0;
+
 	  return possible_matches(bells, pos + 1, s, q);
 	}
       else if (s[pos] == '?')
@@ -372,6 +377,9 @@ RINGING_ULLONG row_wildcard::possible_matches
               return possible_matches( bells, pos, modified, q );
             }
 
+          if ( count_bells(s) > bells ) 
+            return 0;
+
           // The largest number of '?'s that this could represent.
           const unsigned n = bells - count_bells(s);
 
-- 
2.43.0


From c20e2e5b1796f4b6f22752c10181af53556d8eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:03 +0000
Subject: [PATCH 34/75] fix: row_wildcard::count miscounts rows that a pattern
 matches in three or more ways

---
 ringing/row_wildcard.cpp | 55 +++++++++++++++++++++++++---------------
 ringing/row_wildcard.h   |  4 +++
 2 files changed, 39 insertions(+), 20 deletions(-)

diff --git a/ringing/row_wildcard.cpp b/ringing/row_wildcard.cpp
index 9c6b66b..7fc73c3 100644
--- a/ringing/row_wildcard.cpp
+++ b/ringing/row_wildcard.cpp
@@ -431,28 +431,12 @@ RINGING_ULLONG row_wildcard::possible_matches
                     need_intersection = false;
               }
 
-	      RINGING_ULLONG total = 0;
-
+	      vector<string> expanded;
   	      for ( unsigned i = 0; i <= n; ++i )
-		{
-		  string modified = expand_star(s, pos, i);
-
-	          int orig_q = q;
-		  total += possible_matches(bells, pos, modified, q);
-		  q = orig_q;
+		expanded.push_back( expand_star(s, pos, i) );
 
-                  for ( unsigned j = 0; need_intersection && j < i; ++j )
-                    {
-                      string intersect;
-                      if ( make_intersection
-                             ( intersect, modified, expand_star(s,pos,j) ) )
-                        total -= possible_matches( bells, pos, intersect, q );
-
-                      q = orig_q;
-                    }
-		}
-
-	      return total;
+	      return union_matches
+	        ( bells, pos, expanded, need_intersection, q );
 	    }
 	}
       else
@@ -463,6 +447,37 @@ RINGING_ULLONG row_wildcard::possible_matches
     }
 }
 
+// The number of rows matching any of the patterns in V.  This counts the rows 
+// that match each pattern, but not any of the patterns before it.
+RINGING_ULLONG row_wildcard::union_matches
+  ( unsigned int bells, unsigned int pos, vector<string> const& v, 
+    bool need_intersection, int q ) const
+{
+  RINGING_ULLONG total = 0;
+
+  for ( unsigned i = 0; i < v.size(); ++i )
+    {
+      int i_q = q;
+      RINGING_ULLONG n = possible_matches(bells, pos, v[i], i_q);
+
+      if ( n && need_intersection )
+        {
+          vector<string> overlap;
+          for ( unsigned j = 0; j < i; ++j )
+            {
+              string intersect;
+              if ( make_intersection(intersect, v[i], v[j]) )
+                overlap.push_back(intersect);
+            }
+          n -= union_matches(bells, pos, overlap, true, q);
+        }
+
+      total += n;
+    }
+
+  return total;
+}
+
 #if RINGING_USE_EXCEPTIONS
 row_wildcard::invalid_pattern::invalid_pattern( string const& pat, 
                                                 string const& msg ) 
diff --git a/ringing/row_wildcard.h b/ringing/row_wildcard.h
index 18bf7f9..fcad5e9 100644
--- a/ringing/row_wildcard.h
+++ b/ringing/row_wildcard.h
@@ -88,6 +88,10 @@ private:
   RINGING_ULLONG possible_matches
     ( unsigned int bells, unsigned int pos, const string &s, int &q ) const;
 
+  RINGING_ULLONG union_matches
+    ( unsigned int bells, unsigned int pos, vector<string> const& v, 
+      bool need_intersection, int q ) const;
+
   // Data members
   string pat;
   unsigned b;
-- 
2.43.0


From 50ad37e3ddff5bb49c1d0075eb14ac7beaf418d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:03 +0000
Subject: [PATCH 35/75] fix: music::clear leaves the music details in place

---
 ringing/music.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ringing/music.cpp b/ringing/music.cpp
index 49039b2..fd7305c 100644
--- a/ringing/music.cpp
+++ b/ringing/music.cpp
@@ -380,6 +380,7 @@ music::music(unsigned int b, music_details const& md)
 void music::clear(unsigned int new_b) 
 {
   if (new_b) b = new_b;
+  info.clear();
   top_node.reset( new music_node(b) );
   reset_music();
 }
-- 
2.43.0


From 2ccc8b108e9efaf762658bfe81ec86e53505a7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:03 +0000
Subject: [PATCH 36/75] fix: changing the number of bells of music leaves its
 patterns expanded for the old number

---
 ringing/music.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ringing/music.cpp b/ringing/music.cpp
index fd7305c..39c80e9 100644
--- a/ringing/music.cpp
+++ b/ringing/music.cpp
@@ -401,7 +401,10 @@ void music::set_bells(unsigned int new_b)
     for (iterator i=info.begin(), e=info.end(); i!=e; ++i)
       i->check_bells(new_b);
 
-    top_node->set_bells(new_b);
+    // The tree depends on the number of bells
+    top_node.reset( new music_node(new_b) );
+    for (size_type i = 0; i < info.size(); ++i)
+      top_node->add(info[i].get(), 0, i, 0);
     b = new_b;
   }
 }
-- 
2.43.0


From 03ad47825d20ef5766f1aa6f38f919cfc9923bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:03 +0000
Subject: [PATCH 37/75] fix: matching a music pattern on too many bells reads
 past the end of the row

---
 ringing/music.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/ringing/music.cpp b/ringing/music.cpp
index 39c80e9..fc2f954 100644
--- a/ringing/music.cpp
+++ b/ringing/music.cpp
@@ -230,16 +230,16 @@ void music_node::set_bells(unsigned int b)
 void music_node::add(const string &mds, unsigned int i, 
                      unsigned int key, unsigned int pos)
 {
-  // If we've reached the end of the string, add the key, which will tell
-  // match() that the pattern identified by the key has matched.
-  if (i >= mds.size()) 
-    detailsmatch.push_back(key);
-
   // If we're trying to match more bells than there are, it must fail,
   // so we may as well stop now.
-  else if (pos > bells)
+  if (pos > bells)
     return;
 
+  // If we've reached the end of the string, add the key, which will tell
+  // match() that the pattern identified by the key has matched.
+  else if (i >= mds.size()) 
+    detailsmatch.push_back(key);
+
   // Look at the next token in pattern and generate a subnode for it.  
   else {
     char const* p = mds.c_str() + i;
@@ -341,6 +341,10 @@ bool music_node::match(const row &r, unsigned int pos,
     matched = true;
   }
 
+  // Have we used up all the bells?
+  if (pos >= r.bells())
+    return matched;
+
   // Is there a wildcard subnode at index 0?
   BellNodeMap::const_iterator j = subnodes.find(0);
   if (j != subnodes.end()) {
-- 
2.43.0


From 03951eb5cb243c304d22df355c7c2fef0ed8faac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:29 +0000
Subject: [PATCH 38/75] fix: the intersection of two sets of bells does not
 skip the second set

---
 ringing/row_wildcard.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ringing/row_wildcard.cpp b/ringing/row_wildcard.cpp
index 7fc73c3..72daf2e 100644
--- a/ringing/row_wildcard.cpp
+++ b/ringing/row_wildcard.cpp
@@ -156,6 +156,7 @@ bool row_wildcard::copy_choices_intersection( string& dest,
   }
 
   dest += ']';
+  bi = b.find( ']', b_init );
   return had_one;
 }
 
-- 
2.43.0


From 87e9648cde27f2a96e9d811d84b13ec15a1139bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:29 +0000
Subject: [PATCH 39/75] fix: a * in a music pattern does not match no bells,
 nor always every number of them

---
 ringing/music.cpp | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/ringing/music.cpp b/ringing/music.cpp
index fc2f954..f3eb243 100644
--- a/ringing/music.cpp
+++ b/ringing/music.cpp
@@ -279,20 +279,22 @@ void music_node::add(const string &mds, unsigned int i,
       if (i+1 == mds.size())
         detailsmatch.push_back(key);
 
-      // Is this the last * in the pattern?  If so, it is handled by
-      // add_to_subtree().
-      else if (mds.find('*', i + 1) == string::npos) 
-        add_to_subtree(0, mds, i, key, pos, true);
+      // Is this the last * in the pattern?  If so, it matches all but the
+      // bells that the rest of the pattern needs.
+      else if (mds.find('*', i + 1) == string::npos) {
+        unsigned int n = count_bells(mds.substr(i + 1)) + pos;
+        if (n == bells)
+          add(mds, i + 1, key, pos);
+        else if (n < bells)
+          add_to_subtree(0, mds, i, key, pos, true);
+      }
           
       else {
         // We have something like '*456*'
         // First ignore the star and just move on.
         add(mds, i + 1, key, pos);
         // Now deal with the star
-        if (mds.size() - i >= pos)
-          add_to_subtree(0, mds, i, key, pos, true);
-        else
-          add_to_subtree(0, mds, i, key, pos, false);
+        add_to_subtree(0, mds, i, key, pos, true);
       }
     }
     else throw music_details::invalid_regex(mds, 
@@ -307,14 +309,8 @@ void music_node::add_to_subtree(unsigned int place, const string &mds, unsigned
 
   if (process_star)
     {
-      // We are to process star data star.
-      if (bells - pos == count_bells(mds.substr(i, mds.size() - i)) + 1 &&
-	  mds.find('*', i + 1) >= mds.size())
-	// There are now only numbers to go.
-	j->add(mds, i + 1, key, pos + 1);
-      else
-	// We haven't got to the last * position yet, so carry on.
-	j->add(mds, i, key, pos + 1);
+      // The star may match further bells.
+      j->add(mds, i, key, pos + 1);
     }
   else
     {
-- 
2.43.0


From 1ab9f755eacf03ff3950de95dc7c23bebcb2ff28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:29 +0000
Subject: [PATCH 40/75] fix: a row that matches a music pattern in several ways
 is counted several times

---
 ringing/music.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/ringing/music.cpp b/ringing/music.cpp
index f3eb243..1aba44d 100644
--- a/ringing/music.cpp
+++ b/ringing/music.cpp
@@ -28,6 +28,7 @@
 #include <cctype>
 #include <cstdio>
 #include <cstring>
+#include <set>
 
 RINGING_START_NAMESPACE
 
@@ -48,8 +49,11 @@ public:
   void add(const string &mds, unsigned int i, unsigned int key, 
            unsigned int pos);
 
+  // The keys of the patterns that have already matched this row are in 
+  // 'matched_keys', as a pattern may match a row in more than one way.
   bool match(const row &r, unsigned int pos, vector<music_details> &results, 
-             const EStroke &stroke, vector<bell> const& wildcard_matches) const;
+             const EStroke &stroke, vector<bell> const& wildcard_matches,
+             set<unsigned int> &matched_keys) const;
 
   // Helper function to work with cloning_pointer.
   music_node* clone() const { return new music_node(*this); }
@@ -321,7 +325,8 @@ void music_node::add_to_subtree(unsigned int place, const string &mds, unsigned
 
 bool music_node::match(const row &r, unsigned int pos, 
                        vector<music_details> &results, const EStroke &stroke, 
-                       vector<bell> const& wilds) const
+                       vector<bell> const& wilds, 
+                       set<unsigned int> &matched_keys) const
 {
   bool matched = false;
 
@@ -332,7 +337,8 @@ bool music_node::match(const row &r, unsigned int pos,
     for (unsigned k = pos; k < r.bells(); ++k)
       wilds2.push_back(r[k]);
 
-    results[*i].increment(stroke);
+    if (matched_keys.insert(*i).second)
+      results[*i].increment(stroke);
     results[*i].last_wildcards = wilds2;
     matched = true;
   }
@@ -348,13 +354,15 @@ bool music_node::match(const row &r, unsigned int pos,
     vector<bell> wilds2(wilds); 
     wilds2.push_back(r[pos]);
 
-    matched = j->second->match(r, pos + 1, results, stroke, wilds2) || matched;
+    matched = j->second->match(r, pos + 1, results, stroke, wilds2, matched_keys) 
+                || matched;
   }
     
   // Is there a subnode matching this specific bell?
   j = subnodes.find(r[pos] + 1);
   if (j != subnodes.end())
-    matched = j->second->match(r, pos + 1, results, stroke, wilds) || matched;
+    matched = j->second->match(r, pos + 1, results, stroke, wilds, matched_keys) 
+                || matched;
 
   return matched;
 }
@@ -424,8 +432,9 @@ bool music::process_row(const row &r, bool back)
   for (music_details& md : info)
     md.last_wildcards.clear();
 
+  set<unsigned int> matched_keys;
   return top_node->match(r, 0, info, back ? eBackstroke : eHandstroke,
-                         vector<bell>());
+                         vector<bell>(), matched_keys);
 }
 
 // Return the total score for all items
-- 
2.43.0


From 8605e6754b6bd39515d7bd431c715e590685bbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:29 +0000
Subject: [PATCH 41/75] fix: scores with a + sign are not recognised in scored
 music strings

---
 ringing/music.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ringing/music.cpp b/ringing/music.cpp
index 1aba44d..9ffb075 100644
--- a/ringing/music.cpp
+++ b/ringing/music.cpp
@@ -603,7 +603,8 @@ void music::add_scored_music_string( string const& s )
             scoreh = atoi( pattern.c_str() );
             comma = j;
           }
-        else if ( !isdigit( pattern[j] ) && pattern[j] != '-' )
+        else if ( !isdigit( pattern[j] ) 
+                  && pattern[j] != '-' && pattern[j] != '+' )
           break;
     }
 
-- 
2.43.0


From ec5d0e0050542f029081c0021e93dbefba8a1974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:28 +0000
Subject: [PATCH 42/75] fix: row_wildcard::count takes I and 1, and O and 0, to
 be different bells

---
 ringing/row_wildcard.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ringing/row_wildcard.cpp b/ringing/row_wildcard.cpp
index 72daf2e..70048f3 100644
--- a/ringing/row_wildcard.cpp
+++ b/ringing/row_wildcard.cpp
@@ -287,7 +287,12 @@ RINGING_ULLONG row_wildcard::count( unsigned bells ) const
     RINGING_THROW_OR_RETURN(
       invalid_pattern(pat, "Number of bells unspecified"), 0 );
     
-  return possible_matches(bells, 0, pat, q);
+  // Write each bell in only one way
+  string s(pat);
+  for ( string::iterator i = s.begin(); i != s.end(); ++i )
+    if ( bell::is_symbol(*i) ) *i = bell::read_char(*i).to_char();
+
+  return possible_matches(bells, 0, s, q);
 }
 
 // This function is subtle: counting the number of possible matches
-- 
2.43.0


From 04b69bee1700cd31c9465fa8177c613b489d83e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:15 +0000
Subject: [PATCH 43/75] fix: a child of a touch with no changes or no repeats
 is iterated over

---
 ringing/touch.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/ringing/touch.cpp b/ringing/touch.cpp
index d81a625..5000dc1 100644
--- a/ringing/touch.cpp
+++ b/ringing/touch.cpp
@@ -84,9 +84,19 @@ private:
   friend class touch_child_list;
   iterator(list<entry>::const_iterator j, 
 	   list<entry>::const_iterator k) : i(j), last(k), count(0)
-  { if(i != last) { ci = (*i).second->begin(); } }
+  { start(); }
+  void start();
 };
 
+// Start the next child that contributes any changes
+void touch_child_list::iterator::start()
+{
+  for(; i != last; ++i) {
+    ci = (*i).second->begin();
+    if((*i).first > 0 && ci != (*i).second->end()) break;
+  }
+}
+
 
 touch_node::iterator_base& touch_child_list::iterator::operator++()
 {
@@ -97,10 +107,8 @@ touch_node::iterator_base& touch_child_list::iterator::operator++()
       ci = (*i).second->begin();
     } else {
       ++i;
-      if(i != last) {
-	count = 0;
-	ci = (*i).second->begin();
-      }
+      count = 0;
+      start();
     }
   }
   return *this;
-- 
2.43.0


From 47c1aa61cd304520e81c5877b8217f63a718a2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:15 +0000
Subject: [PATCH 44/75] fix: a dimension of zero is printed without a unit, and
 cannot be read back

---
 ringing/dimension.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/dimension.cpp b/ringing/dimension.cpp
index cc9f2aa..ec44c97 100644
--- a/ringing/dimension.cpp
+++ b/ringing/dimension.cpp
@@ -70,7 +70,7 @@ void dimension::set_float(float value, int denom, units uu)
 ostream& operator<<(ostream& o, const dimension& d)
 {
   if(d.d == 0) return o;
-  if(d.n == 0) { o << '0'; return o; }
+  if(d.n == 0) { o << "0 " << dimension::unit_strings[d.u]; return o; }
   int r = d.n % d.d;
   int q = (d.n - r) / d.d;
   if(q != 0) o << q;
-- 
2.43.0


From 608c13fa89e5848592078f2daa48f543e596fcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:15 +0000
Subject: [PATCH 45/75] fix: negative dimensions of less than one unit are
 printed without their sign

---
 ringing/dimension.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ringing/dimension.cpp b/ringing/dimension.cpp
index ec44c97..611c1bd 100644
--- a/ringing/dimension.cpp
+++ b/ringing/dimension.cpp
@@ -74,6 +74,7 @@ ostream& operator<<(ostream& o, const dimension& d)
   int r = d.n % d.d;
   int q = (d.n - r) / d.d;
   if(q != 0) o << q;
+  else if(r < 0) o << '-';
   if(q != 0 && r != 0) o << ' ';
   if(r < 0) r = -r;
   if(r != 0) o << r << '/' << d.d;
-- 
2.43.0


From ef587e44d54515e0c064b6d8688472e723545384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:15 +0000
Subject: [PATCH 46/75] fix: dimension::write puts a NUL character at the end
 of the string

---
 ringing/dimension.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/dimension.cpp b/ringing/dimension.cpp
index 611c1bd..f62b107 100644
--- a/ringing/dimension.cpp
+++ b/ringing/dimension.cpp
@@ -84,7 +84,7 @@ ostream& operator<<(ostream& o, const dimension& d)
 
 string& dimension::write(string& s) const
 {
-  return s = make_string() << *this << ends;
+  return s = make_string() << *this;
 }
 
 
-- 
2.43.0


From fb822ea7c6ea2250b1c5315f728ff2de9460da22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:15 +0000
Subject: [PATCH 47/75] fix: a dimension with a zero denominator is accepted,
 and 0/0 divides by zero

---
 ringing/dimension.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ringing/dimension.cpp b/ringing/dimension.cpp
index f62b107..5c2dcc8 100644
--- a/ringing/dimension.cpp
+++ b/ringing/dimension.cpp
@@ -119,6 +119,7 @@ void dimension::read(const char *s)
       if(!isdigit(*s)) RINGING_THROW_OR_RETURN_VOID( bad_format() );
       c = *s++ - '0';
       while(isdigit(*s)) c = 10*c + (*s++ - '0');
+      if(c == 0) RINGING_THROW_OR_RETURN_VOID( bad_format() );
       read_units(s);
       n = a * c + b; d = c;
       if(negative) n = -n;
@@ -128,6 +129,7 @@ void dimension::read(const char *s)
       if(!isdigit(*s)) RINGING_THROW_OR_RETURN_VOID( bad_format() );
       c = *s++ - '0';
       while(isdigit(*s)) c = 10*c + (*s++ - '0');
+      if(c == 0) RINGING_THROW_OR_RETURN_VOID( bad_format() );
       read_units(s);
       n = negative ? -a : a; d = c;     
     } else { // Just an integer
-- 
2.43.0


From 7fbac3fd8cf47e5cf48e3f98fc250a494cee9644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:33 +0000
Subject: [PATCH 48/75] fix: half-lead falseness tables of methods only look at
 a quarter of the lead

---
 ringing/falseness.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ringing/falseness.cpp b/ringing/falseness.cpp
index 5a24bfd..5cfc1ca 100644
--- a/ringing/falseness.cpp
+++ b/ringing/falseness.cpp
@@ -75,9 +75,7 @@ void falseness_table::init( vector<row> const& m1, vector<row> const& m2 )
 
   set<row> fs;
 
-  vector<row>::const_iterator const
-    e1( flags & half_lead_only ?  m1.begin() + m1.size() / 2 : m1.end() ),
-    e2( flags & half_lead_only ?  m2.begin() + m2.size() / 2 : m2.end() );
+  vector<row>::const_iterator const e1( m1.end() ), e2( m2.end() );
 
   for ( vector<row>::const_iterator i1( m1.begin() ); i1 != e1; ++i1 )
     {
-- 
2.43.0


From d9ec3b802664e3d98f7246fd5ed45b904261901a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:33 +0000
Subject: [PATCH 49/75] fix: false_courses does not terminate if the tenor can
 never get home

---
 ringing/falseness.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ringing/falseness.cpp b/ringing/falseness.cpp
index 5cfc1ca..a6f9b63 100644
--- a/ringing/falseness.cpp
+++ b/ringing/falseness.cpp
@@ -177,8 +177,13 @@ public:
 	lead *= fc.lh;
 	      
 	// Transpose to the course head
+	row const c0( c );
 	while ( c[ f.bells() - 1 ] != f.bells() - 1 ) 
-	  c *= fc.lh;
+	  if ( ( c *= fc.lh ) == c0 ) break;
+
+	// Are there any course heads in the course?
+	if ( c[ f.bells() - 1 ] != f.bells() - 1 )
+	  continue;
 	      
 	if ( ( fc.flags & in_course_only ) && c.sign() == -1 )
 	  continue;
-- 
2.43.0


From 4c3470fa73c6afdab82d08e13a6121147c30d388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:33 +0000
Subject: [PATCH 50/75] fix: default constructed falseness tables have
 uninitialised flags

---
 ringing/falseness.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ringing/falseness.cpp b/ringing/falseness.cpp
index a6f9b63..f557537 100644
--- a/ringing/falseness.cpp
+++ b/ringing/falseness.cpp
@@ -63,7 +63,7 @@ static bool are_tenors_together( const row &r, int working_bells )
 }
 
 falseness_table::falseness_table()
-  : t(1, row())
+  : t(1, row()), flags(0)
 {}
 
 void falseness_table::init( vector<row> const& m1, vector<row> const& m2 )
@@ -151,7 +151,7 @@ group falseness_table::generate_group() const
 }
 
 false_courses::false_courses()
-  : t(1, row())
+  : t(1, row()), flags(0)
 {}
 
 
-- 
2.43.0


From 8e3496c382cdd6617fd47f2cd78e1d4539b6e343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:54 +0000
Subject: [PATCH 51/75] fix: the byte order mark is taken as place notation in
 lightweight library files

---
 ringing/litelib.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ringing/litelib.cpp b/ringing/litelib.cpp
index 8ed37b6..8a11c41 100644
--- a/ringing/litelib.cpp
+++ b/ringing/litelib.cpp
@@ -215,6 +215,7 @@ library_base::const_iterator litelib::impl::begin() const
   if (f_owner) {
     f_owner->clear();
     f_owner->seekg(0, ios::beg);
+    const_cast< litelib::impl * >(this)->skip_bom();
   }
   return const_iterator(const_cast< litelib::impl * >(this),
                         new entry_type(b, flags));
-- 
2.43.0


From 113647f2c6ed67ed69ef4e657c971a6459e36ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:54 +0000
Subject: [PATCH 52/75] fix: base names in lightweight libraries keep repeated
 words and half of Treble Bob, and read before an empty name

---
 ringing/litelib.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ringing/litelib.cpp b/ringing/litelib.cpp
index 8a11c41..791e21a 100644
--- a/ringing/litelib.cpp
+++ b/ringing/litelib.cpp
@@ -135,14 +135,15 @@ string litelib::impl::entry_type::name() const
 static void trim_trailing_whitespace( string &line )
 {
   string::iterator b( line.begin() ), j( line.end() );
-  while ( j-1 != b && isspace(*(j-1)) ) --j;
+  while ( j != b && isspace(*(j-1)) ) --j;
   line = string( b, j );
 }
 
 static bool remove_suffix( string& n, string const& suffix )
 {
-  string::size_type i = n.find(suffix);
-  if ( i != string::npos && i == n.length() - suffix.length() ) {
+  string::size_type i = n.rfind(suffix);
+  if ( !suffix.empty() && 
+       i != string::npos && i == n.length() - suffix.length() ) {
     n.erase(i); trim_trailing_whitespace(n);
     return true;
   }
@@ -154,9 +155,10 @@ string litelib::impl::entry_type::base_name() const
   string n = name();
   if ( remove_suffix( n, method::stagename(b) ) ) {
     bool had_class = false;
-    for ( method::m_class c = method::M_BOB; 
-            c <= method::M_SLOW_COURSE && !had_class;  
-            c = (method::m_class)( (int)c + 1 ) )
+    // Treble Bob and Treble Place need trying before Bob and Place
+    for ( method::m_class c = method::M_SLOW_COURSE; 
+            c >= method::M_BOB && !had_class;  
+            c = (method::m_class)( (int)c - 1 ) )
       if ( remove_suffix( n, method::classname(c) ) )
         had_class = true;
    
-- 
2.43.0


From e66e3d479749de3f009b803195f06345de1b9a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:54 +0000
Subject: [PATCH 53/75] fix: base names in Central Council libraries keep the
 class, or lose part of it after a plain section

---
 ringing/cclib.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ringing/cclib.cpp b/ringing/cclib.cpp
index 3c1ed92..2f78908 100644
--- a/ringing/cclib.cpp
+++ b/ringing/cclib.cpp
@@ -251,6 +251,7 @@ void cclib::impl::entry_type::parse_title()
   diff = ( linebuf.find( "differentials" ) != string::npos )
     || ( linebuf.find( "Differential ") != string::npos );
   little = ( linebuf.find( "Little " ) != string::npos );
+  plain = false;
   block = linebuf.find( "blocks" ) != string::npos;
 
   if ( linebuf.find( "Treble Place " ) != string::npos )
@@ -395,8 +396,9 @@ string cclib::impl::entry_type::name() const
   if (diff && n.find(method::classname( method::M_DIFFERENTIAL ))
                    == string::npos )
     n.append(" " + method::classname( method::M_DIFFERENTIAL ));
-  string cl(" "); cl.append( method::classname(main_class) );
-  if (main_class && n.find(cl) == string::npos )
+  string cl( method::classname(main_class) );
+  if ( cl.size() ) cl.insert( 0, " " );
+  if ( cl.size() && n.find(cl) == string::npos )
     n.append(cl);
   if (block && n.find(" Block") == string::npos )
     n.append(" Block");
@@ -502,6 +504,11 @@ string cclib::impl::entry_type::base_name() const
     maybe_strip_class( newname, method::classname( method::M_BOB ) ) ||
       maybe_strip_class( newname, method::classname( method::M_PLACE ) ) ||
       maybe_strip_class( newname, method::classname( method::M_SLOW_COURSE  ) );
+
+  // name() adds the main class if the entry does not contain it
+  string cl( method::classname( main_class ) );
+  if( cl.size() )
+    maybe_strip_class( newname, cl );
   
   if(little)
     maybe_strip_class( newname, method::classname( method::M_LITTLE       ) );
-- 
2.43.0


From 06ddf6a3c30e801e5558962d2a9df9a5975a87f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:54 +0000
Subject: [PATCH 54/75] fix: first handbell peals are missing from libraries
 without tower bell peals

---
 ringing/cclib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/cclib.cpp b/ringing/cclib.cpp
index 2f78908..a7d1c32 100644
--- a/ringing/cclib.cpp
+++ b/ringing/cclib.cpp
@@ -415,7 +415,7 @@ bool cclib::impl::entry_type::has_facet( const library_facet_id& id ) const
     return tower_date != string::npos && bool( get_facet( id ) );
   
   else if ( id == first_hand_peal::id ) 
-    return tower_end != string::npos && bool( get_facet( id ) );
+    return hand_date != string::npos && bool( get_facet( id ) );
 
   else if ( id == rw_ref::id ) 
     return rw_start != string::npos && bool( get_facet( id ) );
-- 
2.43.0


From 45b6a4a8663606bbd86bd5102f75e351f19583e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:19 +0000
Subject: [PATCH 55/75] fix: an empty line ending in a carriage return is taken
 as a method in lightweight libraries

---
 ringing/litelib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/litelib.cpp b/ringing/litelib.cpp
index 791e21a..2d46b79 100644
--- a/ringing/litelib.cpp
+++ b/ringing/litelib.cpp
@@ -185,7 +185,7 @@ bool litelib::impl::entry_type::readentry( library_base &lb )
     getline( ifs, linebuf );
 
     if (ifs) {
-      linestart = linebuf.find_first_not_of(" \t");
+      linestart = linebuf.find_first_not_of(" \t\r\n");
       if (linestart != string::npos) {
         int line_bells = read_bells();
         if (req_bells == 0 && line_bells) {
-- 
2.43.0


From d2952f114586a48f9b57065c25d6fa9273d88077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:32 +0000
Subject: [PATCH 56/75] fix: basic_search outputs false touches if the treble
 is not fixed

---
 ringing/basic_search.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/ringing/basic_search.cpp b/ringing/basic_search.cpp
index 2d466fa..927f515 100644
--- a/ringing/basic_search.cpp
+++ b/ringing/basic_search.cpp
@@ -80,20 +80,23 @@ public:
 private:
   void init_falseness( const method &meth )
   {
+    // If all calls have even parity we can exclude out-of-course falsenesses
+    int flags = falseness_table::in_course_only;
     for ( vector< row >::const_iterator i( call_lhs.begin() ); 
 	  i != call_lhs.end(); ++i )
       {
 	if ( i->sign() == -1 )
-	  {
-	    // At least one odd parity call, so we must consider 
-	    // out-of-course falsenesses
-	    falsenesses = falseness_table( meth );
-	    return;
-	  }
+	  // At least one odd parity call, so we must consider 
+	  // out-of-course falsenesses
+	  flags &= ~falseness_table::in_course_only;
+
+	if ( (*i)[0] != 0 )
+	  // The treble is not always home at the lead head, so we must 
+	  // consider falsenesses in which it is not
+	  flags |= falseness_table::no_fixed_treble;
       }
 
-    // All calls have even parity so we can exclude out-of-course falsenesses
-    falsenesses = falseness_table( meth, falseness_table::in_course_only );
+    falsenesses = falseness_table( meth, flags );
   }
 
   void init_call( const row &le, const change &ch )
-- 
2.43.0


From 4e8d2272306805ced4bd3a0e2c97082bd487a72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:32 +0000
Subject: [PATCH 57/75] fix: table_search constructors without part ends use
 uninitialised limits and flags

---
 ringing/table_search.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ringing/table_search.cpp b/ringing/table_search.cpp
index edf138e..c58f80c 100644
--- a/ringing/table_search.cpp
+++ b/ringing/table_search.cpp
@@ -90,14 +90,14 @@ table_search::table_search( const method &meth, const vector<change> &calls,
 table_search::table_search( const method &meth, const vector<change> &calls,
                             bool set_nr )
   : meth( meth ), calls( calls ),
+    lenrange( make_pair( size_t(0), size_t(-1) ) ),
     f( set_nr ? ignore_rotations : no_flags )
 {}
 
 table_search::table_search( const method &meth, const vector<change> &calls,
                             pair< size_t, size_t > lenrange, bool set_nr )
   : meth( meth ), calls( calls ),
-    lenrange( range_div( lenrange, f & length_in_changes
-                                     ? partends.size() * meth.length() : 1) ),
+    lenrange( lenrange ),
     f( set_nr ? ignore_rotations : no_flags )
 {
   DEBUG( "Length range set to " << lenrange.first << "-" << lenrange.second 
-- 
2.43.0


From f258e8e07877958c20497ba2f4fc7c227e44e060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:32 +0000
Subject: [PATCH 58/75] fix: table_search ignores the falseness of part ends
 that are out of course or move the treble

---
 ringing/table_search.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ringing/table_search.cpp b/ringing/table_search.cpp
index c58f80c..f52f8af 100644
--- a/ringing/table_search.cpp
+++ b/ringing/table_search.cpp
@@ -155,6 +155,13 @@ private:
         return false;
       }
 
+    for ( group::const_iterator i( s->partends.begin() );
+          i != s->partends.end(); ++i )
+      if ( i->sign() == -1 ) {
+        DEBUG( "Part end " << *i << " is out-of-course" );
+        return false;
+      }
+
     DEBUG( "All lead heads are in-course" );
     return true;
   }
@@ -168,6 +175,11 @@ private:
       if ( !s->calls[i].findplace(0) )
 	return false;
 
+    for ( group::const_iterator i( s->partends.begin() );
+          i != s->partends.end(); ++i )
+      if ( i->bells() && (*i)[0] != 0 )
+	return false;
+
     return true;
   }
 
-- 
2.43.0


From d3d5f3ffa122208ceb7ad9db9366e2539de84308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:32 +0000
Subject: [PATCH 59/75] fix: touch searches output some rotations of a touch
 more than once

---
 ringing/basic_search.cpp | 11 ++++-------
 ringing/table_search.cpp | 11 ++++-------
 2 files changed, 8 insertions(+), 14 deletions(-)

diff --git a/ringing/basic_search.cpp b/ringing/basic_search.cpp
index 927f515..5cfe8a0 100644
--- a/ringing/basic_search.cpp
+++ b/ringing/basic_search.cpp
@@ -176,13 +176,10 @@ private:
 
   // ... and this function checks that a touch fragment for which 
   // is_possibly_canonical() returns true is a canonical complete touch.
-  bool is_really_canonical()
+  bool is_really_canonical( size_t cur )
   {
-    for ( vector< size_t >::const_iterator i( calls.begin() ); 
-	  i != calls.end(); ++i )
-      if ( *i != calls.front() )
-	return calls.back() != calls.front();
-    return true;
+    // It must consist of a whole number of its shortest period.
+    return calls.size() % cur == 0;
   }
 
   // The main loop of the algorithm   
@@ -196,7 +193,7 @@ private:
     if ( is_row_false( r ) )
       {
 	// Has it come round, and is it in it's canonical form?
-	if ( depth >= lenrange.first && r.isrounds() && is_really_canonical() )
+	if ( depth >= lenrange.first && r.isrounds() && is_really_canonical( cur ) )
 	  output_touches( output, cur );
 
       }
diff --git a/ringing/table_search.cpp b/ringing/table_search.cpp
index f52f8af..df495d7 100644
--- a/ringing/table_search.cpp
+++ b/ringing/table_search.cpp
@@ -313,17 +313,14 @@ private:
 
   // ... and this function checks that a touch fragment for which 
   // is_possibly_canonical() returns true is a canonical complete touch.
-  bool is_really_canonical()
+  bool is_really_canonical( size_t cur )
   {
     // Multipart comps are always canonical (because we don't prue rotations
     // from multi-part searches)
     if ( table.partends().size() > 1 ) return true;
 
-    for ( vector< size_t >::const_iterator i( calls.begin() ); 
-	  i != calls.end(); ++i )
-      if ( *i != calls.front() )
-	return calls.back() != calls.front();
-    return true;
+    // It must consist of a whole number of its shortest period.
+    return calls.size() % cur == 0;
   }
 
   // The main loop of the algorithm   
@@ -347,7 +344,7 @@ private:
 	// Has it come round, and is it in it's canonical form?
 	if ( depth >= lenrange.first 
              && ( (f & non_round_blocks) || r.isrounds() ) 
-             && is_really_canonical() )
+             && is_really_canonical( cur ) )
 	  output_touch( output, cur );
       }
     else if ( depth < lenrange.second )
-- 
2.43.0


From 3b94c4f71854aa5c587900e93ba878b0fa20ed74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:14 +0000
Subject: [PATCH 60/75] fix: table_search outputs touches with leads that are
 false against themselves in another part

---
 ringing/table_search.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/ringing/table_search.cpp b/ringing/table_search.cpp
index df495d7..aeef505 100644
--- a/ringing/table_search.cpp
+++ b/ringing/table_search.cpp
@@ -215,6 +215,8 @@ private:
 
       DEBUG( "FLH: " << *i );
       falsenesses.push_back( table.compute_post_mult( *i ) );
+      if ( !i->isrounds() )
+        part_falsenesses.push_back( falsenesses.back() );
     }
   }
 
@@ -258,6 +260,18 @@ private:
     return false;
   }
 
+  // Is the lead starting with this row false against itself in another part?
+  bool is_false_between_parts( const row_t &r )
+  {
+    if ( table.partends().size() > 1 )
+      for ( vector< post_col_t >::const_iterator i( part_falsenesses.begin() ); 
+            i != part_falsenesses.end(); ++i )
+        if ( r * *i == r )
+          return true;
+
+    return false;
+  }
+
   // Output the current touch and any rotations of it.
   void output_touch( outputer &output, size_t cur )
   {
@@ -347,7 +361,7 @@ private:
              && is_really_canonical( cur ) )
 	  output_touch( output, cur );
       }
-    else if ( depth < lenrange.second )
+    else if ( depth < lenrange.second && !is_false_between_parts( r ) )
       {
 	leads[r.index()] = true;
 	calls.push_back( 0 );
@@ -383,6 +397,7 @@ private:
   lead_vector_t leads;			// The leads had so far
   vector< post_col_t > call_lhs;	// The effect of each call (inc. Pl.)
   vector< post_col_t > falsenesses;	// The falsenesses of the method
+  vector< post_col_t > part_falsenesses; // ... other than the trivial one
 };
 
 search_base::context_base *table_search::new_context() const 
-- 
2.43.0


From 6de8b531b28d91612784e028b9cd49f7d0eaa90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:10 +0000
Subject: [PATCH 61/75] fix: table_search rotates blocks that do not come
 round, giving false touches

---
 ringing/table_search.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/ringing/table_search.cpp b/ringing/table_search.cpp
index aeef505..e429ae2 100644
--- a/ringing/table_search.cpp
+++ b/ringing/table_search.cpp
@@ -294,7 +294,7 @@ private:
     force_halt = output( t );
 
     // Try all of it's distinguishable rotations.
-    if ( !(f & ignore_rotations) && table.partends().size() == 1 ) {
+    if ( !(f & ignore_rotations) && uses_rotations() ) {
       size_t parts( len % cur ? cur : len / cur );
       for ( size_t start = 1; !force_halt && start < len / parts; ++start ) {
         ch.splice( ch.end(), ch, ch.begin() );
@@ -303,6 +303,14 @@ private:
     }
   }
 
+  // Multipart comps are always canonical (because we don't prune rotations
+  // from multi-part searches), and so are blocks that might not be round 
+  // (because their rotations are not necessarily true).
+  bool uses_rotations() const
+  {
+    return table.partends().size() == 1 && !(f & non_round_blocks);
+  }
+
   // A touch, T, is in canonical form if there exists no rotation of T
   // that is lexicographically less than T.
 
@@ -313,8 +321,7 @@ private:
     if ( calls.empty() )
       return true;
 
-    // Multipart comps are always canonical 
-    if ( table.partends().size() > 1 ) return true;
+    if ( !uses_rotations() ) return true;
 
     if ( cur == 0 || calls.back() > calls[ calls.size() - 1 - cur ] )
       cur = calls.size();
@@ -329,9 +336,7 @@ private:
   // is_possibly_canonical() returns true is a canonical complete touch.
   bool is_really_canonical( size_t cur )
   {
-    // Multipart comps are always canonical (because we don't prue rotations
-    // from multi-part searches)
-    if ( table.partends().size() > 1 ) return true;
+    if ( !uses_rotations() ) return true;
 
     // It must consist of a whole number of its shortest period.
     return calls.size() % cur == 0;
-- 
2.43.0


From 2e61c227a8ca83f41d9b5c3f8a1c26463905cb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:36 +0000
Subject: [PATCH 62/75] fix: gsiril: read the upper limit of "M to N rows"

---
 apps/gsiril/parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/gsiril/parser.cpp b/apps/gsiril/parser.cpp
index 3414319..d9ff93e 100644
--- a/apps/gsiril/parser.cpp
+++ b/apps/gsiril/parser.cpp
@@ -401,7 +401,7 @@ statement msparser::parse_command( vector<token> const& cmd ) {
        && cmd[2].type() == tok_types::num_lit
        && cmd[3].type() == tok_types::name && cmd[3] == "rows" )
     return statement( new rows_stmt( string_to_int(cmd[0]),
-                                     string_to_int(cmd[1]) ) );
+                                     string_to_int(cmd[2]) ) );
 
   // Rounds directive
   if ( cmd.size() == 2 && cmd[0].type() == tok_types::name 
-- 
2.43.0


From acd8cc646ff9a70107983c74858871f2ac5c2634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:36 +0000
Subject: [PATCH 63/75] fix: gsiril: make the arithmetic operators left
 associative

---
 apps/gsiril/parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/gsiril/parser.cpp b/apps/gsiril/parser.cpp
index d9ff93e..d231285 100644
--- a/apps/gsiril/parser.cpp
+++ b/apps/gsiril/parser.cpp
@@ -839,7 +839,7 @@ msparser::make_expr( vector< token >::const_iterator first,
   vector<tok_types::enum_t> addops;
   addops.push_back( tok_types::plus );
   addops.push_back( tok_types::minus );
-  if ( find_one_of( first, last, addops, split ) ) {
+  if ( find_one_of( first, last, addops, split, find_last ) ) {
     if ( split->type() == tok_types::plus ) {
       check_bin_op( first, split, last, "+" );
       return expression( new add_node( make_expr( first, split ),
@@ -857,7 +857,7 @@ msparser::make_expr( vector< token >::const_iterator first,
   multops.push_back( tok_types::append );
   multops.push_back( tok_types::divide );
   multops.push_back( tok_types::modulo );
-  if ( find_one_of( first, last, multops, split ) ) {
+  if ( find_one_of( first, last, multops, split, find_last ) ) {
     switch ( split->type() ) {
       case tok_types::modulo:
         check_bin_op( first, split, last, "%" );
-- 
2.43.0


From 18603b480973b3fb4f1d75be9538876a12406560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:36 +0000
Subject: [PATCH 64/75] fix: gsiril: count each node once towards the node
 limit

---
 apps/gsiril/execution_context.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/apps/gsiril/execution_context.cpp b/apps/gsiril/execution_context.cpp
index c10ec4d..715d864 100644
--- a/apps/gsiril/execution_context.cpp
+++ b/apps/gsiril/execution_context.cpp
@@ -148,7 +148,6 @@ bool execution_context::define_symbol( const pair< const string, expression > &d
 
 void execution_context::increment_node_count() const
 {
-  ++node_count;
   if (++node_count == args.node_limit)
     throw runtime_error("Node count exceeded");
 }
-- 
2.43.0


From f63aad667626847a7a03fa98c4171c91f686ecd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:36 +0000
Subject: [PATCH 65/75] fix: gsiril: allow at() to be given the last place

---
 apps/gsiril/functions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/gsiril/functions.cpp b/apps/gsiril/functions.cpp
index 608c858..21102d5 100644
--- a/apps/gsiril/functions.cpp
+++ b/apps/gsiril/functions.cpp
@@ -46,7 +46,7 @@ class at_fn_impl : public fnnode {
     if (args.size() != 1)
       throw runtime_error("The at function takes one argument");
     int idx = args[0].int_evaluate(ctx);
-    if (idx < 1 || idx >= ctx.bells())
+    if (idx < 1 || idx > ctx.bells())
       throw runtime_error("Argument out of range in at function");
     row const& r = ctx.current_row();
     int rv = idx > r.bells() ? idx : r[idx-1]+1;
-- 
2.43.0


From 2f038cb392450c272874133598330b2a6886ed74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:36 +0000
Subject: [PATCH 66/75] fix: gsiril: make crus() count CRUs

---
 apps/gsiril/functions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/gsiril/functions.cpp b/apps/gsiril/functions.cpp
index 21102d5..f7038b6 100644
--- a/apps/gsiril/functions.cpp
+++ b/apps/gsiril/functions.cpp
@@ -258,7 +258,7 @@ void register_functions( execution_context& ectx )
   ectx.define_symbol( pair< const string, expression >
     ( "backruns", expression( new runs_impl( music::at_back ) ) ) );
   ectx.define_symbol( pair< const string, expression >
-    ( "crus", expression( new runs_impl ) ) );
+    ( "crus", expression( new crus_impl ) ) );
   ectx.define_symbol( pair< const string, expression >
     ( "methname", expression( new methname_impl ) ) );
   ectx.define_symbol( pair< const string, expression >
-- 
2.43.0


From 26a3b71c79182f2376a6b959096dadcd5272d6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:28 +0000
Subject: [PATCH 67/75] fix: methsearch: masks and prefixes are ignored in the
 parts of the lead given by symmetry

---
 apps/methsearch/search.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 9a5b083..73e2864 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -95,6 +95,7 @@ private:
   bool try_with_limited_le( const change& ch );
   bool try_floating_symmetry();
 
+  bool are_changes_allowed() const;
   bool is_acceptable_method();
   void output_method( method const& meth );
 
@@ -425,8 +426,26 @@ private:
   row r;
 };
 
+// The changes that a symmetry determines are not chosen from the lists of
+// allowed changes, so whether they are in them is tested here.
+bool searcher::are_changes_allowed() const
+{
+  for ( size_t i=0; i<m.size(); ++i ) {
+    vector<change> const& allowed = args.allowed_changes.at
+      ( args.hunt_bells || lead_len ? i : i % 2 );
+    if ( find( allowed.begin(), allowed.end(), m[i] ) == allowed.end() )
+      return false;
+    if ( i < args.prefix.size() && m[i] != args.prefix[i] )
+      return false;
+  }
+  return true;
+}
+
 bool searcher::is_acceptable_method()
 {
+  if ( ! are_changes_allowed() )
+    return false;
+
   if ( lexicographical_compare( m.begin(), m.end(), 
            args.startmeth.begin(), args.startmeth.end(),
            compare_changes ) )
-- 
2.43.0


From 5f9cb57e0fbd77172e579415d97a34af5e364fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:28 +0000
Subject: [PATCH 68/75] fix: methsearch: repeated changes are listed if
 symmetry gives the second of them

---
 apps/methsearch/search.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 73e2864..80348f0 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -446,6 +446,11 @@ bool searcher::is_acceptable_method()
   if ( ! are_changes_allowed() )
     return false;
 
+  if ( args.true_trivial )
+    for ( size_t i=1; i<m.size(); ++i )
+      if ( m[i] == m[i-1] )
+        return false;
+
   if ( lexicographical_compare( m.begin(), m.end(), 
            args.startmeth.begin(), args.startmeth.end(),
            compare_changes ) )
-- 
2.43.0


From 1e113beaf197d824c3db5be4f63cf620fa139ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:28 +0000
Subject: [PATCH 69/75] fix: methsearch: too many blows across the lead end or
 symmetry points are allowed

---
 apps/methsearch/search.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 80348f0..acf3db3 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -451,6 +451,10 @@ bool searcher::is_acceptable_method()
       if ( m[i] == m[i-1] )
         return false;
 
+  if ( args.max_consec_blows && !args.long_le_place &&
+       m.size() && m.maxblows() > args.max_consec_blows )
+    return false;
+
   if ( lexicographical_compare( m.begin(), m.end(), 
            args.startmeth.begin(), args.startmeth.end(),
            compare_changes ) )
-- 
2.43.0


From 1cb7157f23f7da8b8d9cd9003ca5ede7128c89d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:28 +0000
Subject: [PATCH 70/75] fix: methsearch: --changes does not exclude the crosses
 of right place principles

---
 apps/methsearch/mask.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/apps/methsearch/mask.cpp b/apps/methsearch/mask.cpp
index 9d95256..0ce855f 100644
--- a/apps/methsearch/mask.cpp
+++ b/apps/methsearch/mask.cpp
@@ -541,7 +541,12 @@ void select_changes_prin( const arguments& args, vector<change>& changes,
 {
   if ( args.right_place && args.bells % 2 == 0 && i % 2 == 0 ) {
     // Handle -w
-    changes.push_back( change( args.bells, "-" ) );
+    const change ch( args.bells, "-" );
+
+    // Handle --changes
+    if ( args.changes.empty() || args.include_changes
+         == ( args.changes.find(ch) != args.changes.end() ) )
+      changes.push_back(ch);
   }
 
   else {
-- 
2.43.0


From 9abbc76d6f42ed654dd30cbc7e303694ad76a5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:28 +0000
Subject: [PATCH 71/75] fix: methsearch: masks for principles only use their
 first change

---
 apps/methsearch/mask.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/apps/methsearch/mask.cpp b/apps/methsearch/mask.cpp
index 0ce855f..a72da78 100644
--- a/apps/methsearch/mask.cpp
+++ b/apps/methsearch/mask.cpp
@@ -822,15 +822,18 @@ bool parse_mask( arguments &args )
   assert( above.size() == size_t(lead_len) );
   assert( below.size() == size_t(lead_len) );
 
+  // The possibilities for a ? recur with this period in a principle
+  int const period = args.right_place ? 2 : 1;
+
   for ( int i=0; i<lead_len; ++i ) {
     // Don't recalculate for every place in a principle: this is very 
     // inefficient when doing -IAU0 -Fx type filters.
-    if (args.hunt_bells 
-         || args.allowed_changes.size() < (args.right_place ? 2 : 1)) 
+    if (args.hunt_bells || !above[i].empty()
+         || i < period || !above[i-period].empty()) 
       args.allowed_changes.push_back( vector<change>() );
     else 
       args.allowed_changes.push_back( 
-        args.allowed_changes[args.right_place ? i%2 : 0] );
+        args.allowed_changes[i-period] );
 
     vector<change>& changes_to_try = args.allowed_changes.back();
 
-- 
2.43.0


From b55846c67f75063ed90befabb5d5a4b6c53938b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:09 +0000
Subject: [PATCH 72/75] fix: methsearch: -y takes the lead-end change to be in
 a dodging position if there are several dodges

---
 apps/methsearch/search.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index acf3db3..2db58f8 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -712,8 +712,9 @@ inline int searcher::get_posn() const
 
   const size_t depth = m.length();
 
-  // Reflect about the half-lead:
-  size_t posn = depth >= lead_len/2 ? lead_len - depth - 2 : depth;
+  // Reflect about the half-lead (and the lead-end change about itself):
+  size_t posn = depth >= lead_len/2 && depth != lead_len-1 
+    ? lead_len - depth - 2 : depth;
   
   if ( posn % div_len == div_len - 1 )
     return args.treble_front-1 + posn / div_len * 2 + 1;
-- 
2.43.0


From 0d92d3802b755d314d1e40897b6bdf38b8488d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:15 +0000
Subject: [PATCH 73/75] fix: methsearch: --start-at skips methods if symmetry
 gives part of the lead, or its method is not found

---
 apps/methsearch/search.cpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 2db58f8..05c0ea2 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -117,7 +117,6 @@ private:
   RINGING_ULLONG search_count;
   RINGING_ULLONG node_count;
 
-  vector<change> startmeth;
   method filter_method;
   string filter_payload;
   size_t div_start;  // The index (into m) of the row of the division
@@ -140,9 +139,6 @@ searcher::searcher( arguments &args )
     args.orig_lead_len = args.lead_len;
 
   reset();
-
-  copy( args.startmeth.rbegin(), args.startmeth.rend(), 
-        back_inserter(startmeth) );
 }
 
 void searcher::init() {
@@ -1185,10 +1181,9 @@ void searcher::new_midlead_change()
   // If we're starting at a particular point (with --start), find out
   // what that change is.
   change first;
-  if ( startmeth.size() ) {
-    first = startmeth.back();
-    startmeth.pop_back();
-  }
+  if ( m.size() < args.startmeth.size() 
+       && equal( m.begin(), m.end(), args.startmeth.begin() ) )
+    first = args.startmeth[m.size()];
 
   for ( vector<change>::const_iterator 
           i( changes_to_try.begin() ), e( changes_to_try.end() ); 
-- 
2.43.0


From decdfaa911f3391e78f0f6760634a6d5a9e93c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:00 +0000
Subject: [PATCH 74/75] fix: shared_pointer::reset dereferences a null
 reference count when memory runs out

---
 ringing/pointers.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/pointers.h b/ringing/pointers.h
index 7190ae2..045f707 100644
--- a/ringing/pointers.h
+++ b/ringing/pointers.h
@@ -248,7 +248,7 @@ public:
     else if ( rc && !--*rc ) { deletor(ptr); }
 # if RINGING_USE_EXCEPTIONS
     else try { rc = new int(0); } 
-    catch (...) { ++*rc; delete src; throw; } 
+    catch (...) { if ( rc ) ++*rc; delete src; throw; } 
 # else
     else { rc = new int(0); }
 # endif
-- 
2.43.0


From bb4c6f2fc7ad8f5edb67d03e3bcd59081080cfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:08 +0000
Subject: [PATCH 75/75] fix: methsearch: reserve room for the method when its
 length comes from the input

With no --length, the method being built was reallocated while references
to its changes were in use, reading freed memory under the symmetry options.
---
 apps/methsearch/search.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 05c0ea2..5c3c29d 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -218,6 +218,7 @@ void searcher::filter( library const& in )
         continue;
       if ( !args.orig_lead_len ) {
         lead_len = args.lead_len = filter_method.length();
+        m.reserve( lead_len ); // m must not be reallocated while searching
         if ( !parse_mask(args) ) 
           continue;
       }
-- 
2.43.0

