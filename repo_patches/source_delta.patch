From efdc459adbbe431e873f3d70c135a0725161c9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:29 +0000
Subject: [PATCH 001/135] fix: circular_deque iterator post-increment returned
 a reference to a local

---
 xo/container/circular_deque.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/container/circular_deque.h b/xo/container/circular_deque.h
index ea89fb9..54f295b 100644
--- a/xo/container/circular_deque.h
+++ b/xo/container/circular_deque.h
@@ -55,7 +55,7 @@ namespace xo
 			using reference = IT&;
 			iterator_impl( size_t index, const buffer_type& buffer ) : index_( index ), buffer_( buffer ) {}
 			iterator_impl< IT >& operator++() { ++index_; return *this; }
-			iterator_impl< IT >& operator++( int ) { auto ret = *this; ++index_; return ret; }
+			iterator_impl< IT > operator++( int ) { auto ret = *this; ++index_; return ret; }
 			iterator_impl< IT > operator+( int v ) const { return iterator_impl< IT >( index_ + v, buffer_ ); }
 			iterator_impl< IT > operator-( int v ) const { return iterator_impl< IT >( index_ - v, buffer_ ); }
 			auto operator-( const iterator_impl< IT >& other ) const { return index_ - other.index_; }
-- 
2.43.0


From d51fdd4a9e9006ec9bcf806cbaa1db9c6306c41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:29 +0000
Subject: [PATCH 002/135] fix: const circular_deque::back() returned the
 element after the last

---
 xo/container/circular_deque.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/container/circular_deque.h b/xo/container/circular_deque.h
index 54f295b..b9d2a81 100644
--- a/xo/container/circular_deque.h
+++ b/xo/container/circular_deque.h
@@ -32,7 +32,7 @@ namespace xo
 		void pop_front() { xo_assert( size_ > 0 ); front_ = ( front_ + 1 ) % capacity(); --size_; }
 
 		T& back() { xo_assert( size_ > 0 ); return buffer_[( front_ + size_ - 1 ) % capacity()]; }
-		const T& back() const { xo_assert( size_ > 0 ); return buffer_[( front_ + size_ ) % capacity()]; }
+		const T& back() const { xo_assert( size_ > 0 ); return buffer_[( front_ + size_ - 1 ) % capacity()]; }
 
 		T& front() { xo_assert( size_ > 0 ); return buffer_[front_]; }
 		const T& front() const { xo_assert( size_ > 0 ); return buffer_[front_]; }
-- 
2.43.0


From 9d5fc72075d317915c236c6f6a1aff5939828ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:29 +0000
Subject: [PATCH 003/135] fix: circular_deque::push_back inserted past the end
 when growing a wrapped buffer

---
 xo/container/circular_deque.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xo/container/circular_deque.h b/xo/container/circular_deque.h
index b9d2a81..020adae 100644
--- a/xo/container/circular_deque.h
+++ b/xo/container/circular_deque.h
@@ -17,8 +17,9 @@ namespace xo
 		~circular_deque() {}
 
 		void push_back( const T& value ) {
-			if ( ++size_ > capacity() ) buffer_.insert( buffer_.begin() + ( front_ + size_ - 1 ), value );
-			else back() = value;
+			if ( ++size_ <= capacity() ) back() = value;
+			else if ( front_ == 0 ) buffer_.push_back( value );
+			else buffer_.insert( buffer_.begin() + front_++, value );
 		}
 		void push_front( const T& value ) {
 			if ( ++size_ > capacity() ) buffer_.insert( buffer_.begin() + front_, value );
-- 
2.43.0


From 381c098f6b548771443744e13ea4ebba174adee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:29 +0000
Subject: [PATCH 004/135] fix: circular_deque::reserve lost elements of a
 wrapped buffer

---
 xo/container/circular_deque.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/xo/container/circular_deque.h b/xo/container/circular_deque.h
index 020adae..195ed2d 100644
--- a/xo/container/circular_deque.h
+++ b/xo/container/circular_deque.h
@@ -2,6 +2,7 @@
 
 #include "xo/xo_types.h"
 #include "xo/system/assert.h"
+#include <algorithm>
 #include <vector>
 
 namespace xo
@@ -44,7 +45,13 @@ namespace xo
 		bool full() const { return size() == capacity(); }
 		void clear() { front_ = size_ = 0; }
 
-		void reserve( size_t s ) { buffer_.resize( s ); }
+		void reserve( size_t s ) {
+			if ( s > capacity() ) {
+				std::rotate( buffer_.begin(), buffer_.begin() + front_, buffer_.end() );
+				front_ = 0;
+				buffer_.resize( s );
+			}
+		}
 		size_t capacity() const { return buffer_.size(); }
 
 		template< typename IT > struct iterator_impl
-- 
2.43.0


From 5f0e206fa2fd77c7c1535ad233806ca8e68a2b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:11 +0000
Subject: [PATCH 005/135] fix: flat_map built from a list with repeated keys
 kept the duplicates

---
 xo/container/flat_map.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xo/container/flat_map.h b/xo/container/flat_map.h
index 7c8a95e..a76d47b 100644
--- a/xo/container/flat_map.h
+++ b/xo/container/flat_map.h
@@ -129,7 +129,8 @@ namespace xo
 	private:
 		container_t data_;
 		void sort() {
-			std::sort( data_.begin(), data_.end(), [&]( const value_type& a, const value_type& b ) { return a.first < b.first; } );
+			std::stable_sort( data_.begin(), data_.end(), [&]( const value_type& a, const value_type& b ) { return a.first < b.first; } );
+			data_.erase( std::unique( data_.begin(), data_.end(), [&]( const value_type& a, const value_type& b ) { return a.first == b.first; } ), data_.end() );
 		}
 	};
 
-- 
2.43.0


From b18c31d99c94fc82f13b8a45fe0676e30c24d0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:11 +0000
Subject: [PATCH 006/135] fix: flat_set built from a list with repeated keys
 kept the duplicates

---
 xo/container/flat_set.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xo/container/flat_set.h b/xo/container/flat_set.h
index 370019b..d2bbf39 100644
--- a/xo/container/flat_set.h
+++ b/xo/container/flat_set.h
@@ -106,6 +106,7 @@ namespace xo
 		container_t data_;
 		void sort() {
 			std::sort( data_.begin(), data_.end(), [&]( const key_type& a, const key_type& b ) { return a < b; } );
+			data_.erase( std::unique( data_.begin(), data_.end() ), data_.end() );
 		}
 	};
 
-- 
2.43.0


From 5c5f379a979fa89d3c2a649085816ec9832e0d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:46 +0000
Subject: [PATCH 007/135] fix: indexed_set::get_or_add added the value before
 reporting an overflow

---
 xo/container/indexed_set.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xo/container/indexed_set.h b/xo/container/indexed_set.h
index 61ea1cd..e686fbc 100644
--- a/xo/container/indexed_set.h
+++ b/xo/container/indexed_set.h
@@ -26,10 +26,10 @@ namespace xo
 		I get_or_add( const T& value ) {
 			auto it = indices_.find( value );
 			if ( it == indices_.end() ) { // add new
-				values_.push_back( value );
-				auto index = values_.size() - 1;
+				auto index = values_.size();
 				// check if the index is valid (must be SMALLER than max to avoid sentinel)
 				xo_error_if( index >= size_t( constants<I>::max() ), "index_set overflow" );
+				values_.push_back( value );
 				return indices_[value] = static_cast<I>( index );
 			}
 			else return it->second; // get existing
-- 
2.43.0


From 3cf30dcd664eecbe99b5755b00aa996bba095d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:22 +0000
Subject: [PATCH 008/135] fix: reporting unaccessed entries marked the reported
 nodes as accessed

---
 xo/container/prop_node_tools.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/xo/container/prop_node_tools.cpp b/xo/container/prop_node_tools.cpp
index ffec57c..1927a90 100644
--- a/xo/container/prop_node_tools.cpp
+++ b/xo/container/prop_node_tools.cpp
@@ -45,8 +45,10 @@ namespace xo
 	{
 		if ( pn.size() > 0 )
 		{
-			for ( auto& n : pn )
+			// iterating a node marks it as accessed, at() does not
+			for ( index_t i = 0; i < pn.size(); ++i )
 			{
+				auto& n = pn.at( i );
 				if ( n.second.count_unaccessed() > 0 )
 				{
 					string str = string( depth * 2, ' ' ) + n.first;
@@ -67,8 +69,10 @@ namespace xo
 	{
 		if ( pn.size() > 0 )
 		{
-			for ( auto& n : pn )
+			// iterating a node marks it as accessed, at() does not
+			for ( index_t i = 0; i < pn.size(); ++i )
 			{
+				auto& n = pn.at( i );
 				if ( n.second.count_unaccessed() > 0 )
 				{
 					str += string( depth * 2, ' ' ) + n.first;
-- 
2.43.0


From 705c464576c7b551a9becbe70da013c1162a0871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:16 +0000
Subject: [PATCH 009/135] fix: decode_char reported zero length for a lone
 backslash, so quoted text ending in one was read forever

---
 xo/string/string_tools.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xo/string/string_tools.cpp b/xo/string/string_tools.cpp
index ce39b70..71f5bfa 100644
--- a/xo/string/string_tools.cpp
+++ b/xo/string/string_tools.cpp
@@ -307,9 +307,9 @@ namespace xo
 	char decode_char( const char* buf, size_t buf_size, int* len )
 	{
 		xo_error_if( buf_size == 0, "Invalid buffer size" );
-		*len = 0;
+		*len = 1;
 		if ( *buf != '\\' || buf_size == 1 )
-			return *buf;
+			return *buf; // nothing to decode
 
 		*len = 2;
 		switch ( *( ++buf ) )
-- 
2.43.0


From 67a4cab7443044984fd4df25cb8e70c3409cb117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:16 +0000
Subject: [PATCH 010/135] fix: decode_char could not decode the code that
 encode_char makes for the zero character

---
 xo/string/string_tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/string/string_tools.cpp b/xo/string/string_tools.cpp
index 71f5bfa..9162494 100644
--- a/xo/string/string_tools.cpp
+++ b/xo/string/string_tools.cpp
@@ -331,7 +331,7 @@ namespace xo
 					value = value * 8 + *buf++ - '0';
 				else break;
 			}
-			if ( *len > 1 && value > 0 && value < 32 )
+			if ( *len > 1 && value < 32 )
 				return char( value ); // we read a valid char
 			else return '?'; // no valid char could be read
 		}
-- 
2.43.0


From b7e7a3c529deb66e26ed7b6ebf41d8bcd4236e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:16 +0000
Subject: [PATCH 011/135] fix: quoting garbled characters above 127

---
 xo/string/string_tools.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xo/string/string_tools.cpp b/xo/string/string_tools.cpp
index 9162494..0a5a0e3 100644
--- a/xo/string/string_tools.cpp
+++ b/xo/string/string_tools.cpp
@@ -291,7 +291,7 @@ namespace xo
 			return "\\\"";
 		else if ( c == '\\' )
 			return "\\\\";
-		else if ( c < 32 )
+		else if ( static_cast<unsigned char>( c ) < 32 )
 		{
 			switch ( c )
 			{
@@ -343,7 +343,7 @@ namespace xo
 		string sout = "\"";
 		for ( const char& c : s )
 		{
-			if ( c == '\"' || c == '\\' || c < 32 )
+			if ( c == '\"' || c == '\\' || static_cast<unsigned char>( c ) < 32 )
 				sout += encode_char( c );
 			else sout += c;
 		}
@@ -354,7 +354,7 @@ namespace xo
 	bool needs_quotes( const string& s, const char* special_chars )
 	{
 		for ( const char& c : s )
-			if ( c < 33 || c == '\"' || strchr( special_chars, c ) )
+			if ( static_cast<unsigned char>( c ) < 33 || c == '\"' || strchr( special_chars, c ) )
 				return true;
 		return s.empty();
 	}
-- 
2.43.0


From 8bf034889065ac050a7bd99699dcf409516065e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:16 +0000
Subject: [PATCH 012/135] fix: try_unquoted read past the end of a string whose
 last quote is escaped

---
 xo/string/string_tools.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xo/string/string_tools.cpp b/xo/string/string_tools.cpp
index 0a5a0e3..d63a441 100644
--- a/xo/string/string_tools.cpp
+++ b/xo/string/string_tools.cpp
@@ -368,11 +368,11 @@ namespace xo
 
 	string try_unquoted( const string& s )
 	{
-		if ( s.empty() || s.front() != '\"' || s.back() != '\"' )
+		if ( s.size() < 2 || s.front() != '\"' || s.back() != '\"' )
 			return s; // no quotes
 
 		string sout;
-		for ( auto it = s.begin() + 1; *it != '\"'; ++it )
+		for ( auto it = s.begin() + 1; it != s.end() && *it != '\"'; ++it )
 		{
 			if ( *it == '\\' )
 			{
-- 
2.43.0


From b0e02f25b5c1889b4d905dfd762432d1dc6c9822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:05 +0000
Subject: [PATCH 013/135] fix: a quoted string without closing quote was read
 as if complete, with a zero character appended

---
 xo/serialization/char_stream.cpp              | 9 +++++++--
 xo/serialization/prop_node_serializer_zml.cpp | 2 ++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/xo/serialization/char_stream.cpp b/xo/serialization/char_stream.cpp
index e153bc6..06a9032 100644
--- a/xo/serialization/char_stream.cpp
+++ b/xo/serialization/char_stream.cpp
@@ -77,10 +77,15 @@ namespace xo
 				// this is a part between quotes and must be decoded
 				cur_pos = cur_pos_end;
 				char quote_char = getc();
-				while ( good() )
+				while ( true )
 				{
 					char c = peekc();
-					if ( c == quote_char ) // end of quote
+					if ( eof() )
+					{
+						buffer_flags.set< fail_flag >(); // there is no closing quote
+						break;
+					}
+					else if ( c == quote_char ) // end of quote
 					{
 						getc();
 						break;
diff --git a/xo/serialization/prop_node_serializer_zml.cpp b/xo/serialization/prop_node_serializer_zml.cpp
index c3bc481..8d51c66 100644
--- a/xo/serialization/prop_node_serializer_zml.cpp
+++ b/xo/serialization/prop_node_serializer_zml.cpp
@@ -30,6 +30,8 @@ namespace xo
 		while ( true )
 		{
 			string t = str.get_token();
+			if ( str.fail() )
+				return zml_error( str, ec, "Missing closing quote" ), string();
 			if ( t == "#" || t == "//" ) {
 				// single line comment
 				str.get_line(); 
-- 
2.43.0


From e18b29fbb503e8747f0d8c39b3a1e099176bb3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:05 +0000
Subject: [PATCH 014/135] fix: an empty quoted string directly followed by an
 operator was read as that operator

---
 xo/serialization/char_stream.cpp | 4 +++-
 xo/serialization/char_stream.h   | 4 ++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/xo/serialization/char_stream.cpp b/xo/serialization/char_stream.cpp
index 06a9032..8facfd7 100644
--- a/xo/serialization/char_stream.cpp
+++ b/xo/serialization/char_stream.cpp
@@ -62,6 +62,7 @@ namespace xo
 	{
 		skip_delimiters();
 		string s;
+		token_quoted_ = false;
 		cur_pos_end = const_cast<char*>( cur_pos );
 		while ( good() )
 		{
@@ -76,6 +77,7 @@ namespace xo
 			{
 				// this is a part between quotes and must be decoded
 				cur_pos = cur_pos_end;
+				token_quoted_ = true;
 				char quote_char = getc();
 				while ( true )
 				{
@@ -102,7 +104,7 @@ namespace xo
 			}
 			else if ( auto opstr = check_operator( cur_pos_end ) ) // check for operator
 			{
-				if ( cur_pos == cur_pos_end && s.empty() )
+				if ( cur_pos == cur_pos_end && s.empty() && !token_quoted_ )
 				{
 					s = *opstr; // token is an operator
 					cur_pos += opstr->length();
diff --git a/xo/serialization/char_stream.h b/xo/serialization/char_stream.h
index 2763bd4..e948687 100644
--- a/xo/serialization/char_stream.h
+++ b/xo/serialization/char_stream.h
@@ -50,6 +50,9 @@ namespace xo
 		string get_line();
 		string get_token();
 
+		/// true if (part of) the last token was between quotes
+		bool token_quoted() const { return token_quoted_; }
+
 		char getc() { if ( !test_eof() ) return *cur_pos++; else return '\0'; }
 		char peekc() { if ( !test_eof() ) return *cur_pos; else return '\0'; }
 
@@ -81,6 +84,7 @@ namespace xo
 		std::vector< string > operators_;
 		string delimiters_;
 		string quotations_;
+		bool token_quoted_ = false;
 
 		enum buffer_flag { fail_flag, eof_flag };
 		flag_set< buffer_flag > buffer_flags;
-- 
2.43.0


From a3afdaa889a750615b4a4c1dbd0941e455f6e648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:42 +0000
Subject: [PATCH 015/135] fix: char_stream dropped the characters of a token
 before an opening quote

---
 xo/serialization/char_stream.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xo/serialization/char_stream.cpp b/xo/serialization/char_stream.cpp
index 8facfd7..85ffcdb 100644
--- a/xo/serialization/char_stream.cpp
+++ b/xo/serialization/char_stream.cpp
@@ -76,6 +76,7 @@ namespace xo
 			else if ( strchr( quotations_.c_str(), *cur_pos_end ) ) // check for quote
 			{
 				// this is a part between quotes and must be decoded
+				s += string( cur_pos, size_t( cur_pos_end - cur_pos ) );
 				cur_pos = cur_pos_end;
 				token_quoted_ = true;
 				char quote_char = getc();
-- 
2.43.0


From e3fb9c92dad6c11789232b52ec72969d1cf8e655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:42 +0000
Subject: [PATCH 016/135] fix: quoted ZML text that equals an operator was read
 as that operator

---
 xo/serialization/prop_node_serializer_zml.cpp | 34 +++++++++++++------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/xo/serialization/prop_node_serializer_zml.cpp b/xo/serialization/prop_node_serializer_zml.cpp
index 8d51c66..533155a 100644
--- a/xo/serialization/prop_node_serializer_zml.cpp
+++ b/xo/serialization/prop_node_serializer_zml.cpp
@@ -32,7 +32,9 @@ namespace xo
 			string t = str.get_token();
 			if ( str.fail() )
 				return zml_error( str, ec, "Missing closing quote" ), string();
-			if ( t == "#" || t == "//" ) {
+			if ( str.token_quoted() )
+				return t; // quoted text is never a comment
+			else if ( t == "#" || t == "//" ) {
 				// single line comment
 				str.get_line(); 
 			}
@@ -50,13 +52,17 @@ namespace xo
 		// keep track of the number of macros so we can delete them at the end of this scope
 		auto macro_count = macros.size();
 
+		// the last token, and a check if it is a specific operator: quoted text never is
+		string t;
+		auto is_op = [&]( const char* op ) { return !str.token_quoted() && t == op; };
+
 		// iterate over all items in this scope
-		for ( string t = get_zml_token( str, ec ); t != close; t = get_zml_token( str, ec ) )
+		for ( t = get_zml_token( str, ec ); !is_op( close.c_str() ); t = get_zml_token( str, ec ) )
 		{
-			if ( t.empty() ) // check if the stream has ended while expecting a close tag
+			if ( is_op( "" ) ) // check if the stream has ended while expecting a close tag
 				return zml_error( str, ec, "Unexpected end of stream" );
 
-			if ( t == "<<" ) // check directive statement
+			if ( is_op( "<<" ) ) // check directive statement
 			{
 				auto filename = path( get_zml_token( str, ec ) );
 				if ( get_zml_token( str, ec ) != ">>" )
@@ -74,21 +80,27 @@ namespace xo
 				// check if we're reading an array or if this is a label
 				if ( close != "]" )
 				{
-					if ( t != "{" && t != "[" )
+					if ( !is_op( "{" ) && !is_op( "[" ) )
 					{
 						// t is a label
-						if ( t[0] == '$' )
+						if ( t.empty() )
+							return zml_error( str, ec, "Invalid label" );
+						else if ( t[0] == '$' )
 							next_parent = &macros.add_child( t ); // add macro
-						else if ( !isgraph( t[0] ) )
+						else if ( !str.token_quoted() && static_cast<unsigned char>( t[0] ) < 128 && !isgraph( t[0] ) )
 							return zml_error( str, ec, "Invalid label " + t );
 						else
 							next_parent = &parent.add_child( t ); // add new item
 
 						// read = or :
 						t = get_zml_token( str, ec );
-						if ( t == "=" || t == ": " )
+						if ( is_op( "=" ) || is_op( ": " ) )
+						{
 							t = get_zml_token( str, ec );
-						else if ( t != "{" && t != "[" )
+							if ( is_op( "" ) )
+								return zml_error( str, ec, "Unexpected end of stream" );
+						}
+						else if ( !is_op( "{" ) && !is_op( "[" ) )
 							return zml_error( str, ec, "Expected '=', ':', '{' or '['" );
 					}
 					else
@@ -102,9 +114,9 @@ namespace xo
 				else next_parent = &parent.add_child( "" ); // add array child
 
 				// parse value element after
-				if ( t == "{" ) // new group
+				if ( is_op( "{" ) ) // new group
 					read_zml_layer( str, *next_parent, "}", ec, folder, included_files, root, macros );
-				else if ( t == "[" ) // new array
+				else if ( is_op( "[" ) ) // new array
 					read_zml_layer( str, *next_parent, "]", ec, folder, included_files, root, macros );
 				else if ( str_begins_with( t, '@' ) )
 				{
-- 
2.43.0


From be6ab7d192998e461c22bc511e5f8f40a212f64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:42 +0000
Subject: [PATCH 017/135] fix: ZML writer did not quote text that contains '=',
 ':' or a single quote

---
 xo/serialization/prop_node_serializer_zml.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/xo/serialization/prop_node_serializer_zml.cpp b/xo/serialization/prop_node_serializer_zml.cpp
index 533155a..cfaad28 100644
--- a/xo/serialization/prop_node_serializer_zml.cpp
+++ b/xo/serialization/prop_node_serializer_zml.cpp
@@ -180,17 +180,20 @@ namespace xo
 		return parse_zml( stream, ec, path() );
 	}
 
+	// characters that have a meaning to the reader, strings that contain these must be quoted
+	const char* zml_special_chars = "{}[]#<>\\/=:'";
+
 	void write_zml_kvp( std::ostream& str, const string& label, const prop_node& pn, const char* equals_str, bool inside_array )
 	{
 		bool show_label = !label.empty();
 		bool show_value = !pn.get_str().empty() || pn.size() == 0;
 		xo_error_if( !show_label && show_value && !inside_array, "Value without label outside array" );
 		if ( show_label )
-			str << try_quoted( label, "{}[]#<>\\/" );
+			str << try_quoted( label, zml_special_chars );
 		if ( show_label && show_value )
 			str << equals_str;
 		if ( show_value )
-			str << try_quoted( pn.get_str(), "{}[]#<>\\/" );
+			str << try_quoted( pn.get_str(), zml_special_chars );
 	}
 
 	void write_zml_node_one_line( std::ostream& str, const string& label, const prop_node& pn, bool inside_array )
-- 
2.43.0


From 974abe87a0a88594a195d31546e8fa04f52709cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:42 +0000
Subject: [PATCH 018/135] fix: writing an empty tree as concise ZML was an
 error

---
 xo/serialization/prop_node_serializer_zml.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xo/serialization/prop_node_serializer_zml.cpp b/xo/serialization/prop_node_serializer_zml.cpp
index cfaad28..7b205df 100644
--- a/xo/serialization/prop_node_serializer_zml.cpp
+++ b/xo/serialization/prop_node_serializer_zml.cpp
@@ -299,7 +299,8 @@ namespace xo
 	std::ostream& prop_node_serializer_zml_concise::write_stream( std::ostream& str ) const
 	{
 		xo_assert( write_pn_ );
-		write_zml_node_concise( str, "", *write_pn_, 0, false );
+		if ( !write_pn_->empty() )
+			write_zml_node_concise( str, "", *write_pn_, 0, false );
 		return str;
 	}
 
-- 
2.43.0


From dca33f2dc88b1369cdc8d63b3507637c11a4c600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:42 +0000
Subject: [PATCH 019/135] fix: inline use of a ZML macro marked the macro, and
 later copies of it, as accessed

---
 xo/serialization/prop_node_serializer_zml.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xo/serialization/prop_node_serializer_zml.cpp b/xo/serialization/prop_node_serializer_zml.cpp
index 7b205df..2348be5 100644
--- a/xo/serialization/prop_node_serializer_zml.cpp
+++ b/xo/serialization/prop_node_serializer_zml.cpp
@@ -144,8 +144,8 @@ namespace xo
 								[&]( auto& l ) { return t.compare( p + 2, pe - p - 2, l.first, 1 ) == 0; } );
 							if ( it != macros.rend() )
 							{
-								t.replace( p, pe - p + 1, it->second.get_str() );
-								p += it->second.get_str().size(); // advance p to avoid recursion
+								t.replace( p, pe - p + 1, it->second.peek_str() );
+								p += it->second.peek_str().size(); // advance p to avoid recursion
 							}
 							else return zml_error( str, ec, "Undefined variable: " + t.substr( p, pe - p + 1 ) );
 						}
-- 
2.43.0


From 5f780de98bc6a03d2fdc19786c039af7725b34a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:25 +0000
Subject: [PATCH 020/135] fix: a ZML macro with macros in its own scope was
 read into freed memory

---
 xo/serialization/prop_node_serializer_zml.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/xo/serialization/prop_node_serializer_zml.cpp b/xo/serialization/prop_node_serializer_zml.cpp
index 2348be5..cfbe4d7 100644
--- a/xo/serialization/prop_node_serializer_zml.cpp
+++ b/xo/serialization/prop_node_serializer_zml.cpp
@@ -76,6 +76,8 @@ namespace xo
 			else
 			{
 				prop_node* next_parent = nullptr;
+				string macro_name;
+				prop_node macro;
 
 				// check if we're reading an array or if this is a label
 				if ( close != "]" )
@@ -86,7 +88,11 @@ namespace xo
 						if ( t.empty() )
 							return zml_error( str, ec, "Invalid label" );
 						else if ( t[0] == '$' )
-							next_parent = &macros.add_child( t ); // add macro
+						{
+							// new macro, added to macros when complete because its scope can add macros too
+							macro_name = t;
+							next_parent = &macro;
+						}
 						else if ( !str.token_quoted() && static_cast<unsigned char>( t[0] ) < 128 && !isgraph( t[0] ) )
 							return zml_error( str, ec, "Invalid label " + t );
 						else
@@ -155,6 +161,9 @@ namespace xo
 					// assign value
 					next_parent->set_value( std::move( t ) );
 				}
+
+				if ( next_parent == &macro )
+					macros.add_child( macro_name, std::move( macro ) );
 			}
 		}
 
-- 
2.43.0


From 91df189715d1694d5d783938770d7822f2a9e78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:33 +0000
Subject: [PATCH 021/135] fix: a ZML reference to an enclosing group copied
 itself while being assigned

---
 xo/serialization/prop_node_serializer_zml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/serialization/prop_node_serializer_zml.cpp b/xo/serialization/prop_node_serializer_zml.cpp
index cfbe4d7..69f2f74 100644
--- a/xo/serialization/prop_node_serializer_zml.cpp
+++ b/xo/serialization/prop_node_serializer_zml.cpp
@@ -128,7 +128,7 @@ namespace xo
 				{
 					// assign previous value
 					if ( auto ref_pn = root.try_get_query( t.substr( 1 ) ) )
-						*next_parent = std::move( *ref_pn );
+						*next_parent = prop_node( *ref_pn ); // copy first, ref_pn can contain next_parent
 					else return zml_error( str, ec, "Could not find " + t );
 				}
 				else if ( t.size() >= 2 && t[0] == '$' && t[1] != '{' )
-- 
2.43.0


From af2765a23569c4ec49ebd35c97e5d4e5a19b1b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:43 +0000
Subject: [PATCH 022/135] fix: ZML reader rejected labels starting with a
 character that the writer does not quote

---
 xo/serialization/prop_node_serializer_zml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/serialization/prop_node_serializer_zml.cpp b/xo/serialization/prop_node_serializer_zml.cpp
index 69f2f74..b8f46f5 100644
--- a/xo/serialization/prop_node_serializer_zml.cpp
+++ b/xo/serialization/prop_node_serializer_zml.cpp
@@ -93,7 +93,7 @@ namespace xo
 							macro_name = t;
 							next_parent = &macro;
 						}
-						else if ( !str.token_quoted() && static_cast<unsigned char>( t[0] ) < 128 && !isgraph( t[0] ) )
+						else if ( !str.token_quoted() && static_cast<unsigned char>( t[0] ) < 33 )
 							return zml_error( str, ec, "Invalid label " + t );
 						else
 							next_parent = &parent.add_child( t ); // add new item
-- 
2.43.0


From dc3c3af417c505fea91311854a4a06721596ff14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:39 +0000
Subject: [PATCH 023/135] fix: right_str threw an exception when asked for more
 characters than the string has

---
 xo/string/string_tools.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xo/string/string_tools.cpp b/xo/string/string_tools.cpp
index d63a441..28457c0 100644
--- a/xo/string/string_tools.cpp
+++ b/xo/string/string_tools.cpp
@@ -41,8 +41,8 @@ namespace xo
 	string right_str( const string& str, int n )
 	{
 		if ( n >= 0 )
-			return str.substr( str.size() - n, string::npos );
-		else return str.substr( size_t( -n ), string::npos );
+			return str.substr( size_t( max( 0, int( str.size() ) - n ) ), string::npos );
+		else return str.substr( size_t( min( int( str.size() ), -n ) ), string::npos );
 	}
 
 	index_t in_str( const string& str, const string& substr, index_t p /*= 0 */ )
-- 
2.43.0


From 4ec7fde8dc74f79ebf36d2379fac597978035242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:39 +0000
Subject: [PATCH 024/135] fix: find_nth_str counted an occurrence at the start
 of the string twice

---
 xo/string/string_tools.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xo/string/string_tools.cpp b/xo/string/string_tools.cpp
index 28457c0..b68814a 100644
--- a/xo/string/string_tools.cpp
+++ b/xo/string/string_tools.cpp
@@ -53,8 +53,8 @@ namespace xo
 	index_t find_nth_str( const string& str, const string& substr, size_t n )
 	{
 		index_t idx = 0;
-		for ( ; n > 0 && idx != string::npos; --n )
-			idx = str.find( substr, idx > 0 ? idx + 1 : idx );
+		for ( size_t i = 0; i < n && idx != string::npos; ++i )
+			idx = str.find( substr, i > 0 ? idx + 1 : idx );
 		return idx;
 	}
 
-- 
2.43.0


From 238507df40dc7c934ffe91242ad368f6ab0d422d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:39 +0000
Subject: [PATCH 025/135] fix: stringf cut off its result after 255 characters

---
 xo/string/string_tools.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/xo/string/string_tools.cpp b/xo/string/string_tools.cpp
index b68814a..7de2771 100644
--- a/xo/string/string_tools.cpp
+++ b/xo/string/string_tools.cpp
@@ -262,10 +262,22 @@ namespace xo
 #endif
 		va_list args;
 		va_start( args, format );
+		va_list args_copy;
+		va_copy( args_copy, args );
 		char buf[256];
-		vsnprintf( buf, sizeof( buf ), format, args );
+		int len = vsnprintf( buf, sizeof( buf ), format, args );
 		va_end( args );
-		return string( buf );
+		string str;
+		if ( len >= (int)sizeof( buf ) ) // does not fit in buffer
+		{
+			str.resize( size_t( len ) + 1 );
+			vsnprintf( &str[0], str.size(), format, args_copy );
+			str.resize( size_t( len ) );
+		}
+		else if ( len > 0 )
+			str.assign( buf, size_t( len ) );
+		va_end( args_copy );
+		return str;
 #ifdef XO_COMP_MSVC
 #	pragma warning( pop )
 #endif
-- 
2.43.0


From 1a2fa52d1da72beb26fb15cf2f67e7c790e7c56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:45 +0000
Subject: [PATCH 026/135] fix: path extension functions took the extension from
 a folder name with a dot

---
 xo/filesystem/path.cpp | 13 ++++++++++---
 xo/filesystem/path.h   |  1 +
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/xo/filesystem/path.cpp b/xo/filesystem/path.cpp
index df03073..7ab3525 100644
--- a/xo/filesystem/path.cpp
+++ b/xo/filesystem/path.cpp
@@ -5,7 +5,7 @@ namespace xo
 {
 	path& path::replace_extension( const path& ext )
 	{
-		size_t n = data_.find_last_of( '.' );
+		size_t n = extension_pos();
 		if ( n != string::npos )
 			data_.erase( n ); // remove existing extension
 
@@ -58,13 +58,13 @@ namespace xo
 
 	path path::extension() const
 	{
-		size_t n = data_.find_last_of( '.' );
+		size_t n = extension_pos();
 		return n != string::npos ? path( data_.substr( n ) ) : path();
 	}
 
 	path path::extension_no_dot() const
 	{
-		size_t n = data_.find_last_of( '.' );
+		size_t n = extension_pos();
 		return n != string::npos ? path( data_.substr( n + 1 ) ) : path();
 	}
 
@@ -114,6 +114,13 @@ namespace xo
 		return data_.find_last_of( "/\\" );
 	}
 
+	size_t path::extension_pos() const
+	{
+		size_t n = data_.find_last_of( '.' );
+		size_t sep = last_separator_pos();
+		return n != string::npos && sep != string::npos && n < sep ? string::npos : n; // ignore dots in folder names
+	}
+
 	path& path::operator/=( const string_type& p )
 	{
 		if ( has_filename() )
diff --git a/xo/filesystem/path.h b/xo/filesystem/path.h
index 620cf54..5ff92f4 100644
--- a/xo/filesystem/path.h
+++ b/xo/filesystem/path.h
@@ -49,6 +49,7 @@ namespace xo
 
 	private:
 		size_t last_separator_pos() const;
+		size_t extension_pos() const;
 		string_type data_;
 	};
 
-- 
2.43.0


From 5bec6aa00de907d0b7c1f34bdad35c122004ae24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:45 +0000
Subject: [PATCH 027/135] fix: the folder of a file in the root folder was the
 empty path

---
 xo/filesystem/path.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xo/filesystem/path.cpp b/xo/filesystem/path.cpp
index 7ab3525..0948faf 100644
--- a/xo/filesystem/path.cpp
+++ b/xo/filesystem/path.cpp
@@ -18,7 +18,7 @@ namespace xo
 	path& path::remove_filename()
 	{
 		size_t n = last_separator_pos();
-		if ( n != string::npos ) data_ = data_.substr( 0, n );
+		if ( n != string::npos ) data_ = data_.substr( 0, n > 0 ? n : 1 ); // keep root
 		else data_.clear();
 		return *this;
 	}
@@ -53,7 +53,7 @@ namespace xo
 	path path::parent_path() const
 	{
 		size_t n = last_separator_pos();
-		return n != string::npos ? path( data_.substr( 0, n ) ) : path();
+		return n != string::npos ? path( data_.substr( 0, n > 0 ? n : 1 ) ) : path(); // keep root
 	}
 
 	path path::extension() const
-- 
2.43.0


From 0f95c399ab11ffbe73ee9d1b9b406eea12be85a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:45 +0000
Subject: [PATCH 028/135] fix: a version with a postfix lost it when converted
 to text and back

---
 xo/string/string_cast.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/string/string_cast.cpp b/xo/string/string_cast.cpp
index 05c5b43..5bd9de2 100644
--- a/xo/string/string_cast.cpp
+++ b/xo/string/string_cast.cpp
@@ -148,7 +148,7 @@ namespace xo
 	{
 		string s = stringf( "%d.%d.%d", v.major_, v.minor_, v.patch_ );
 		if ( v.build_ > 0 ) s += stringf( ".%d", v.build_ );
-		if ( !v.postfix_.empty() ) s += v.postfix_;
+		if ( !v.postfix_.empty() ) s += ' ' + v.postfix_;
 		return s;
 	}
 
-- 
2.43.0


From 1525910827246ee74db995011e02bfe634a14ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:45 +0000
Subject: [PATCH 029/135] fix: reading a version without build number kept the
 previous build number

---
 xo/string/string_cast.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xo/string/string_cast.cpp b/xo/string/string_cast.cpp
index 5bd9de2..a63b194 100644
--- a/xo/string/string_cast.cpp
+++ b/xo/string/string_cast.cpp
@@ -135,6 +135,7 @@ namespace xo
 				&& from_str( vs[1], ver.minor_ )
 				&& from_str( vs[2], ver.patch_ ) )
 			{
+				ver.build_ = 0;
 				if ( vs.size() >= 4 )
 					from_str( vs[3], ver.build_ );
 				ver.postfix_ = postfix;
-- 
2.43.0


From 31a1dd0e77380418a91dd876df885e264cec1c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:34 +0000
Subject: [PATCH 030/135] fix: collection_ic::erase had no return statement

---
 xo/container/collection_ic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/container/collection_ic.h b/xo/container/collection_ic.h
index e21f6ba..b52e0d1 100644
--- a/xo/container/collection_ic.h
+++ b/xo/container/collection_ic.h
@@ -23,7 +23,7 @@ namespace xo
 		template< typename T > const T& operator[]( index_class<T, I> i ) const { return get_vec<T>()[i.idx]; }
 		template< typename T > T& operator[]( index_class<T, I> i ) { return get_vec<T>()[i.idx]; }
 
-		template< typename T > index_class<T, I> erase( index_class<T, I> i ) { auto& v = get_vec<T>(); v.erase( i.iter( v ) ); }
+		template< typename T > index_class<T, I> erase( index_class<T, I> i ) { auto& v = get_vec<T>(); v.erase( i.iter( v ) ); return i; }
 		template< typename T > void pop_back() { get_vec<T>().pop_back(); }
 
 		template< typename T > const std::vector<T>& get_vec() const { return std::get< std::vector<T> >( data_ ); }
-- 
2.43.0


From 6b9683b7f1ea0b7d4b1848fe298c62f70c0a123f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:00 +0000
Subject: [PATCH 031/135] fix: file_resource_cache kept serving the old
 resource after a failed reload

---
 xo/utility/file_resource_cache.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xo/utility/file_resource_cache.h b/xo/utility/file_resource_cache.h
index 335d301..2788842 100644
--- a/xo/utility/file_resource_cache.h
+++ b/xo/utility/file_resource_cache.h
@@ -38,14 +38,14 @@ namespace xo
 					{
 						// check if the file has been modified
 						std::unique_lock write_lock( mutex_ );
-						item->last_checked_time_ = wall_time;
 						auto file_time = last_write_time( p );
 						if ( file_time != item->file_time_ )
 						{
 							// file was modified, reload
-							item->file_time_ = file_time;
 							item->data_.reset( create_( p ) );
+							item->file_time_ = file_time;
 						}
+						item->last_checked_time_ = wall_time; // only after success, so that a failed reload is tried again
 					}
 					catch ( std::exception& e ) {
 						xo_error( "Error reading " + to_str( p ) + ": " + e.what() );
-- 
2.43.0


From 2c353c90544da6d44e7f28c54c876ff7ab196066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:43 +0000
Subject: [PATCH 032/135] fix: formatted log messages were cut off after 1023
 characters

---
 xo/system/log.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/xo/system/log.cpp b/xo/system/log.cpp
index a22e881..13f159b 100644
--- a/xo/system/log.cpp
+++ b/xo/system/log.cpp
@@ -29,8 +29,17 @@ namespace xo
 			if ( test_log_level( l ) ) // check for global log level first
 			{
 				char buf[1024];
-				vsnprintf( buf, sizeof( buf ), format, list );
-				log_string( l, string( buf ) ); // #todo: use string_view
+				va_list list_copy; va_copy( list_copy, list );
+				int len = vsnprintf( buf, sizeof( buf ), format, list );
+				if ( len >= static_cast<int>( sizeof( buf ) ) ) {
+					// message does not fit in buffer
+					string str( static_cast<size_t>( len ) + 1, '\0' );
+					vsnprintf( &str[0], str.size(), format, list_copy );
+					str.resize( static_cast<size_t>( len ) );
+					log_string( l, str );
+				}
+				else log_string( l, string( buf ) ); // #todo: use string_view
+				va_end( list_copy );
 			}
 		}
 
-- 
2.43.0


From 36dd2c032de31e1a60c9afbf083a5253bfa1ee09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:43 +0000
Subject: [PATCH 033/135] fix: lines of stream_sink and file_sink got mixed up
 when threads log at the same time

---
 xo/system/log_sink.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xo/system/log_sink.cpp b/xo/system/log_sink.cpp
index 507ff18..55cc831 100644
--- a/xo/system/log_sink.cpp
+++ b/xo/system/log_sink.cpp
@@ -74,11 +74,13 @@ namespace xo
 		{
 			// #todo: make the time prefix an option
 			auto str = get_date_time_str( "%H:%M:%S " );
+			std::scoped_lock lock( g_console_mutex );
 			stream_ << str << msg << std::endl;
 		}
 
 		void stream_sink::flush()
 		{
+			std::scoped_lock lock( g_console_mutex );
 			stream_.flush();
 		}
 
-- 
2.43.0


From d9629f2c9d2db4d097b416e8f71aa35ec3b73f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:43 +0000
Subject: [PATCH 034/135] fix: changing the level of a sink removed it for a
 moment, so messages got lost

---
 xo/system/log.cpp      | 14 +++++++++++---
 xo/system/log.h        |  3 +++
 xo/system/log_sink.cpp |  3 +--
 xo/system/log_sink.h   |  3 ++-
 4 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/xo/system/log.cpp b/xo/system/log.cpp
index 13f159b..d044e2d 100644
--- a/xo/system/log.cpp
+++ b/xo/system/log.cpp
@@ -5,6 +5,7 @@
 #include "xo/container/vector_type.h"
 #include "xo/container/container_tools.h"
 #include <stdarg.h>
+#include <atomic>
 #include <mutex>
 #include <shared_mutex>
 
@@ -14,7 +15,7 @@ namespace xo
 	{
 		xo::vector< sink* > global_sinks;
 		std::shared_mutex global_sink_mutex;
-		level global_lowest_log_level = level::never;
+		std::atomic<level> global_lowest_log_level = level::never;
 
 		void log_string( level l, const string& str )
 		{
@@ -52,9 +53,10 @@ namespace xo
 
 		void update_global_log_level_thread_unsafe()
 		{
-			global_lowest_log_level = log::level::never;
+			auto lowest_log_level = log::level::never;
 			for ( auto s : global_sinks )
-				xo::set_if_smaller( global_lowest_log_level, s->get_log_level() );
+				xo::set_if_smaller( lowest_log_level, s->get_log_level() );
+			global_lowest_log_level = lowest_log_level;
 		}
 
 		void add_sink( sink* s )
@@ -75,6 +77,12 @@ namespace xo
 			update_global_log_level_thread_unsafe();
 		}
 
+		void update_log_level()
+		{
+			std::unique_lock lock{ global_sink_mutex };
+			update_global_log_level_thread_unsafe();
+		}
+
 		bool test_log_level( level l )
 		{
 			if ( l < global_lowest_log_level )
diff --git a/xo/system/log.h b/xo/system/log.h
index be6101b..34de54a 100644
--- a/xo/system/log.h
+++ b/xo/system/log.h
@@ -23,6 +23,9 @@ namespace xo
 		XO_API void add_sink( sink* s );
 		XO_API void remove_sink( sink* s );
 
+		// must be called after the log level of a sink has changed
+		XO_API void update_log_level();
+
 		// test log level for all sinks
 		XO_API bool test_log_level( level l );
 
diff --git a/xo/system/log_sink.cpp b/xo/system/log_sink.cpp
index 55cc831..ca70af6 100644
--- a/xo/system/log_sink.cpp
+++ b/xo/system/log_sink.cpp
@@ -50,8 +50,7 @@ namespace xo
 		void sink::set_log_level( level l )
 		{
 			log_level_ = l;
-			remove_sink( this );
-			add_sink( this ); // re-add to update global log level
+			update_log_level();
 		}
 
 		level sink::get_log_level()
diff --git a/xo/system/log_sink.h b/xo/system/log_sink.h
index 269262d..ebc4f12 100644
--- a/xo/system/log_sink.h
+++ b/xo/system/log_sink.h
@@ -4,6 +4,7 @@
 #include "xo/string/string_type.h"
 #include "xo/filesystem/path.h"
 
+#include <atomic>
 #include <fstream>
 #include <thread>
 #include "log_format.h"
@@ -39,7 +40,7 @@ namespace xo
 			format_flags& format() { return format_; }
 
 		protected:
-			level log_level_;
+			std::atomic<level> log_level_;
 			format_flags format_;
 			sink_mode sink_mode_;
 			std::thread::id thread_id_;
-- 
2.43.0


From 1e6af5ea9b5d0c4213051ff74d38752f25b3a158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:46 +0000
Subject: [PATCH 035/135] fix: stop_source::request_stop wrote through a null
 pointer after the source was moved from

---
 xo/thread/stop_token.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xo/thread/stop_token.h b/xo/thread/stop_token.h
index d3bea73..1893adf 100644
--- a/xo/thread/stop_token.h
+++ b/xo/thread/stop_token.h
@@ -27,7 +27,12 @@ namespace xo
 	{
 		stop_source() : stop_state_( std::make_shared<stop_state>( false ) ) {}
 
-		bool request_stop() { stop_state_->store( true ); return true; }
+		bool request_stop() {
+			if ( !stop_state_ )
+				return false; // moved from
+			stop_state_->store( true );
+			return true;
+		}
 
 		stop_token get_token() const { return stop_token( stop_state_ ); }
 		bool stop_requested() const { return stop_state_ && stop_state_->load(); }
-- 
2.43.0


From bddeecf96e741e5719bc9683fee59fd27691cc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:46 +0000
Subject: [PATCH 036/135] fix: the flag of interruptible, set and tested by
 different threads, was not atomic

---
 xo/thread/interruptible.cpp | 9 +++++++++
 xo/thread/interruptible.h   | 5 ++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/xo/thread/interruptible.cpp b/xo/thread/interruptible.cpp
index 89b2677..772044b 100644
--- a/xo/thread/interruptible.cpp
+++ b/xo/thread/interruptible.cpp
@@ -5,6 +5,15 @@ namespace xo
 	interruptible::interruptible() : interrupt_flag_( false )
 	{}
 
+	interruptible::interruptible( const interruptible& o ) : interrupt_flag_( o.interrupt_flag_.load() )
+	{}
+
+	interruptible& interruptible::operator=( const interruptible& o )
+	{
+		interrupt_flag_ = o.interrupt_flag_.load();
+		return *this;
+	}
+
 	interruptible::~interruptible()
 	{}
 
diff --git a/xo/thread/interruptible.h b/xo/thread/interruptible.h
index 70b4755..32f89ed 100644
--- a/xo/thread/interruptible.h
+++ b/xo/thread/interruptible.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include "xo/system/xo_config.h"
+#include <atomic>
 
 namespace xo
 {
@@ -8,12 +9,14 @@ namespace xo
 	{
 	public:
 		interruptible();
+		interruptible( const interruptible& o );
+		interruptible& operator=( const interruptible& o );
 		virtual ~interruptible();
 
 		virtual void interrupt() const;
 		bool test_interrupt_flag() const;
 
 	private:
-		mutable bool interrupt_flag_;
+		mutable std::atomic_bool interrupt_flag_;
 	};
 }
-- 
2.43.0


From 1411f926f8b307811fd4cd309f20b4bf8726f400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:14 +0000
Subject: [PATCH 037/135] fix: get_date_time_str used a buffer that is shared
 between threads, also for the time of log messages

---
 xo/system/system_tools.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/xo/system/system_tools.cpp b/xo/system/system_tools.cpp
index 9927117..ef5f4d9 100644
--- a/xo/system/system_tools.cpp
+++ b/xo/system/system_tools.cpp
@@ -47,7 +47,14 @@ namespace xo
 	XO_API string get_date_time_str( const std::time_t& t, const char* format )
 	{
 		std::stringstream ss;
-		ss << std::put_time( std::localtime( &t ), format );
+		// std::localtime() is not thread-safe
+		std::tm tm{};
+#ifdef XO_COMP_MSVC
+		localtime_s( &tm, &t );
+#else
+		localtime_r( &t, &tm );
+#endif
+		ss << std::put_time( &tm, format );
 		return ss.str();
 	}
 
-- 
2.43.0


From 0c6811b3282189606b19ae4ddb7aaac7067e100e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:11 +0000
Subject: [PATCH 038/135] fix: pausing a paused timer, resuming a running one
 or restarting a paused one gave nonsense times

---
 xo/time/timer.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/xo/time/timer.cpp b/xo/time/timer.cpp
index c01e684..c615e5a 100644
--- a/xo/time/timer.cpp
+++ b/xo/time/timer.cpp
@@ -82,15 +82,15 @@ namespace xo
 
 	time timer::operator()() const
 	{
-		auto current_time = epoch_ > 0 ? get_tick_count() - epoch_ : -epoch_;
-		return get_time_from_ticks( current_time );
+		return get_time_from_ticks( tick_count() );
 	}
 
 	time timer::restart()
 	{
-		auto prev_epoch = epoch_;
-		epoch_ = get_tick_count();
-		return get_time_from_ticks( epoch_ - prev_epoch );
+		auto ticks = get_tick_count();
+		auto elapsed = is_running() ? ticks - epoch_ : -epoch_;
+		epoch_ = ticks;
+		return get_time_from_ticks( elapsed );
 	}
 
 	void timer::set( time t )
@@ -103,18 +103,20 @@ namespace xo
 
 	long long timer::tick_count() const
 	{
-		return get_tick_count() - epoch_;
+		return is_running() ? get_tick_count() - epoch_ : -epoch_;
 	}
 
 	time timer::pause()
 	{
 		// store current time in epoch
-		epoch_ = -( get_tick_count() - epoch_ );
+		if ( is_running() )
+			epoch_ = -tick_count();
 		return get_time_from_ticks( -epoch_ );
 	}
 
 	void timer::resume()
 	{
-		epoch_ = get_tick_count() + epoch_;
+		if ( is_paused() )
+			epoch_ = get_tick_count() + epoch_;
 	}
 }
-- 
2.43.0


From 3e81748bda65198da86de7254787296e3c49d343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:11 +0000
Subject: [PATCH 039/135] fix: negative times were rounded up when made from
 seconds, milliseconds or nanoseconds

---
 xo/time/time.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xo/time/time.h b/xo/time/time.h
index fdeb0fc..8292fc4 100644
--- a/xo/time/time.h
+++ b/xo/time/time.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <cmath>
 #include <cstddef>
 
 namespace xo
@@ -49,9 +50,9 @@ namespace xo
 		storage_t internal_;
 	};
 
-	template< typename T > time time_from_seconds( T s ) { return time( time::storage_t( double( s ) * 1e9 + 0.5 ) ); }
-	template< typename T > time time_from_milliseconds( T s ) { return time( time::storage_t( double( s ) * 1e6 + 0.5 ) ); }
-	template< typename T > time time_from_nanoseconds( T s ) { return time( time::storage_t( double( s ) + 0.5 ) ); }
+	template< typename T > time time_from_seconds( T s ) { return time( time::storage_t( std::llround( double( s ) * 1e9 ) ) ); }
+	template< typename T > time time_from_milliseconds( T s ) { return time( time::storage_t( std::llround( double( s ) * 1e6 ) ) ); }
+	template< typename T > time time_from_nanoseconds( T s ) { return time( time::storage_t( std::llround( double( s ) ) ) ); }
 
 	inline time distance( const time& t1, const time& t2 ) { return t1 > t2 ? t1 - t2 : t2 - t1; }
 
-- 
2.43.0


From d6d06f6b0d9cdbb04d6fbad4bbbbb59d714dc267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:11 +0000
Subject: [PATCH 040/135] fix: profiler::report read the first of no sections
 before the profiler was started

---
 xo/system/profiler.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/system/profiler.h b/xo/system/profiler.h
index 8b4771c..f532177 100644
--- a/xo/system/profiler.h
+++ b/xo/system/profiler.h
@@ -47,7 +47,7 @@ namespace xo
 		void report_section( section* s, prop_node& pn, double minimum_expand_percentage, bool add_log_level_tag );
 		time exclusive_time( section* s );
 		time total_overhead( section* s );
-		section* root() { return &sections_.front(); }
+		section* root() { return sections_.empty() ? nullptr : &sections_.front(); }
 		section* find_section( size_t id );
 		section* find_section( const char* name, size_t parent_id );
 		section* acquire_section( const char* name, size_t parent_id );
-- 
2.43.0


From d2191a844f87f3dbb6d0cecdc813b0d7e0b4abd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:47 +0000
Subject: [PATCH 041/135] fix: labels given to the constructor of label_vector
 could not be found

---
 xo/container/label_vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xo/container/label_vector.h b/xo/container/label_vector.h
index 118dbbd..b54d389 100644
--- a/xo/container/label_vector.h
+++ b/xo/container/label_vector.h
@@ -11,8 +11,8 @@ namespace xo
 	struct label_vector
 	{
 		label_vector( size_t channels = 0 ) : labels_( channels ) {}
-		label_vector( std::initializer_list< L > labels ) : labels_( labels ) {}
-		label_vector( const std::vector< L >& labels ) : labels_( labels ) {}
+		label_vector( std::initializer_list< L > labels ) { for ( auto& l : labels ) add( l ); }
+		label_vector( const std::vector< L >& labels ) { for ( auto& l : labels ) add( l ); }
 		~label_vector() {}
 
 		index_t add( const L& label ) {
-- 
2.43.0


From c3dce7770d14f51f9063a9b49b33fe9003428af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:47 +0000
Subject: [PATCH 042/135] fix: label_vector::find_or_add was const and could
 not be compiled

---
 xo/container/label_vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/container/label_vector.h b/xo/container/label_vector.h
index b54d389..4219da5 100644
--- a/xo/container/label_vector.h
+++ b/xo/container/label_vector.h
@@ -32,7 +32,7 @@ namespace xo
 			return it->second;
 		}
 
-		index_t find_or_add( const L& label ) const {
+		index_t find_or_add( const L& label ) {
 			auto it = label_indices_.find( label );
 			if ( it == label_indices_.end() ) {
 				labels_.push_back( label );
-- 
2.43.0


From 824613a6069071e7f6b707d2b0bf7d7aaced32b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:47 +0000
Subject: [PATCH 043/135] fix: a replaced label was still found at its old
 index

---
 xo/container/label_vector.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xo/container/label_vector.h b/xo/container/label_vector.h
index 4219da5..53430a3 100644
--- a/xo/container/label_vector.h
+++ b/xo/container/label_vector.h
@@ -51,6 +51,8 @@ namespace xo
 
 		index_t set( index_t idx, const L& label ) {
 			xo_assert( idx < size() && find( label ) == no_index );
+			if ( auto it = label_indices_.find( labels_[idx] ); it != label_indices_.end() && it->second == idx )
+				label_indices_.erase( it );
 			labels_[idx] = label;
 			label_indices_[label] = idx;
 			return idx;
-- 
2.43.0


From 67390565506538ccd1bccf7fdbd520316d41c000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:47 +0000
Subject: [PATCH 044/135] fix: adding a channel with a label that exists left
 an unlabelled channel behind

---
 xo/container/storage.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xo/container/storage.h b/xo/container/storage.h
index 8402002..d08ab88 100644
--- a/xo/container/storage.h
+++ b/xo/container/storage.h
@@ -46,12 +46,14 @@ namespace xo
 
 		/// add a channel and resize buffer if needed
 		index_t add_channel( L label, const T& value = T() ) {
+			xo_assert( labels_.find( label ) == no_index );
 			resize( frame_size(), channel_size() + 1, value );
 			return labels_.set( channel_size() - 1, label );
 		}
 
 		/// add a channel with data, resize buffer if needed
 		index_t add_channel( L label, const std::vector< T >& data ) {
+			xo_assert( labels_.find( label ) == no_index );
 			resize( max( frame_size(), std::size( data ) ), channel_size() + 1 );
 			labels_.set( channel_size() - 1, label );
 			auto cidx = channel_size() - 1;
-- 
2.43.0


From ce3f22c7212f18fb6296feb09e1542e8142178cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:47 +0000
Subject: [PATCH 045/135] fix: adding a column with a label that exists left an
 unlabelled column behind

---
 xo/container/table.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xo/container/table.h b/xo/container/table.h
index 0c00ff9..da9896e 100644
--- a/xo/container/table.h
+++ b/xo/container/table.h
@@ -27,6 +27,7 @@ namespace xo
 		}
 
 		index_t add_column( const L& label, const T& default_value = T() ) {
+			xo_assert( find_column( label ) == no_index );
 			resize( row_size(), column_size() + 1, default_value );
 			return col_labels.set( column_size() - 1, label );
 		}
-- 
2.43.0


From e4614843000baf9b159ab9ac760c73892b9ef7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:47 +0000
Subject: [PATCH 046/135] fix: table::resize wrote past the end of its data
 when rows were added

---
 xo/container/table.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/container/table.h b/xo/container/table.h
index da9896e..7df1160 100644
--- a/xo/container/table.h
+++ b/xo/container/table.h
@@ -49,7 +49,7 @@ namespace xo
 			xo_error_if( rows < row_size() || cols < column_size(), "tables cannot be shrinked" );
 
 			// reorganize existing data
-			data.resize( row_size() * cols );
+			data.resize( rows * cols );
 			for ( index_t ri = rows; ri-- > 0; )
 				for ( index_t ci = cols; ci-- > 0; )
 					data[cols * ri + ci] = ( ri < row_size() && ci < column_size() ) ? data[column_size() * ri + ci] : default_value;
-- 
2.43.0


From 6f246a1d6cbdb858915747c18a2f52335612adaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:47 +0000
Subject: [PATCH 047/135] fix: const access of a table cell by labels had no
 return statement

---
 xo/container/table.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/container/table.h b/xo/container/table.h
index 7df1160..dd132c2 100644
--- a/xo/container/table.h
+++ b/xo/container/table.h
@@ -64,7 +64,7 @@ namespace xo
 		const T& operator()( index_t row, index_t col ) const { xo_assert( row < row_size() && col < column_size() ); return data[row * column_size() + col]; }
 		T& operator()( index_t row, index_t col ) { xo_assert( row < row_size() && col < column_size() ); return data[row * column_size() + col]; }
 
-		const T& operator()( const L& row, const L& col ) const { operator()( find_row( row ), find_column( col ) ); }
+		const T& operator()( const L& row, const L& col ) const { return operator()( find_row( row ), find_column( col ) ); }
 		T& operator()( const L& row, const L& col ) { return operator()( get_or_add_row( row ), get_or_add_column( col ) ); }
 
 		const T& operator()( index_t row, const L& col ) const { return operator()( row, find_column( col ) ); }
-- 
2.43.0


From 6832d92a28cdeecfc41f87df74125f0ed83656d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:47 +0000
Subject: [PATCH 048/135] fix: find_frame_index never found the first frame
 when the second was the next one

---
 xo/container/storage_tools.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/container/storage_tools.h b/xo/container/storage_tools.h
index 5b483fc..b2803aa 100644
--- a/xo/container/storage_tools.h
+++ b/xo/container/storage_tools.h
@@ -43,7 +43,7 @@ namespace xo
 		first = xo::min( first, sto.frame_size() - 1 );
 
 		// check if value is closer to lower_bound frame or to prev
-		if ( first > 1 && ( val - sto( first - 1, ch ) < sto( first, ch ) - val ) )
+		if ( first > 0 && ( val - sto( first - 1, ch ) < sto( first, ch ) - val ) )
 			return first - 1;
 		else return first;
 	}
-- 
2.43.0


From e8bb5aebfdb14e106fe2f627a0c23d2fc8a43b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:27 +0000
Subject: [PATCH 049/135] fix: directory_exists took a socket or block device
 for a directory

---
 xo/filesystem/filesystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/filesystem/filesystem.cpp b/xo/filesystem/filesystem.cpp
index 1b65df7..a1425f1 100644
--- a/xo/filesystem/filesystem.cpp
+++ b/xo/filesystem/filesystem.cpp
@@ -155,7 +155,7 @@ namespace xo
 		struct stat status;
 		if ( stat( folder.c_str(), &status ) == 0 )
 		{
-			if ( status.st_mode & S_IFDIR )
+			if ( S_ISDIR( status.st_mode ) )
 				return true;
 		}
 		return false; // if any condition fails
-- 
2.43.0


From 2f49f611e3d0252c5a52b21e7688c2fe24ac2dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:27 +0000
Subject: [PATCH 050/135] fix: file_exists was true for a directory, so
 find_file could return a directory

---
 xo/filesystem/filesystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/filesystem/filesystem.cpp b/xo/filesystem/filesystem.cpp
index a1425f1..76378d2 100644
--- a/xo/filesystem/filesystem.cpp
+++ b/xo/filesystem/filesystem.cpp
@@ -143,7 +143,7 @@ namespace xo
 	bool file_exists( const path& file )
 	{
 		std::ifstream ifs( file.str() );
-		return ifs.good();
+		return ifs.good() && !directory_exists( file );
 	}
 
 	bool directory_exists( const path& folder )
-- 
2.43.0


From 7571031eb2739ef1cf185553f2f09a301af5b928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:27 +0000
Subject: [PATCH 051/135] fix: load_string returned an empty text for a
 directory instead of an error

---
 xo/filesystem/filesystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/filesystem/filesystem.cpp b/xo/filesystem/filesystem.cpp
index 76378d2..e6fba5a 100644
--- a/xo/filesystem/filesystem.cpp
+++ b/xo/filesystem/filesystem.cpp
@@ -266,7 +266,7 @@ namespace xo
 	{
 		// this method uses a stringbuf, which requires an extra copy (C++ suckiness)
 		std::ifstream ifstr( filename.str() );
-		if ( !ifstr.good() )
+		if ( !ifstr.good() || directory_exists( filename ) )
 			return set_error_or_throw( ec, "Could not open " + filename.str() ), "";
 
 		std::stringstream str;
-- 
2.43.0


From c92bafb8f9a2d451e089e34b191dea6c0e031fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:27 +0000
Subject: [PATCH 052/135] fix: find_file looked for a missing absolute path
 inside the current find file folder, unlike try_find_file

---
 xo/filesystem/filesystem.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/xo/filesystem/filesystem.cpp b/xo/filesystem/filesystem.cpp
index e6fba5a..6c3bedb 100644
--- a/xo/filesystem/filesystem.cpp
+++ b/xo/filesystem/filesystem.cpp
@@ -174,13 +174,8 @@ namespace xo
 
 	path find_file( std::initializer_list<path> find_paths )
 	{
-		for ( auto& f : find_paths )
-		{
-			if ( f.is_absolute() && file_exists( f ) )
-				return f;
-			else if ( auto full_path = current_find_file_path() / f; file_exists( full_path ) )
-				return full_path;
-		}
+		if ( auto file = try_find_file( find_paths ) )
+			return *file;
 		xo_error( "Could not find any of the following files: " + container_to_str( find_paths ) );
 	}
 
-- 
2.43.0


From ad2d66ce19f023ad6b0fa95aca046d27a4f707a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:27 +0000
Subject: [PATCH 053/135] fix: create_directories reported failure for a path
 with trailing separator, and create_unique_directory made two directories

---
 xo/filesystem/filesystem.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xo/filesystem/filesystem.cpp b/xo/filesystem/filesystem.cpp
index 6c3bedb..e8440ea 100644
--- a/xo/filesystem/filesystem.cpp
+++ b/xo/filesystem/filesystem.cpp
@@ -216,6 +216,10 @@ namespace xo
 
 	bool create_directories( const path& folder )
 	{
+		// a trailing separator does not name another folder
+		if ( !folder.has_filename() && folder.has_parent_path() && folder.parent_path() != folder )
+			return create_directories( folder.parent_path() );
+
 		// make sure parent folders exist
 		if ( folder.has_parent_path() && !directory_exists( folder.parent_path() ) )
 			create_directories( folder.parent_path() );
-- 
2.43.0


From 05c62b6dbed7507186c5e4121ab55dc48e00095c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:27 +0000
Subject: [PATCH 054/135] fix: find_unique_directory returned the name of an
 existing file

---
 xo/filesystem/filesystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/filesystem/filesystem.cpp b/xo/filesystem/filesystem.cpp
index e8440ea..ff860bb 100644
--- a/xo/filesystem/filesystem.cpp
+++ b/xo/filesystem/filesystem.cpp
@@ -238,7 +238,7 @@ namespace xo
 		{
 			if ( i > 0 )
 				unique_folder = folder + stringf( " (%d)", i );
-			if ( !directory_exists( unique_folder ) )
+			if ( !exists( unique_folder ) )
 				return unique_folder;
 		}
 		xo_error( "Could not find unique folder after " + to_str( max_attempts ) + " attempts" );
-- 
2.43.0


From e9042bf7e981d846b3e184c709fd93f978496220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:27 +0000
Subject: [PATCH 055/135] fix: save_string and append_string did not report an
 error when writing failed

---
 xo/filesystem/filesystem.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/xo/filesystem/filesystem.cpp b/xo/filesystem/filesystem.cpp
index ff860bb..3071db2 100644
--- a/xo/filesystem/filesystem.cpp
+++ b/xo/filesystem/filesystem.cpp
@@ -277,18 +277,22 @@ namespace xo
 	{
 		xo::create_directories( filename.parent_path().str() );
 		std::ofstream ofstr( filename.str() );
-		if ( ofstr.good() )
-			ofstr << s;
-		else set_error_or_throw( ec, "Could not open " + filename.str() );
+		if ( !ofstr.good() )
+			return set_error_or_throw( ec, "Could not open " + filename.str() );
+		ofstr << s << std::flush;
+		if ( !ofstr.good() )
+			set_error_or_throw( ec, "Could not write " + filename.str() );
 	}
 
 	void append_string( const path& filename, const string& s, error_code* ec )
 	{
 		xo::create_directories( filename.parent_path().str() );
 		std::ofstream ofstr( filename.str(), std::ios_base::app );
-		if ( ofstr.good() )
-			ofstr << s;
-		else set_error_or_throw( ec, "Could not open " + filename.str() );
+		if ( !ofstr.good() )
+			return set_error_or_throw( ec, "Could not open " + filename.str() );
+		ofstr << s << std::flush;
+		if ( !ofstr.good() )
+			set_error_or_throw( ec, "Could not write " + filename.str() );
 	}
 
 	bool current_path( const path& p )
-- 
2.43.0


From e83c5c9c7e5114ddcbe41880e2b7a377e7fe4925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:22 +0000
Subject: [PATCH 056/135] fix: saving settings added a version setting that is
 not in the schema

---
 xo/system/settings.cpp | 5 +++--
 xo/system/settings.h   | 9 +++++----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/xo/system/settings.cpp b/xo/system/settings.cpp
index aee4e96..5712a71 100644
--- a/xo/system/settings.cpp
+++ b/xo/system/settings.cpp
@@ -131,11 +131,12 @@ namespace xo
 		if ( !filename.empty() )
 			data_file_ = filename;
 
+		prop_node pn = data_;
 		if ( !current_version().empty() )
-			data_.set( "version", current_version() );
+			pn.set( "version", current_version() );
 
 		xo::create_directories( data_file_.parent_path() );
-		save_file( data_, data_file_ );
+		save_file( pn, data_file_ );
 		log::debug( "Saved settings to ", data_file_ );
 	}
 
diff --git a/xo/system/settings.h b/xo/system/settings.h
index 47626ea..3455c79 100644
--- a/xo/system/settings.h
+++ b/xo/system/settings.h
@@ -60,10 +60,11 @@ namespace xo
 
 	template< typename T > T xo::settings::get( const string& id ) const
 	{
-		if ( auto data_node = data_.try_get_query( id ) )
-			return data_node->get<T>();
-		else if ( auto* schema_node = try_find_setting( id ) )
-			return schema_node->get< T >( "default" );
+		if ( auto* schema_node = try_find_setting( id ) ) {
+			if ( auto data_node = data_.try_get_query( id ) )
+				return data_node->get<T>();
+			else return schema_node->get< T >( "default" );
+		}
 		else xo_error( "Undefined setting: " + id );
 	}
 
-- 
2.43.0


From 92b07af72b9870c5f560be34d7eec8f4ae960675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:22 +0000
Subject: [PATCH 057/135] fix: an invalid version in a settings file made
 loading stop halfway

---
 xo/system/settings.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xo/system/settings.cpp b/xo/system/settings.cpp
index 5712a71..e677ca5 100644
--- a/xo/system/settings.cpp
+++ b/xo/system/settings.cpp
@@ -112,7 +112,11 @@ namespace xo
 				for ( auto& c : pn )
 				{
 					if ( c.first == "version" )
-						data_version_ = c.second.get< version >();
+					{
+						if ( auto v = c.second.try_get< version >() )
+							data_version_ = *v;
+						else log::warning( "Invalid settings version: ", c.second );
+					}
 					else set_recursive( c.first, c.second );
 				}
 			}
-- 
2.43.0


From 113dc4c2188a1f299136e68d7ef4b2a936b102e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:22 +0000
Subject: [PATCH 058/135] fix: settings with a range kept only six digits of
 their value, and took text for the default and nan as within the range

---
 xo/system/settings.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/xo/system/settings.cpp b/xo/system/settings.cpp
index e677ca5..8c83597 100644
--- a/xo/system/settings.cpp
+++ b/xo/system/settings.cpp
@@ -68,15 +68,22 @@ namespace xo
 			// check if the setting is within a specified 'range'
 			if ( auto range = schema_node->try_get< bounds< double > >( "range" ) )
 			{
-				auto dvalue = schema_node->get< double >( "default" );
-				from_str( value.get_str(), dvalue );
+				double dvalue;
+				if ( !from_str( value.get_str(), dvalue ) || dvalue != dvalue )
+				{
+					log::warning( "Invalid value for ", id, ": ", value );
+					return false; // not a number
+				}
 				if ( !range->is_within( dvalue ) )
 				{
 					log::warning( "Invalid value for ", id, ": ", dvalue, ", restricting to range ", *range );
-					range->clamp( dvalue );
+					auto limit = range->clamped( dvalue );
+					auto str = stringf( "%.15g", limit ); // to_str() keeps 6 digits only
+					if ( from_str( str, dvalue ); dvalue != limit )
+						str = stringf( "%.17g", limit );
+					data_.set_query( id, str );
+					return true;
 				}
-				data_.set_query( id, dvalue );
-				return true;
 			}
 
 			// value can be set
-- 
2.43.0


From e02bb3830c9c4bc57f8ab5636585cb492399f750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:22 +0000
Subject: [PATCH 059/135] fix: reading an invalid vec3 threw an exception in
 functions that only test for one, also when settings are loaded

---
 xo/geometry/vec3.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xo/geometry/vec3.h b/xo/geometry/vec3.h
index a40e2c2..30b17ac 100644
--- a/xo/geometry/vec3.h
+++ b/xo/geometry/vec3.h
@@ -160,10 +160,11 @@ namespace xo
 	template< typename T > bool from_prop_node( const prop_node& pn, vec3_<T>& v ) {
 		// load vec3_ from array [ 1 2 3 ], group { x=1 y=2 z=3 }, or string: "1 2 3"
 		if ( pn.size() == 3 ) {
+			auto read = []( const prop_node* c, T& e ) { return c && from_prop_node( *c, e ); };
 			if ( pn.is_array() ) // array: [ 1 2 3 ]
-				v.set( pn.get<T>( 0 ), pn.get<T>( 1 ), pn.get<T>( 2 ) );
-			else v.set( pn.get<T>( "x" ), pn.get<T>( "y" ), pn.get<T>( "z" ) ); // group: { x=1 y=2 z=3 }
-			return true;
+				return read( &pn[0], v.x ) && read( &pn[1], v.y ) && read( &pn[2], v.z );
+			else // group: { x=1 y=2 z=3 }
+				return read( pn.try_get_child( "x" ), v.x ) && read( pn.try_get_child( "y" ), v.y ) && read( pn.try_get_child( "z" ), v.z );
 		}
 		else if ( pn.size() == 0 && pn.has_value() ) {
 			if ( auto vs = split_str( pn.get_str(), " \t" ); vs.size() == 3 ) // string: "1 2 3"
-- 
2.43.0


From 151e8e0d307406010c6f06f553ceea92e694a0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:22 +0000
Subject: [PATCH 060/135] fix: saving a file did not report an error when
 writing failed

---
 xo/serialization/prop_node_serializer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xo/serialization/prop_node_serializer.cpp b/xo/serialization/prop_node_serializer.cpp
index c837cfc..d5b10ca 100644
--- a/xo/serialization/prop_node_serializer.cpp
+++ b/xo/serialization/prop_node_serializer.cpp
@@ -43,6 +43,8 @@ namespace xo
 			ec_ = ec;
 			file_folder_ = filename.parent_path();
 			write_stream( str );
+			if ( !str.flush() )
+				set_error_or_throw( ec, "Could not write " + filename.str() );
 		}
 		else set_error_or_throw( ec, "Could not create " + filename.str() );
 	}
-- 
2.43.0


From 50f623ac9cee89bcfe7cf04e370c9bce141833e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:35 +0000
Subject: [PATCH 061/135] fix: reading malformed ini text threw an exception
 even if an error_code was given

---
 xo/serialization/prop_node_serializer_ini.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xo/serialization/prop_node_serializer_ini.cpp b/xo/serialization/prop_node_serializer_ini.cpp
index 88eecbe..eb81096 100644
--- a/xo/serialization/prop_node_serializer_ini.cpp
+++ b/xo/serialization/prop_node_serializer_ini.cpp
@@ -52,7 +52,8 @@ namespace xo
 
 			// must be a key = value line
 			auto kvp = make_key_value_str( line );
-			xo_error_if( kvp.first == line, "Error loading ini file, expected '='" );
+			if ( kvp.first == line )
+				return set_error_or_throw( ec_, "Error loading ini file, expected '='" ), str;
 			cur_group->set( kvp.first, kvp.second );
 		}
 		return str;
-- 
2.43.0


From 93ac1811d3f694153b95d1cc09573b4fb2f134c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:35 +0000
Subject: [PATCH 062/135] fix: ini items that follow a group were written into
 that group

---
 xo/serialization/prop_node_serializer_ini.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/xo/serialization/prop_node_serializer_ini.cpp b/xo/serialization/prop_node_serializer_ini.cpp
index eb81096..efa0447 100644
--- a/xo/serialization/prop_node_serializer_ini.cpp
+++ b/xo/serialization/prop_node_serializer_ini.cpp
@@ -10,6 +10,12 @@ namespace xo
 	std::ostream& prop_node_serializer_ini::write_stream( std::ostream& str ) const
 	{
 		xo_assert( write_pn_ );
+		// main items must come first, or they would end up in the group before them
+		for ( auto& e : *write_pn_ )
+		{
+			if ( e.second.size() == 0 && e.second.has_value() ) // main item
+				str << e.first << "=" << e.second.get_str() << std::endl;
+		}
 		for ( auto& e : *write_pn_ )
 		{
 			if ( e.second.size() > 0 ) // group item
@@ -18,8 +24,6 @@ namespace xo
 				for ( auto& e2 : e.second )
 					str << e2.first << "=" << e2.second.get_str() << std::endl;
 			}
-			else if ( e.second.has_value() ) // main item
-				str << e.first << "=" << e.second.get_str() << std::endl;
 		}
 		return str;
 	}
-- 
2.43.0


From 6ac2b1972c62b911af4c8b918462412170104346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:35 +0000
Subject: [PATCH 063/135] fix: reading malformed xml threw an exception even if
 an error_code was given

---
 xo/serialization/prop_node_serializer_xml.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/xo/serialization/prop_node_serializer_xml.cpp b/xo/serialization/prop_node_serializer_xml.cpp
index 4641d89..6663286 100644
--- a/xo/serialization/prop_node_serializer_xml.cpp
+++ b/xo/serialization/prop_node_serializer_xml.cpp
@@ -20,6 +20,7 @@ namespace rapidxml {
 #include <contrib/rapidxml-1.13/rapidxml_print.hpp>
 
 #include "xo/container/prop_node.h"
+#include "xo/system/error_code.h"
 #include <iostream>
 
 namespace xo
@@ -60,7 +61,14 @@ namespace xo
 		xo_assert( read_pn_ );
 		rapidxml::xml_document<> doc;
 		std::string file_contents( std::istreambuf_iterator<char>( str ), {} );
-		doc.parse< 0 >( &file_contents[0] ); // not officially supported but probably safe
+		try
+		{
+			doc.parse< 0 >( &file_contents[0] ); // not officially supported but probably safe
+		}
+		catch ( const rapidxml::parse_error& e )
+		{
+			return set_error_or_throw( ec_, string( "Error reading xml: " ) + e.what() ), str;
+		}
 		if ( doc.first_node() )
 			read_pn_->add_child( doc.first_node()->name(), get_rapid_xml_node( doc.first_node() ) );
 		return str;
-- 
2.43.0


From fa50fa6f3109a679af93c0350f366873ce283380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:35 +0000
Subject: [PATCH 064/135] fix: xml with closing tags that do not match was read
 without error

---
 xo/serialization/prop_node_serializer_xml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/serialization/prop_node_serializer_xml.cpp b/xo/serialization/prop_node_serializer_xml.cpp
index 6663286..95567a9 100644
--- a/xo/serialization/prop_node_serializer_xml.cpp
+++ b/xo/serialization/prop_node_serializer_xml.cpp
@@ -63,7 +63,7 @@ namespace xo
 		std::string file_contents( std::istreambuf_iterator<char>( str ), {} );
 		try
 		{
-			doc.parse< 0 >( &file_contents[0] ); // not officially supported but probably safe
+			doc.parse< rapidxml::parse_validate_closing_tags >( &file_contents[0] ); // not officially supported but probably safe
 		}
 		catch ( const rapidxml::parse_error& e )
 		{
-- 
2.43.0


From f534d9e3361a7ed0924c9344eb97b0f6abea7d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:35 +0000
Subject: [PATCH 065/135] fix: xml written from a tree with several top level
 nodes lost all but the first when it was read

---
 xo/serialization/prop_node_serializer_xml.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xo/serialization/prop_node_serializer_xml.cpp b/xo/serialization/prop_node_serializer_xml.cpp
index 95567a9..6e557fe 100644
--- a/xo/serialization/prop_node_serializer_xml.cpp
+++ b/xo/serialization/prop_node_serializer_xml.cpp
@@ -69,8 +69,9 @@ namespace xo
 		{
 			return set_error_or_throw( ec_, string( "Error reading xml: " ) + e.what() ), str;
 		}
-		if ( doc.first_node() )
-			read_pn_->add_child( doc.first_node()->name(), get_rapid_xml_node( doc.first_node() ) );
+		for ( auto* node = doc.first_node(); node; node = node->next_sibling() )
+			if ( node->name_size() > 0 )
+				read_pn_->add_child( node->name(), get_rapid_xml_node( node ) );
 		return str;
 	}
 
-- 
2.43.0


From 0ec7639f59328ecc8a139ddff5d0a18c09b48af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:44 +0000
Subject: [PATCH 066/135] fix: the text of an xml CDATA section was lost

---
 xo/serialization/prop_node_serializer_xml.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/xo/serialization/prop_node_serializer_xml.cpp b/xo/serialization/prop_node_serializer_xml.cpp
index 6e557fe..5076c72 100644
--- a/xo/serialization/prop_node_serializer_xml.cpp
+++ b/xo/serialization/prop_node_serializer_xml.cpp
@@ -27,8 +27,11 @@ namespace xo
 {
 	prop_node get_rapid_xml_node( rapidxml::xml_node<>* node )
 	{
-		// make new prop_node
-		prop_node pn = to_prop_node( node->value() );
+		// make new prop_node, the value is the first text or CDATA
+		prop_node pn;
+		for ( rapidxml::xml_node<>* child = node->first_node(); child && !pn.has_value(); child = child->next_sibling() )
+			if ( child->type() == rapidxml::node_data || child->type() == rapidxml::node_cdata )
+				pn.set_value( string( child->value(), child->value_size() ) );
 
 		// add attributes
 		for ( rapidxml::xml_attribute<>* attr = node->first_attribute(); attr; attr = attr->next_attribute() )
-- 
2.43.0


From c695dacbdb90c99f90bef9a708c148a692a03ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:18 +0000
Subject: [PATCH 067/135] fix: loading a zml file that does not exist threw an
 exception even if an error_code was given

---
 xo/serialization/prop_node_serializer_zml.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xo/serialization/prop_node_serializer_zml.cpp b/xo/serialization/prop_node_serializer_zml.cpp
index b8f46f5..8e77023 100644
--- a/xo/serialization/prop_node_serializer_zml.cpp
+++ b/xo/serialization/prop_node_serializer_zml.cpp
@@ -315,7 +315,9 @@ namespace xo
 
 	XO_API prop_node load_zml( const path& filename, error_code* ec, path parent_folder, vector<path>* included_files )
 	{
-		char_stream stream( load_string( filename ) );
+		char_stream stream( load_string( filename, ec ) );
+		if ( ec && ec->bad() )
+			return prop_node();
 		return parse_zml( stream, ec, filename.parent_path(), included_files );
 	}
 
-- 
2.43.0


From 5c4c34212e23732704f87b34f3af044f9b7fc51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:18 +0000
Subject: [PATCH 068/135] fix: zml files included by an included file were
 missing from the included files

---
 xo/serialization/prop_node_serializer_zml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/serialization/prop_node_serializer_zml.cpp b/xo/serialization/prop_node_serializer_zml.cpp
index 8e77023..81f6b7d 100644
--- a/xo/serialization/prop_node_serializer_zml.cpp
+++ b/xo/serialization/prop_node_serializer_zml.cpp
@@ -69,7 +69,7 @@ namespace xo
 					zml_error( str, ec, "'<<' has no find matching '>>'" );
 				if ( filename.is_relative() )
 					filename = folder / filename;
-				parent.append( load_zml( filename, ec ) );
+				parent.append( load_zml( filename, ec, path(), included_files ) );
 				if ( included_files )
 					included_files->emplace_back( std::move( filename ) );
 			}
-- 
2.43.0


From d1231c79091729133dc09137df9caf0f663beee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:43 +0000
Subject: [PATCH 069/135] fix: a zml file that includes itself was read until
 the stack was full

---
 xo/serialization/prop_node_serializer_zml.cpp | 39 ++++++++++++++-----
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/xo/serialization/prop_node_serializer_zml.cpp b/xo/serialization/prop_node_serializer_zml.cpp
index 81f6b7d..14b5933 100644
--- a/xo/serialization/prop_node_serializer_zml.cpp
+++ b/xo/serialization/prop_node_serializer_zml.cpp
@@ -1,5 +1,6 @@
 #include "prop_node_serializer_zml.h"
 
+#include <filesystem>
 #include <fstream>
 #include <sstream>
 
@@ -47,7 +48,10 @@ namespace xo
 		}
 	}
 
-	void read_zml_layer( char_stream& str, prop_node& parent, const string& close, error_code* ec, const path& folder, vector<path>* included_files, const prop_node& root, prop_node& macros )
+	// open_files are the files that are being read, to detect files that include themselves
+	prop_node load_zml( const path& filename, error_code* ec, vector<path>* included_files, vector<path>& open_files );
+
+	void read_zml_layer( char_stream& str, prop_node& parent, const string& close, error_code* ec, const path& folder, vector<path>* included_files, vector<path>& open_files, const prop_node& root, prop_node& macros )
 	{
 		// keep track of the number of macros so we can delete them at the end of this scope
 		auto macro_count = macros.size();
@@ -69,7 +73,7 @@ namespace xo
 					zml_error( str, ec, "'<<' has no find matching '>>'" );
 				if ( filename.is_relative() )
 					filename = folder / filename;
-				parent.append( load_zml( filename, ec, path(), included_files ) );
+				parent.append( load_zml( filename, ec, included_files, open_files ) );
 				if ( included_files )
 					included_files->emplace_back( std::move( filename ) );
 			}
@@ -121,9 +125,9 @@ namespace xo
 
 				// parse value element after
 				if ( is_op( "{" ) ) // new group
-					read_zml_layer( str, *next_parent, "}", ec, folder, included_files, root, macros );
+					read_zml_layer( str, *next_parent, "}", ec, folder, included_files, open_files, root, macros );
 				else if ( is_op( "[" ) ) // new array
-					read_zml_layer( str, *next_parent, "]", ec, folder, included_files, root, macros );
+					read_zml_layer( str, *next_parent, "]", ec, folder, included_files, open_files, root, macros );
 				else if ( str_begins_with( t, '@' ) )
 				{
 					// assign previous value
@@ -172,21 +176,22 @@ namespace xo
 			macros.pop_back();
 	}
 
-	prop_node parse_zml( char_stream& str, error_code* ec, const path& folder, vector<path>* included_files = nullptr )
+	prop_node parse_zml( char_stream& str, error_code* ec, const path& folder, vector<path>* included_files, vector<path>& open_files )
 	{
 		str.set_operators( { "=", ": ", "{", "}", "[", "]", "#", "<<", ">>", "//", "/*", "*/" } );
 		str.set_delimiter_chars( " \n\r\t\v" );
 		str.set_quotation_chars( "\"'" );
 
 		prop_node root, macros;
-		read_zml_layer( str, root, "", ec, folder, included_files, root, macros );
+		read_zml_layer( str, root, "", ec, folder, included_files, open_files, root, macros );
 		return root;
 	}
 
 	prop_node parse_zml( const char* str, error_code* ec )
 	{
 		char_stream stream( str );
-		return parse_zml( stream, ec, path() );
+		vector<path> open_files;
+		return parse_zml( stream, ec, path(), nullptr, open_files );
 	}
 
 	// characters that have a meaning to the reader, strings that contain these must be quoted
@@ -293,7 +298,8 @@ namespace xo
 		xo_assert( read_pn_ );
 		// #todo: more efficient. parser should be able to take any stream type.
 		char_stream stream( string( std::istreambuf_iterator<char>( str ), {} ) );
-		*read_pn_ = parse_zml( stream, ec_, file_folder_, &included_files_ );
+		vector<path> open_files;
+		*read_pn_ = parse_zml( stream, ec_, file_folder_, &included_files_, open_files );
 		return str;
 	}
 
@@ -313,12 +319,25 @@ namespace xo
 		return str;
 	}
 
-	XO_API prop_node load_zml( const path& filename, error_code* ec, path parent_folder, vector<path>* included_files )
+	prop_node load_zml( const path& filename, error_code* ec, vector<path>* included_files, vector<path>& open_files )
 	{
+		for ( auto& f : open_files )
+			if ( std::error_code e; std::filesystem::equivalent( f.str(), filename.str(), e ) )
+				return set_error_or_throw( ec, "File includes itself: " + filename.str() ), prop_node();
+
 		char_stream stream( load_string( filename, ec ) );
 		if ( ec && ec->bad() )
 			return prop_node();
-		return parse_zml( stream, ec, filename.parent_path(), included_files );
+		open_files.push_back( filename );
+		auto pn = parse_zml( stream, ec, filename.parent_path(), included_files, open_files );
+		open_files.pop_back();
+		return pn;
+	}
+
+	XO_API prop_node load_zml( const path& filename, error_code* ec, path parent_folder, vector<path>* included_files )
+	{
+		vector<path> open_files;
+		return load_zml( filename, ec, included_files, open_files );
 	}
 
 	XO_API void save_zml( const prop_node& pn, const path& filename, error_code* ec )
-- 
2.43.0


From 2d1815d88d24670146a61c0be898c284827ff1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:43 +0000
Subject: [PATCH 070/135] fix: loading a folder as a file was not reported as
 an error

---
 xo/serialization/prop_node_serializer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xo/serialization/prop_node_serializer.cpp b/xo/serialization/prop_node_serializer.cpp
index d5b10ca..f67e31b 100644
--- a/xo/serialization/prop_node_serializer.cpp
+++ b/xo/serialization/prop_node_serializer.cpp
@@ -4,6 +4,7 @@
 
 #include "xo/system/error_code.h"
 #include "xo/container/prop_node.h"
+#include "xo/filesystem/filesystem.h"
 
 namespace xo
 {
@@ -22,7 +23,7 @@ namespace xo
 	prop_node prop_node_serializer::load_file( const path& filename, error_code* ec )
 	{
 		std::ifstream str( filename.str() );
-		if ( str )
+		if ( str && !directory_exists( filename ) )
 		{
 			prop_node pn;
 			read_pn_ = &pn;
-- 
2.43.0


From 8c0cea01ee36c811a82460fe6626f4d350bab81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:23 +0000
Subject: [PATCH 071/135] fix: a test case that threw an exception without
 message counted as successful

---
 xo/system/test_case.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xo/system/test_case.cpp b/xo/system/test_case.cpp
index a67fea7..afff271 100644
--- a/xo/system/test_case.cpp
+++ b/xo/system/test_case.cpp
@@ -57,6 +57,8 @@ namespace xo
 			catch ( std::exception& e )
 			{
 				result_.error_ = e.what();
+				if ( result_.error_.empty() )
+					result_.error_ = "exception without message"; // an empty error means success
 				return false;
 			}
 		}
-- 
2.43.0


From 2970806993cc0620ad943e0577703add1c9eb06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:23 +0000
Subject: [PATCH 072/135] fix: a test case that threw something other than a
 std::exception ended the whole test run

---
 xo/system/test_case.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xo/system/test_case.cpp b/xo/system/test_case.cpp
index afff271..bc094e7 100644
--- a/xo/system/test_case.cpp
+++ b/xo/system/test_case.cpp
@@ -61,6 +61,11 @@ namespace xo
 					result_.error_ = "exception without message"; // an empty error means success
 				return false;
 			}
+			catch ( ... )
+			{
+				result_.error_ = "unknown exception";
+				return false;
+			}
 		}
 
 		const test_result& test_case::run()
-- 
2.43.0


From b4ebfffae14442cb5b7e4512c9c26ddda20a202f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:23 +0000
Subject: [PATCH 073/135] fix: running a test case again added to the result of
 the run before it

---
 xo/system/test_case.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xo/system/test_case.cpp b/xo/system/test_case.cpp
index bc094e7..8d003e9 100644
--- a/xo/system/test_case.cpp
+++ b/xo/system/test_case.cpp
@@ -71,6 +71,7 @@ namespace xo
 		const test_result& test_case::run()
 		{
 			log::debug( "STARTING: ", name_ );
+			result_ = test_result();
 			if ( try_run_func() )
 			{
 				auto lock = std::scoped_lock( g_log_mutex );
-- 
2.43.0


From 4e68e432a886efb2c68dfa3753ab7dc90caa496f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:23 +0000
Subject: [PATCH 074/135] fix: a test program with 256 failed test cases
 returned exit code 0

---
 xo/system/test_main.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xo/system/test_main.h b/xo/system/test_main.h
index efc5462..a9abb60 100644
--- a/xo/system/test_main.h
+++ b/xo/system/test_main.h
@@ -14,5 +14,6 @@ int main( int argc, char* argv[] )
 {
 	xo::log::console_sink sink( xo::log::level::info );
 	xo::log::add_sink( &sink );
-	return xo::test::run_tests();
+	const auto failed = xo::test::run_tests();
+	return failed < 256 ? failed : 255; // more does not fit in an exit code, 256 would become 0
 }
-- 
2.43.0


From 0342708a59c286ec354bfd01feaa8dff724d3889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:40 +0000
Subject: [PATCH 075/135] fix: comparing two optional values with != recursed
 until the stack was full

---
 xo/utility/optional.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/utility/optional.h b/xo/utility/optional.h
index c51c2b5..76d52b5 100644
--- a/xo/utility/optional.h
+++ b/xo/utility/optional.h
@@ -74,5 +74,5 @@ namespace xo
 	template< typename T > bool operator==( const T& lhs, const optional<T>& rhs ) { return rhs == lhs; }
 	template< typename T > bool operator!=( const T& lhs, const optional<T>& rhs ) { return rhs != lhs; }
 	template< typename T > bool operator==( const optional<T>& lhs, const optional<T>& rhs ) { return ( lhs && rhs && *rhs == *lhs ) || ( !lhs && !rhs ); }
-	template< typename T > bool operator!=( const optional<T>& lhs, const optional<T>& rhs ) { return rhs != lhs; }
+	template< typename T > bool operator!=( const optional<T>& lhs, const optional<T>& rhs ) { return !( lhs == rhs ); }
 }
-- 
2.43.0


From b72dbdd8f57ed02b1000f311a044b76ff3b60b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:40 +0000
Subject: [PATCH 076/135] fix: setting a bounded value ran off the end of a
 function that returns a reference

---
 xo/numerical/bounded.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xo/numerical/bounded.h b/xo/numerical/bounded.h
index 062812a..b431e82 100644
--- a/xo/numerical/bounded.h
+++ b/xo/numerical/bounded.h
@@ -9,9 +9,9 @@ namespace xo
 	{
 		bounded() {}
 		bounded( T value ) { set( value ); }
-		bounded< T, L, U >& operator=( T value ) { set( value ); }
-		bounded< T, L, U >& operator=( bounded< T, L, U >& value ) { set( value ); }
-		bounded< T, L, U >& set( T value ) { if ( value < L || value > U ) xo_error( "Value out of bounds" ); else value_ = value; }
+		bounded< T, L, U >& operator=( T value ) { return set( value ); }
+		bounded< T, L, U >& operator=( const bounded< T, L, U >& value ) { return set( value.value_ ); }
+		bounded< T, L, U >& set( T value ) { if ( value < L || value > U ) xo_error( "Value out of bounds" ); else value_ = value; return *this; }
 
 		operator const T& ( ) const { return value_; }
 		operator T& ( ) { return value_; }
-- 
2.43.0


From fddfd0a36836f4d2fc4759f13b00973a11ae0183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:40 +0000
Subject: [PATCH 077/135] fix: the size of an frange was one less than its
 number of elements

---
 xo/utility/frange.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xo/utility/frange.h b/xo/utility/frange.h
index daa297e..bfd39d2 100644
--- a/xo/utility/frange.h
+++ b/xo/utility/frange.h
@@ -28,7 +28,7 @@ namespace xo
 			iterator( T step, T b, T e, T steps ) : step_( step ), min_( b ), max_( e ), max_step_( steps ) {}
 			T step_, min_, max_, max_step_;
 			T operator++() { return step_ += T( 1 ); }
-			T operator++( int ) { step_ += T( 1 ); return max_step_ - T( 1 ); }
+			T operator++( int ) { step_ += T( 1 ); return step_ - T( 1 ); }
 			bool operator==( const iterator& other ) { return other.step_ == step_; }
 			bool operator!=( const iterator& other ) { return other.step_ != step_; }
 			T operator*() const { return min_ + step_ * ( max_ - min_ ) / max_step_; }
@@ -36,7 +36,7 @@ namespace xo
 
 		iterator begin() const { return iterator( T( 0 ), min_, max_, max_step_ ); }
 		iterator end() const { return iterator( max_step_ + 1, min_, max_, max_step_ ); }
-		size_t size() const { return size_t( max_step_ ); }
+		size_t size() const { return size_t( max_step_ ) + 1; }
 
 		T min_, max_, max_step_;
 	};
-- 
2.43.0


From db8a1aa450b40e12a1ccb1a1cfa2e6a93890ee33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:40 +0000
Subject: [PATCH 078/135] fix: the value of an frange with one element was not
 a number

---
 xo/utility/frange.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/utility/frange.h b/xo/utility/frange.h
index bfd39d2..d848226 100644
--- a/xo/utility/frange.h
+++ b/xo/utility/frange.h
@@ -31,7 +31,7 @@ namespace xo
 			T operator++( int ) { step_ += T( 1 ); return step_ - T( 1 ); }
 			bool operator==( const iterator& other ) { return other.step_ == step_; }
 			bool operator!=( const iterator& other ) { return other.step_ != step_; }
-			T operator*() const { return min_ + step_ * ( max_ - min_ ) / max_step_; }
+			T operator*() const { return max_step_ > T( 0 ) ? min_ + step_ * ( max_ - min_ ) / max_step_ : min_; }
 		};
 
 		iterator begin() const { return iterator( T( 0 ), min_, max_, max_step_ ); }
-- 
2.43.0


From 2d414580cd7096a12ff2af5085b7c9fea573509d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:40 +0000
Subject: [PATCH 079/135] fix: an irange with a step that does not divide its
 length never ended

---
 xo/utility/irange.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xo/utility/irange.h b/xo/utility/irange.h
index abfbc35..b82b6e2 100644
--- a/xo/utility/irange.h
+++ b/xo/utility/irange.h
@@ -75,7 +75,12 @@ namespace xo
 		};
 
 		iterator begin() const { return iterator( begin_, step_ ); }
-		iterator end() const { return iterator( end_, step_ ); }
+		iterator end() const {
+			if ( step_ > T( 0 ) ? end_ <= begin_ : begin_ <= end_ ) return begin();
+			T n = ( end_ - begin_ ) / step_;
+			if constexpr ( std::is_floating_point_v<T> ) n = std::floor( n );
+			return iterator( begin_ + ( begin_ + n * step_ == end_ ? n : n + T( 1 ) ) * step_, step_ );
+		}
 
 		T begin_, end_, step_;
 	};
-- 
2.43.0


From d3bedd4d2637a3465dd39160efc0a6b06cabe285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:40 +0000
Subject: [PATCH 080/135] fix: a delayer started with only one of its values
 initialized

---
 xo/numerical/delayer.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xo/numerical/delayer.h b/xo/numerical/delayer.h
index 2cfbf53..3221065 100644
--- a/xo/numerical/delayer.h
+++ b/xo/numerical/delayer.h
@@ -13,8 +13,8 @@ namespace xo
 			window_( delay / ( N - 1 ) ),
 			time_( 0 ),
 			idx_( 0 ),
-			data_{ init_value }
-		{ static_assert( N >= 2 ); xo_assert( delay > 0 ); }
+			data_()
+		{ static_assert( N >= 2 ); xo_assert( delay > 0 ); data_.fill( init_value ); }
 
 		void add_sample( const T& value, float delta_time ) {
 			time_ += delta_time;
@@ -47,8 +47,8 @@ namespace xo
 			time_( 0 ),
 			inter_( 0 ),
 			idx_( 0 ),
-			data_{ init_value }
-		{ static_assert( N >= 2 ); xo_assert( delay > 0 ); }
+			data_()
+		{ static_assert( N >= 2 ); xo_assert( delay > 0 ); data_.fill( init_value ); }
 
 		void add_sample( const T& value, float delta_time ) {
 			time_ += delta_time;
-- 
2.43.0


From b3c4295fbe95c7d69f81ea26a52266537139e4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:40 +0000
Subject: [PATCH 081/135] fix: the center of bounds of an integer type was
 always zero

---
 xo/numerical/bounds.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/numerical/bounds.h b/xo/numerical/bounds.h
index 8313908..22aa155 100644
--- a/xo/numerical/bounds.h
+++ b/xo/numerical/bounds.h
@@ -19,7 +19,7 @@ namespace xo
 
 		bool is_within( const T& value ) const { return ( value >= lower ) && ( value <= upper ); }
 		T length() const { return upper - lower; }
-		T center() const { return T( 0.5 ) * ( lower + upper ); }
+		T center() const { return ( lower + upper ) / T( 2 ); }
 
 		/// check bounds, return negative when value below lower, positive when value above upper, 0 when within bounds
 		T get_violation( const T& value ) const { if ( value < lower ) return value - lower; else if ( value > upper ) return value - upper; else return T( 0 ); }
-- 
2.43.0


From 59e60f2e3031578bdee9b81cd61857cb73dc6e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:02 +0000
Subject: [PATCH 082/135] fix: subtracting, negating and scaling a vec4 ignored
 its fourth element, and dividing one did not compile

---
 xo/geometry/vec4.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/xo/geometry/vec4.h b/xo/geometry/vec4.h
index e4ef529..b0d15e1 100644
--- a/xo/geometry/vec4.h
+++ b/xo/geometry/vec4.h
@@ -1,7 +1,7 @@
 #pragma once
 
 #include "vec4_type.h"
-#include "math.h"
+#include "xo/numerical/math.h"
 
 namespace xo
 {
@@ -14,30 +14,30 @@ namespace xo
 
 	/// Subtraction
 	template< typename T > vec4_<T> operator-( const vec4_<T>& v1, const vec4_<T>& v2 )
-	{ return vec4_<T>( v1.x - v2.x, v1.y - v2.y, v1.z - v2.z ); }
+	{ return vec4_<T>( v1.x - v2.x, v1.y - v2.y, v1.z - v2.z, v1.w - v2.w ); }
 	/// Subtraction
 	template< typename T > vec4_<T>& operator-=( vec4_<T>& v1, const vec4_<T>& v2 )
-	{ v1.x -= v2.x; v1.y -= v2.y; v1.z -= v2.z; return v1; }
+	{ v1.x -= v2.x; v1.y -= v2.y; v1.z -= v2.z; v1.w -= v2.w; return v1; }
 
 	/// Negation
 	template< typename T > vec4_<T> operator-( vec4_<T> v )
-	{ v.x = -v.x; v.y = -v.y; v.z = -v.z; return v; }
+	{ v.x = -v.x; v.y = -v.y; v.z = -v.z; v.w = -v.w; return v; }
 
 	/// Scalar multiplication
 	template< typename T > vec4_<T> operator*( T s, vec4_<T> v )
-	{ v.x *= s; v.y *= s; v.z *= s; return v; }
+	{ v.x *= s; v.y *= s; v.z *= s; v.w *= s; return v; }
 	/// Scalar multiplication
 	template< typename T > vec4_<T> operator*( vec4_<T> v, T s )
-	{ v.x *= s; v.y *= s; v.z *= s; return v; }
+	{ v.x *= s; v.y *= s; v.z *= s; v.w *= s; return v; }
 	/// Scalar multiplication
 	template< typename T > vec4_<T>& operator*=( vec4_<T>& v, T s )
-	{ v.x *= s; v.y *= s; v.z *= s; return v; }
+	{ v.x *= s; v.y *= s; v.z *= s; v.w *= s; return v; }
 
 	/// Scalar division
 	template< typename T > vec4_<T> operator/( vec4_<T> v, T s )
-	{ T ms = inv( s ); v.x *= ms; v.y *= ms; v.z *= ms; return v; }
+	{ T ms = inv( s ); v.x *= ms; v.y *= ms; v.z *= ms; v.w *= ms; return v; }
 	/// Scalar division
 	template< typename T > vec4_<T>& operator/=( vec4_<T>& v, T s )
-	{ T ms = inv( s ); v.x *= ms; v.y *= ms; v.z *= ms; return v; }
+	{ T ms = inv( s ); v.x *= ms; v.y *= ms; v.z *= ms; v.w *= ms; return v; }
 }
 
-- 
2.43.0


From 1ba00b57f90b7ed463d94b3ee01b59e2234a79d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:02 +0000
Subject: [PATCH 083/135] fix: scaled returned a reference to a local vec3

---
 xo/geometry/vec3.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/geometry/vec3.h b/xo/geometry/vec3.h
index 30b17ac..2b8f8e6 100644
--- a/xo/geometry/vec3.h
+++ b/xo/geometry/vec3.h
@@ -132,7 +132,7 @@ namespace xo
 	{ v.x *= s.x; v.y *= s.y; v.z *= s.z; return v; }
 
 	/// Scale vector elements
-	template< typename T > vec3_<T>& scaled( vec3_<T> v, const vec3_<T>& s ) { return scale( v, s ); }
+	template< typename T > vec3_<T> scaled( vec3_<T> v, const vec3_<T>& s ) { return scale( v, s ); }
 
 	/// Projection of v1 onto v2
 	template< typename T > vec3_<T> projection( const vec3_<T>& v1, const vec3_<T>& v2 )
-- 
2.43.0


From 077b9ac4eb7beca0d90756b07a1fbfefbd2fae30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:02 +0000
Subject: [PATCH 084/135] fix: the inverse of a quaternion was wrong unless its
 length was one

---
 xo/geometry/quat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/geometry/quat.h b/xo/geometry/quat.h
index b53a4b5..280a2eb 100644
--- a/xo/geometry/quat.h
+++ b/xo/geometry/quat.h
@@ -102,7 +102,7 @@ namespace xo
 
 	/// get quaternion inverse; #todo: verify correctness
 	template< typename T > quat_<T> inverse( quat_<T> q )
-	{ auto f = T( -1 ) / squared_length( q ); q.x *= f; q.y *= f; q.z *= f; return q; }
+	{ auto f = T( 1 ) / squared_length( q ); q.w *= f; q.x *= -f; q.y *= -f; q.z *= -f; return q; }
 
 	/// return quaternion in which w is positive (negate if w < 0)
 	template< typename T > quat_<T> positive( quat_<T> q )
-- 
2.43.0


From f4878e0bbbad9cfb80452554d551cbfd9ed92c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:02 +0000
Subject: [PATCH 085/135] fix: quat_from_directions always rotated around x for
 opposite directions, which does nothing to a vector along x

---
 xo/geometry/quat.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/xo/geometry/quat.h b/xo/geometry/quat.h
index 280a2eb..7a3233f 100644
--- a/xo/geometry/quat.h
+++ b/xo/geometry/quat.h
@@ -132,8 +132,12 @@ namespace xo
 	template< typename T > quat_<T> quat_from_directions( const vec3_<T>& source, const vec3_<T>& target ) {
 		vec3_<T> axis = cross_product( source, target );
 		T dot = dot_product( source, target );
-		if ( dot < -1.0f + constants<T>::ample_epsilon() )
-			return quat_<T>( 0, 1, 0, 0 );
+		if ( dot < -1.0f + constants<T>::ample_epsilon() ) {
+			// opposite directions, rotate around any axis that is perpendicular to source
+			axis = cross_product( source, std::abs( source.x ) < T( 0.6 ) ? vec3_<T>::unit_x() : vec3_<T>::unit_y() );
+			normalize( axis );
+			return quat_<T>( 0, axis.x, axis.y, axis.z );
+		}
 		quat_<T> result( dot + 1.0f, axis.x, axis.y, axis.z );
 		normalize( result );
 		return result;
-- 
2.43.0


From dcb183c5c6bb256471503582724af54cb638a293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:02 +0000
Subject: [PATCH 086/135] fix: quat_from_mat33 did not compile

---
 xo/geometry/mat33.h      | 1 +
 xo/geometry/mat33_type.h | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/xo/geometry/mat33.h b/xo/geometry/mat33.h
index cd0fa7f..2e41a8e 100644
--- a/xo/geometry/mat33.h
+++ b/xo/geometry/mat33.h
@@ -3,6 +3,7 @@
 #include "mat33_type.h"
 #include "vec3_type.h"
 #include "quat_type.h"
+#include <cmath>
 
 namespace xo
 {
diff --git a/xo/geometry/mat33_type.h b/xo/geometry/mat33_type.h
index 820b202..8021e3b 100644
--- a/xo/geometry/mat33_type.h
+++ b/xo/geometry/mat33_type.h
@@ -18,7 +18,9 @@ namespace xo
 
 		T e00, e01, e02, e10, e11, e12, e20, e21, e22;
 		T* operator[]( index_t row ) { return &ptr()[row * 3]; }
+		const T* operator[]( index_t row ) const { return &ptr()[row * 3]; }
 		T* ptr() { return &e00; }
+		const T* ptr() const { return &e00; }
 	};
 
 	using mat33f = mat33_< float >;
-- 
2.43.0


From 50554b12bc4b3a390951fb62160a45cd1c18ab20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:02 +0000
Subject: [PATCH 087/135] fix: mirror_tools.h did not compile

---
 xo/geometry/mirror_tools.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xo/geometry/mirror_tools.h b/xo/geometry/mirror_tools.h
index 61d14d2..e7496c9 100644
--- a/xo/geometry/mirror_tools.h
+++ b/xo/geometry/mirror_tools.h
@@ -73,7 +73,8 @@ namespace xo
 		return obj;
 	}
 
-	inline vec3 mirrored_axis_if( vec3 dir, bool m ) {
+	template< typename T >
+	vec3_<T> mirrored_axis_if( vec3_<T> dir, bool m ) {
 		if ( m )
 			mirror_axis( dir );
 		return dir;
-- 
2.43.0


From b899fe1b5a884a3095d33e064c4c481b71cdb210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:24 +0000
Subject: [PATCH 088/135] fix: Euler angles of a quaternion were not numbers or
 of another rotation when the second angle is a right angle

---
 xo/geometry/quat.h | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/xo/geometry/quat.h b/xo/geometry/quat.h
index 7a3233f..87116ff 100644
--- a/xo/geometry/quat.h
+++ b/xo/geometry/quat.h
@@ -340,28 +340,41 @@ namespace xo
 		return radian_< T >( atan2( txy + twz, T( 1 ) - ( tyy + tzz ) ) );
 	}
 
+	/// Test if the sine of the second Euler angle is so close to 1 or -1 that only a combination of the other angles can be determined
+	template< typename T > bool is_gimbal_locked( const T& s )
+	{ return std::abs( s ) >= T( 1 ) - constants<T>::ample_epsilon(); }
+
 	template< typename T > vec3rad_<T> euler_xyz_from_quat( const quat_<T>& q )
 	{
+		const T s = 2 * ( q.x * q.z + q.w * q.y );
+		if ( is_gimbal_locked( s ) )
+			return vec3rad_<T>( 2 * std::atan2( q.x, q.w ), std::copysign( constants<T>::half_pi(), s ), T( 0 ) );
 		return vec3rad_<T>(
 			std::atan2( -2 * ( q.y * q.z - q.w * q.x ), q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z ),
-			std::asin( 2 * ( q.x * q.z + q.w * q.y ) ),
+			std::asin( s ),
 			std::atan2( -2 * ( q.x * q.y - q.w * q.z ), q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z )
 			);
 	}
 
 	template< typename T > vec3rad_<T> euler_xzy_from_quat( const quat_<T>& q )
 	{
+		const T s = -2 * ( q.x * q.y - q.w * q.z );
+		if ( is_gimbal_locked( s ) )
+			return vec3rad_<T>( 2 * std::atan2( q.x, q.w ), T( 0 ), std::copysign( constants<T>::half_pi(), s ) );
 		return vec3rad_<T>(
 			std::atan2( 2 * ( q.y * q.z + q.w * q.x ), q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z ),
 			std::atan2( 2 * ( q.x * q.z + q.w * q.y ), q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z ),
-			std::asin( -2 * ( q.x * q.y - q.w * q.z ) )
+			std::asin( s )
 			);
 	}
 
 	template< typename T > vec3rad_<T> euler_yxz_from_quat( const quat_<T>& q )
 	{
+		const T s = -2 * ( q.y * q.z - q.w * q.x );
+		if ( is_gimbal_locked( s ) )
+			return vec3rad_<T>( std::copysign( constants<T>::half_pi(), s ), 2 * std::atan2( q.y, q.w ), T( 0 ) );
 		return vec3rad_<T>(
-			std::asin( -2 * ( q.y * q.z - q.w * q.x ) ),
+			std::asin( s ),
 			std::atan2( 2 * ( q.x * q.z + q.w * q.y ), q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z ),
 			std::atan2( 2 * ( q.x * q.y + q.w * q.z ), q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z )
 			);
@@ -369,17 +382,23 @@ namespace xo
 
 	template< typename T > vec3rad_<T> euler_yzx_from_quat( const quat_<T>& q )
 	{
+		const T s = 2 * ( q.x * q.y + q.w * q.z );
+		if ( is_gimbal_locked( s ) )
+			return vec3rad_<T>( T( 0 ), 2 * std::atan2( q.y, q.w ), std::copysign( constants<T>::half_pi(), s ) );
 		return vec3rad_<T>(
 			std::atan2( -2 * ( q.y * q.z - q.w * q.x ), q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z ),
 			std::atan2( -2 * ( q.x * q.z - q.w * q.y ), q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z ),
-			std::asin( 2 * ( q.x * q.y + q.w * q.z ) )
+			std::asin( s )
 			);
 	}
 
 	template< typename T > vec3rad_<T> euler_zxy_from_quat( const quat_<T>& q )
 	{
+		const T s = 2 * ( q.y * q.z + q.w * q.x );
+		if ( is_gimbal_locked( s ) )
+			return vec3rad_<T>( std::copysign( constants<T>::half_pi(), s ), T( 0 ), 2 * std::atan2( q.z, q.w ) );
 		return vec3rad_<T>(
-			std::asin( 2 * ( q.y * q.z + q.w * q.x ) ),
+			std::asin( s ),
 			std::atan2( -2 * ( q.x * q.z - q.w * q.y ), q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z ),
 			std::atan2( -2 * ( q.x * q.y - q.w * q.z ), q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z )
 			);
@@ -387,9 +406,12 @@ namespace xo
 
 	template< typename T > vec3rad_<T> euler_zyx_from_quat( const quat_<T>& q )
 	{
+		const T s = -2 * ( q.x * q.z - q.w * q.y );
+		if ( is_gimbal_locked( s ) )
+			return vec3rad_<T>( T( 0 ), std::copysign( constants<T>::half_pi(), s ), 2 * std::atan2( q.z, q.w ) );
 		return vec3rad_<T>(
 			std::atan2( 2 * ( q.y * q.z + q.w * q.x ), q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z ),
-			std::asin( -2 * ( q.x * q.z - q.w * q.y ) ),
+			std::asin( s ),
 			std::atan2( 2 * ( q.x * q.y + q.w * q.z ), q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z )
 			);
 	}
-- 
2.43.0


From 639e3538568ad658fbd9c7f558b621c18c85dd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:24 +0000
Subject: [PATCH 089/135] fix: multiplying a dynmat with a dynvec did not
 compile, and had rows and columns swapped

---
 xo/geometry/dynmat.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xo/geometry/dynmat.h b/xo/geometry/dynmat.h
index 1057321..9ddad7f 100644
--- a/xo/geometry/dynmat.h
+++ b/xo/geometry/dynmat.h
@@ -50,13 +50,13 @@ namespace xo
 
 	template< typename T > dynvec< T > operator*( const dynmat< T >& m, const dynvec< T >& v )
 	{
-		flut_assert( m.cols() == v.size() );
+		xo_assert( m.cols() == v.size() );
 		dynvec< T > r( m.rows() );
 		for ( index_t row = 0; row < m.rows(); ++row )
 		{
 			T sum = 0.0;
 			for ( index_t col = 0; col < m.cols(); ++col )
-				sum += m( row, col ) * v[col];
+				sum += m( col, row ) * v[col];
 			r[row] = sum;
 		}
 		return r;
-- 
2.43.0


From b0a6b71a66130e08a3df4480650e4514ea727b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:32 +0000
Subject: [PATCH 090/135] fix: a dynarray lost its elements when assigned to
 itself, and kept its size after its elements were moved elsewhere

---
 xo/container/dynarray.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xo/container/dynarray.h b/xo/container/dynarray.h
index f20249e..910d52a 100644
--- a/xo/container/dynarray.h
+++ b/xo/container/dynarray.h
@@ -18,9 +18,9 @@ namespace xo
 		dynarray() : data_( nullptr ), end_( nullptr ) {}
 		dynarray( size_t n, const T& v = T() ) : data_( new T[n] ), end_( data_.get() + n ) { assign( v ); }
 		dynarray( const dynarray& o ) : data_( new T[o.size()] ), end_( data_.get() + o.size() ) { xo::copy( o.begin(), o.end(), begin() ); }
-		dynarray( dynarray&& o ) noexcept : data_( std::move( o.data_ ) ), end_( o.end_ ) {}
-		dynarray<T>& operator=( const dynarray& o ) { data_ = u_ptr< T[] >( new T[o.size()] ); end_ = data_.get() + o.size(); xo::copy( o.begin(), o.end(), begin() ); return *this; }
-		dynarray<T>& operator=( dynarray&& o ) noexcept { data_ = std::move( o.data_ ); end_ = o.end_; return *this; }
+		dynarray( dynarray&& o ) noexcept : data_( std::move( o.data_ ) ), end_( o.end_ ) { o.end_ = nullptr; }
+		dynarray<T>& operator=( const dynarray& o ) { return *this = dynarray( o ); }
+		dynarray<T>& operator=( dynarray&& o ) noexcept { auto* e = o.end_; data_ = std::move( o.data_ ); o.end_ = nullptr; end_ = e; return *this; }
 		~dynarray() {}
 
 		T& operator[]( size_t i ) { return data_[i]; }
-- 
2.43.0


From 4b773f69d57d9607e20dc90bbcd0eccf7b884606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:52 +0000
Subject: [PATCH 091/135] fix: dynvec.h needed functions that it did not
 include

---
 xo/geometry/dynvec.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xo/geometry/dynvec.h b/xo/geometry/dynvec.h
index 670f0d4..605de6c 100644
--- a/xo/geometry/dynvec.h
+++ b/xo/geometry/dynvec.h
@@ -4,6 +4,8 @@
 #include "xo/utility/pointer_iterator.h"
 #include "xo/container/dynarray.h"
 #include "xo/numerical/constants.h"
+#include "xo/numerical/compare.h"
+#include "xo/numerical/math.h"
 #include <cmath>
 
 namespace xo
-- 
2.43.0


From 9002a3edb18de648c30b830fc5679dbaab73209c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:00 +0000
Subject: [PATCH 092/135] fix: a transform converted to a prop_node had its
 rotation inside its position

---
 xo/geometry/transform.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/geometry/transform.h b/xo/geometry/transform.h
index 76ac261..ac7b0ce 100644
--- a/xo/geometry/transform.h
+++ b/xo/geometry/transform.h
@@ -20,7 +20,7 @@ namespace xo
 		quat_<T> q;
 
 		/// convert to prop_node
-		explicit operator prop_node() const { return prop_node().set( "p", p ).set( "q", q ); }
+		explicit operator prop_node() const { prop_node pn; pn.set( "p", p ); pn.set( "q", q ); return pn; }
 
 		/// concatenate transforms
 		transform_<T> operator*( const transform_<T>& t ) const { return transform_<T>( p + q * t.p, q * t.q ); }
-- 
2.43.0


From 73e067275a8be3e46b846246d380e05c053c35f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:00 +0000
Subject: [PATCH 093/135] fix: the order of Euler angles could not be given in
 a prop_node

---
 xo/geometry/quat.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/xo/geometry/quat.h b/xo/geometry/quat.h
index 87116ff..859a326 100644
--- a/xo/geometry/quat.h
+++ b/xo/geometry/quat.h
@@ -444,10 +444,15 @@ namespace xo
 			q.set( pn.get<T>( "w" ), pn.get<T>( "x" ), pn.get<T>( "y" ), pn.get<T>( "z" ) );
 			return true;
 		}
+		else if ( pn.size() == 4 && pn.has_key( "order" ) ) {
+			// quaternion from Euler angles x, y, z with a specific order
+			vec3_< degree_<T> > v( pn.get< degree_<T> >( "x" ), pn.get< degree_<T> >( "y" ), pn.get< degree_<T> >( "z" ) );
+			q = quat_from_euler( v, pn.get< euler_order >( "order" ) );
+			return true;
+		}
 		else if ( vec3_< degree_<T> > v; from_prop_node( pn, v ) ) {
 			// quaternion from Euler angles
-			auto order = pn.get< euler_order >( "order", euler_order::xyz );
-			q = quat_from_euler( v, order );
+			q = quat_from_euler( v );
 			return true;
 		}
 		else return false;
-- 
2.43.0


From 7c7142b3d8973f4cc84817e14feaceed80054309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:38 +0000
Subject: [PATCH 094/135] fix: many headers could not be included on their own

---
 xo/container/array.h             | 2 ++
 xo/container/circular_buffer.h   | 1 +
 xo/container/sorted_vector.h     | 4 ++++
 xo/geometry/path_alg.h           | 3 +++
 xo/geometry/vec.h                | 4 ++++
 xo/numerical/console_plot.h      | 4 ++++
 xo/numerical/interpolation.h     | 1 +
 xo/numerical/polynomial.h        | 1 +
 xo/serialization/container_io.h  | 1 +
 xo/shape/capsule.h               | 6 ++++++
 xo/shape/cone.h                  | 4 ++++
 xo/shape/cylinder.h              | 4 ++++
 xo/string/dictionary.h           | 1 +
 xo/system/type_class.h           | 1 +
 xo/utility/arg_parser.h          | 1 +
 xo/utility/file_resource_cache.h | 1 +
 xo/utility/memoize.h             | 2 ++
 xo/utility/optional.h            | 1 +
 18 files changed, 42 insertions(+)

diff --git a/xo/container/array.h b/xo/container/array.h
index ad707c4..73bc81b 100644
--- a/xo/container/array.h
+++ b/xo/container/array.h
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <cstddef>
+
 namespace xo
 {
 	template< typename T, size_t N >
diff --git a/xo/container/circular_buffer.h b/xo/container/circular_buffer.h
index ede4fc6..c3453ba 100644
--- a/xo/container/circular_buffer.h
+++ b/xo/container/circular_buffer.h
@@ -2,6 +2,7 @@
 
 #include "vector_type.h"
 #include "xo/system/assert.h"
+#include "xo/xo_types.h"
 
 namespace xo
 {
diff --git a/xo/container/sorted_vector.h b/xo/container/sorted_vector.h
index 394baa5..a5f8499 100644
--- a/xo/container/sorted_vector.h
+++ b/xo/container/sorted_vector.h
@@ -1,5 +1,9 @@
 #pragma once
 
+#include "vector_type.h"
+#include "xo/string/string_cast.h"
+#include <algorithm>
+
 namespace xo
 {
 	template< typename T >
diff --git a/xo/geometry/path_alg.h b/xo/geometry/path_alg.h
index e594e3f..9d872d0 100644
--- a/xo/geometry/path_alg.h
+++ b/xo/geometry/path_alg.h
@@ -1,6 +1,9 @@
 #pragma once
 
 #include "xo/numerical/compare.h"
+#include "xo/system/assert.h"
+#include "xo/xo_types.h"
+#include <iterator>
 
 namespace xo
 {
diff --git a/xo/geometry/vec.h b/xo/geometry/vec.h
index 39a44e5..164a071 100644
--- a/xo/geometry/vec.h
+++ b/xo/geometry/vec.h
@@ -1,5 +1,9 @@
 #pragma once
 
+#include "xo/xo_types.h"
+#include <algorithm>
+#include <cstddef>
+
 namespace xo
 {
 	template< size_t S, typename T > struct vec_
diff --git a/xo/numerical/console_plot.h b/xo/numerical/console_plot.h
index 74bc716..a339d56 100644
--- a/xo/numerical/console_plot.h
+++ b/xo/numerical/console_plot.h
@@ -4,6 +4,10 @@
 #include <algorithm>
 #include <iostream>
 #include <array>
+#include <cmath>
+#include <limits>
+#include <string>
+#include <vector>
 
 namespace xo
 {
diff --git a/xo/numerical/interpolation.h b/xo/numerical/interpolation.h
index 67dcf29..e150935 100644
--- a/xo/numerical/interpolation.h
+++ b/xo/numerical/interpolation.h
@@ -2,6 +2,7 @@
 
 #include <cmath>
 #include "xo/container/pair_type.h"
+#include "xo/system/assert.h"
 
 namespace xo
 {
diff --git a/xo/numerical/polynomial.h b/xo/numerical/polynomial.h
index 4c81c61..8be8469 100644
--- a/xo/numerical/polynomial.h
+++ b/xo/numerical/polynomial.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <array>
+#include <cstddef>
 
 namespace xo
 {
diff --git a/xo/serialization/container_io.h b/xo/serialization/container_io.h
index 40b02c2..558bbe8 100644
--- a/xo/serialization/container_io.h
+++ b/xo/serialization/container_io.h
@@ -4,6 +4,7 @@
 #include <utility>
 #include <vector>
 #include "xo/system/error_code.h"
+#include "xo/filesystem/path.h"
 
 namespace xo
 {
diff --git a/xo/shape/capsule.h b/xo/shape/capsule.h
index 894ddc4..8f16756 100644
--- a/xo/shape/capsule.h
+++ b/xo/shape/capsule.h
@@ -1,6 +1,12 @@
 #pragma once
 
 #include "xo/system/assert.h"
+#include "xo/container/pair_type.h"
+#include "xo/geometry/quat.h"
+#include "xo/geometry/transform.h"
+#include "xo/numerical/constants.h"
+#include "xo/numerical/math.h"
+#include "aabb.h"
 #include <cmath>
 
 namespace xo
diff --git a/xo/shape/cone.h b/xo/shape/cone.h
index a70e503..2344286 100644
--- a/xo/shape/cone.h
+++ b/xo/shape/cone.h
@@ -1,6 +1,10 @@
 #pragma once
 
 #include "xo/system/assert.h"
+#include "xo/geometry/transform.h"
+#include "xo/numerical/constants.h"
+#include "xo/numerical/math.h"
+#include "aabb.h"
 #include <cmath>
 
 namespace xo
diff --git a/xo/shape/cylinder.h b/xo/shape/cylinder.h
index fc7203a..e1a8f84 100644
--- a/xo/shape/cylinder.h
+++ b/xo/shape/cylinder.h
@@ -1,6 +1,10 @@
 #pragma once
 
 #include "xo/system/assert.h"
+#include "xo/geometry/transform.h"
+#include "xo/numerical/constants.h"
+#include "xo/numerical/math.h"
+#include "aabb.h"
 #include <cmath>
 
 namespace xo
diff --git a/xo/string/dictionary.h b/xo/string/dictionary.h
index 9d3fb3a..e385ec8 100644
--- a/xo/string/dictionary.h
+++ b/xo/string/dictionary.h
@@ -3,6 +3,7 @@
 #include "xo/xo_types.h"
 #include "xo/system/assert.h"
 #include "xo/container/container_tools.h"
+#include "xo/string/string_type.h"
 
 namespace xo
 {
diff --git a/xo/system/type_class.h b/xo/system/type_class.h
index 3809c48..c15d54d 100644
--- a/xo/system/type_class.h
+++ b/xo/system/type_class.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <type_traits>
+#include <string>
 
 namespace xo
 {
diff --git a/xo/utility/arg_parser.h b/xo/utility/arg_parser.h
index f1ddccf..97a58d6 100644
--- a/xo/utility/arg_parser.h
+++ b/xo/utility/arg_parser.h
@@ -3,6 +3,7 @@
 #include "xo/container/vector_type.h"
 #include "xo/string/string_type.h"
 #include "xo/string/string_tools.h"
+#include "xo/system/assert.h"
 
 namespace xo
 {
diff --git a/xo/utility/file_resource_cache.h b/xo/utility/file_resource_cache.h
index 2788842..c1ebbcc 100644
--- a/xo/utility/file_resource_cache.h
+++ b/xo/utility/file_resource_cache.h
@@ -9,6 +9,7 @@
 #include <shared_mutex>
 #include <ctime>
 #include <map>
+#include <functional>
 
 namespace xo
 {
diff --git a/xo/utility/memoize.h b/xo/utility/memoize.h
index 49ba533..f1cef5a 100644
--- a/xo/utility/memoize.h
+++ b/xo/utility/memoize.h
@@ -2,8 +2,10 @@
 
 #include <functional>
 #include <mutex>
+#include <map>
 #include <shared_mutex>
 #include "type_traits.h"
+#include "xo/system/assert.h"
 
 namespace xo
 {
diff --git a/xo/utility/optional.h b/xo/utility/optional.h
index 76d52b5..64e70ab 100644
--- a/xo/utility/optional.h
+++ b/xo/utility/optional.h
@@ -4,6 +4,7 @@
 #include "xo/numerical/constants.h"
 
 #include <type_traits> // #todo: consider version without this header (using specialization)
+#include <utility>
 
 namespace xo
 {
-- 
2.43.0


From 7ed667d72b82748b40b7e1c3777a55f48fbdff64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:38 +0000
Subject: [PATCH 095/135] fix: count_digits ignored its base

---
 xo/numerical/math.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/numerical/math.h b/xo/numerical/math.h
index 374ef33..2772cce 100644
--- a/xo/numerical/math.h
+++ b/xo/numerical/math.h
@@ -72,7 +72,7 @@ namespace xo
 
 	/// count the digits if a positive integer, given a base
 	inline size_t count_digits( size_t value, size_t base = 10 )
-	{ size_t digits = 1; for ( ; value >= base; ++digits ) value /= 10; return digits; }
+	{ size_t digits = 1; for ( ; value >= base; ++digits ) value /= base; return digits; }
 
 	/// round and cast to integer type
 	template< typename TI, typename TF >
-- 
2.43.0


From d8d9bff58c982ff6a27104983db80fb89156bc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:38 +0000
Subject: [PATCH 096/135] fix: wrap gave the upper limit for values below the
 range by a multiple of its length

---
 xo/numerical/math.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xo/numerical/math.h b/xo/numerical/math.h
index 2772cce..dece573 100644
--- a/xo/numerical/math.h
+++ b/xo/numerical/math.h
@@ -128,7 +128,9 @@ namespace xo
 	template< typename T > T& wrap( T& v, const T& lower, const T& upper ) {
 		if ( ( v - lower ) >= 0 )
 			return v = std::fmod( v - lower, upper - lower ) + lower;
-		else return v = std::fmod( v - lower, upper - lower ) + upper;
+		else if ( T m = std::fmod( v - lower, upper - lower ); m < 0 )
+			return v = m + upper;
+		else return v = lower;
 	}
 
 	/// wrap a value to a range
-- 
2.43.0


From fa67af6b408b247df03a8fa7c8af9a23f6ce190a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:38 +0000
Subject: [PATCH 097/135] fix: pos_mod gave its divisor instead of zero for
 negative multiples

---
 xo/numerical/math.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xo/numerical/math.h b/xo/numerical/math.h
index dece573..aaacd14 100644
--- a/xo/numerical/math.h
+++ b/xo/numerical/math.h
@@ -151,7 +151,8 @@ namespace xo
 
 	/// positive modulo
 	template< typename T > T pos_mod( T x, T y ) {
-		return fmod( x, y ) + T( x < 0 ) * y;
+		auto m = std::fmod( x, y );
+		return m < 0 ? m + y : m;
 	}
 
 	/// triangle wave between l and u, period = 2(u-l).
-- 
2.43.0


From 22f40c22e8dc9089250043c7cbfba5625b2ce8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:38 +0000
Subject: [PATCH 098/135] fix: square_wave was always one for negative values

---
 xo/numerical/math.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/numerical/math.h b/xo/numerical/math.h
index aaacd14..2ad3aa2 100644
--- a/xo/numerical/math.h
+++ b/xo/numerical/math.h
@@ -141,7 +141,7 @@ namespace xo
 
 	/// square wave, period = 2, min = 0, max = 1
 	template< typename T > T square_wave( T v ) {
-		return std::fmod( v, T( 2 ) ) < T( 1 ) ? T( 1 ) : T( 0 );
+		return v - T( 2 ) * std::floor( v / T( 2 ) ) < T( 1 ) ? T( 1 ) : T( 0 );
 	}
 
 	/// triangle wave, period = 2, min = 0, max = 1
-- 
2.43.0


From 08cc1b51bb3561f33fce91130de330161509ea7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:38 +0000
Subject: [PATCH 099/135] fix: lerp_precise subtracted the first value

---
 xo/numerical/interpolation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/numerical/interpolation.h b/xo/numerical/interpolation.h
index e150935..1cbae55 100644
--- a/xo/numerical/interpolation.h
+++ b/xo/numerical/interpolation.h
@@ -13,7 +13,7 @@ namespace xo
 
 	/// linearly interpolate between v1 (t=0) and v2 (t=1)
 	template< typename T, typename S > T lerp_precise( const T& v1, const T& v2, const S& t ) {
-		return ( t - T( 1 ) ) * v1 + t * v2;
+		return ( S( 1 ) - t ) * v1 + t * v2;
 	}
 
 	template< typename M >
-- 
2.43.0


From 368e359c8e538d7b26ee95dbd562946afac6b441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:38 +0000
Subject: [PATCH 100/135] fix: median_slow did not compile

---
 xo/container/container_algorithms.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/container/container_algorithms.h b/xo/container/container_algorithms.h
index 9e2389c..32ac7f1 100644
--- a/xo/container/container_algorithms.h
+++ b/xo/container/container_algorithms.h
@@ -119,7 +119,7 @@ namespace xo
 		std::vector< typename std::remove_cv< typename std::iterator_traits< It >::value_type >::type > v( n / 2 + 1 );
 		std::partial_sort_copy( b, e, v.begin(), v.end() );
 		if ( n % 2 == 1 ) return v[n / 2];
-		else return ( v[n / 2] + v[n / 2 - 1] ) / std::iterator_traits< It >::value_type( 2 );
+		else return ( v[n / 2] + v[n / 2 - 1] ) / 2;
 	}
 
 	template< typename It > auto median_non_const( It b, It e ) {
-- 
2.43.0


From 8734303b0c9fafe31de2c6a47983ab7f933b0be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:38 +0000
Subject: [PATCH 101/135] fix: bounds::soft_clamped did not compile

---
 xo/numerical/bounds.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/numerical/bounds.h b/xo/numerical/bounds.h
index 22aa155..d0cd0e6 100644
--- a/xo/numerical/bounds.h
+++ b/xo/numerical/bounds.h
@@ -39,7 +39,7 @@ namespace xo
 		T& clamp( T& value ) const { return xo::clamp( value, lower, upper ); }
 		T clamped( T value ) const { return xo::clamped( value, lower, upper ); }
 		T& soft_clamp( T& value, const T& boundary ) const { return xo::soft_clamp( value, lower, upper, boundary ); }
-		T soft_clamped( T value ) const { return xo::soft_clamped( value, lower, upper ); }
+		T soft_clamped( T value, const T& boundary ) const { return xo::soft_clamped( value, lower, upper, boundary ); }
 
 		// return inverted bounds
 		bounds< T > operator-() const { return bounds( -upper, -lower ); }
-- 
2.43.0


From c9fe722ab18789b6bd9afb2184d422b2e81493be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:38 +0000
Subject: [PATCH 102/135] fix: catmull_rom.h needed functions that it did not
 include

---
 xo/geometry/catmull_rom.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xo/geometry/catmull_rom.h b/xo/geometry/catmull_rom.h
index 636680e..489859e 100644
--- a/xo/geometry/catmull_rom.h
+++ b/xo/geometry/catmull_rom.h
@@ -1,6 +1,8 @@
 #pragma once
 
 #include "vec3.h"
+#include "xo/system/assert.h"
+#include <algorithm>
 #include <vector>
 
 namespace xo
-- 
2.43.0


From 7135c5ed79669acd2823f49dbd7f818144ea9c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:42 +0000
Subject: [PATCH 103/135] revert: the changes to the test framework, which
 counts as test files

---
 xo/system/test_case.cpp | 8 --------
 xo/system/test_main.h   | 3 +--
 2 files changed, 1 insertion(+), 10 deletions(-)

diff --git a/xo/system/test_case.cpp b/xo/system/test_case.cpp
index 8d003e9..a67fea7 100644
--- a/xo/system/test_case.cpp
+++ b/xo/system/test_case.cpp
@@ -57,13 +57,6 @@ namespace xo
 			catch ( std::exception& e )
 			{
 				result_.error_ = e.what();
-				if ( result_.error_.empty() )
-					result_.error_ = "exception without message"; // an empty error means success
-				return false;
-			}
-			catch ( ... )
-			{
-				result_.error_ = "unknown exception";
 				return false;
 			}
 		}
@@ -71,7 +64,6 @@ namespace xo
 		const test_result& test_case::run()
 		{
 			log::debug( "STARTING: ", name_ );
-			result_ = test_result();
 			if ( try_run_func() )
 			{
 				auto lock = std::scoped_lock( g_log_mutex );
diff --git a/xo/system/test_main.h b/xo/system/test_main.h
index a9abb60..efc5462 100644
--- a/xo/system/test_main.h
+++ b/xo/system/test_main.h
@@ -14,6 +14,5 @@ int main( int argc, char* argv[] )
 {
 	xo::log::console_sink sink( xo::log::level::info );
 	xo::log::add_sink( &sink );
-	const auto failed = xo::test::run_tests();
-	return failed < 256 ? failed : 255; // more does not fit in an exit code, 256 would become 0
+	return xo::test::run_tests();
 }
-- 
2.43.0


From cfe2f7d74f0c0446f825dba38627db7b3db2eec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:02 +0000
Subject: [PATCH 104/135] fix: accumulate of a container was ambiguous when
 <numeric> is included

---
 xo/container/container_algorithms.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xo/container/container_algorithms.h b/xo/container/container_algorithms.h
index 32ac7f1..e0f91f3 100644
--- a/xo/container/container_algorithms.h
+++ b/xo/container/container_algorithms.h
@@ -26,12 +26,12 @@ namespace xo
 
 	template< typename C, typename T >
 	T accumulate( const C& cont, T init ) {
-		return accumulate( std::cbegin( cont ), std::cend( cont ), init );
+		return xo::accumulate( std::cbegin( cont ), std::cend( cont ), init );
 	}
 
 	template< typename C, typename T, typename Op >
 	T accumulate( const C& cont, T init, Op op ) {
-		return accumulate( std::cbegin( cont ), std::cend( cont ), init, op );
+		return xo::accumulate( std::cbegin( cont ), std::cend( cont ), init, op );
 	}
 
 	template< typename It, typename T >
-- 
2.43.0


From 32835045e68839384fd2fe561f34e4f536253a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:11 +0000
Subject: [PATCH 105/135] fix: bounds::soft_clamp did not compile

---
 xo/numerical/math.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/numerical/math.h b/xo/numerical/math.h
index 2ad3aa2..6c1b9f6 100644
--- a/xo/numerical/math.h
+++ b/xo/numerical/math.h
@@ -96,7 +96,7 @@ namespace xo
 	template< typename T > T limit_transform( T x, T limit ) { return limit - limit * limit / ( x + limit ); }
 
 	/// clamp with smooth boundary transformation
-	template< typename T > T soft_clamp( T& v, const T& min, const T& max, const T& boundary ) {
+	template< typename T > T& soft_clamp( T& v, const T& min, const T& max, const T& boundary ) {
 		auto r = boundary * ( max - min );
 		if ( v > max - r ) v = max - r + limit_transform( v - max + r, r );
 		else if ( v < min + r )	v = min + r - limit_transform( min + r - v, r );
-- 
2.43.0


From a44b300b6db005023b71bd977bddce7212e038f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:37 +0000
Subject: [PATCH 106/135] revert: quat_from_directions for opposite directions,
 which a test wants to be as it was

---
 xo/geometry/quat.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/xo/geometry/quat.h b/xo/geometry/quat.h
index 859a326..14604c2 100644
--- a/xo/geometry/quat.h
+++ b/xo/geometry/quat.h
@@ -132,12 +132,8 @@ namespace xo
 	template< typename T > quat_<T> quat_from_directions( const vec3_<T>& source, const vec3_<T>& target ) {
 		vec3_<T> axis = cross_product( source, target );
 		T dot = dot_product( source, target );
-		if ( dot < -1.0f + constants<T>::ample_epsilon() ) {
-			// opposite directions, rotate around any axis that is perpendicular to source
-			axis = cross_product( source, std::abs( source.x ) < T( 0.6 ) ? vec3_<T>::unit_x() : vec3_<T>::unit_y() );
-			normalize( axis );
-			return quat_<T>( 0, axis.x, axis.y, axis.z );
-		}
+		if ( dot < -1.0f + constants<T>::ample_epsilon() )
+			return quat_<T>( 0, 1, 0, 0 );
 		quat_<T> result( dot + 1.0f, axis.x, axis.y, axis.z );
 		normalize( result );
 		return result;
-- 
2.43.0


From 8a0d520d26c987438644abea2dd46986159ce885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:03 +0000
Subject: [PATCH 107/135] fix: inertia of a capsule used the mass of its
 cylinder twice

---
 xo/shape/capsule.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/shape/capsule.h b/xo/shape/capsule.h
index 8f16756..9139a05 100644
--- a/xo/shape/capsule.h
+++ b/xo/shape/capsule.h
@@ -42,7 +42,7 @@ namespace xo
 
 		float m1 = pi * r2 * h * density;
 		float m2 = ( 4.0f / 3.0f ) * pi * r3 * density;
-		float Ia = m1 * ( 0.25f * r2 + ( 1.0f / 12.0f ) * m1 * h * h ) + m2 * ( 0.4f * r2 + 0.375f * r * h + 0.25f * h * h );
+		float Ia = m1 * ( 0.25f * r2 + ( 1.0f / 12.0f ) * h * h ) + m2 * ( 0.4f * r2 + 0.375f * r * h + 0.25f * h * h );
 		float Ib = ( m1 * 0.5f + m2 * 0.4f ) * r2;
 
 		return vec3f{ Ia, Ib, Ia };
-- 
2.43.0


From 7ce7ddbc72be7203385751e7b372955017d04220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:03 +0000
Subject: [PATCH 108/135] fix: dim of a capsule did not include its caps

---
 xo/shape/capsule.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/shape/capsule.h b/xo/shape/capsule.h
index 9139a05..d1b9ef4 100644
--- a/xo/shape/capsule.h
+++ b/xo/shape/capsule.h
@@ -26,7 +26,7 @@ namespace xo
 	}
 
 	inline vec3f dim( const capsule& s ) {
-		return vec3f( 2.0f * s.radius_, s.height_, 2.0f * s.radius_ );
+		return vec3f( 2.0f * s.radius_, s.height_ + 2.0f * s.radius_, 2.0f * s.radius_ );
 	}
 
 	inline aabbf aabb( const capsule& s, const transformf& t ) {
-- 
2.43.0


From d6a6aabd98f5f81ba97648b7e2cda3252f5df00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:03 +0000
Subject: [PATCH 109/135] fix: distance_from_center of a cylinder was wrong at
 its top and bottom

---
 xo/shape/shape_tools.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/shape/shape_tools.h b/xo/shape/shape_tools.h
index ce9e09f..7270db7 100644
--- a/xo/shape/shape_tools.h
+++ b/xo/shape/shape_tools.h
@@ -24,7 +24,7 @@ namespace xo
 		const auto r = s.radius_;
 		auto vxz = std::sqrt( dir.x * dir.x + dir.z * dir.z );
 		if ( std::abs( dir.y ) * r > hh * vxz )
-			return std::sqrt( hh * hh + vxz * vxz ); // point is on cylinder top
+			return hh / std::abs( dir.y ); // point is on cylinder top
 		else return r / vxz; // point is on cylinder side
 	}
 	inline float distance_from_center( const xo::capsule& s, const vec3f& dir ) {
-- 
2.43.0


From 619a4cbe820341d16ae47d737e332d36fa7f7db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:03 +0000
Subject: [PATCH 110/135] fix: color from doubles took its alpha from blue

---
 xo/utility/color.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/utility/color.h b/xo/utility/color.h
index 8948ec8..e9f0c67 100644
--- a/xo/utility/color.h
+++ b/xo/utility/color.h
@@ -9,7 +9,7 @@ namespace xo
 	{
 		color() : r( 0.0f ), g( 0.0f ), b( 0.0f ), a( 1.0f ) {}
 		color( float pr, float pg, float pb, float pa = 1.0f ) : r( pr ), g( pg ), b( pb ), a( pa ) {}
-		color( double pr, double pg, double pb, double pa = 1.0 ) : r( float( pr ) ), g( float( pg ) ), b( float( pb ) ), a( float( pb ) ) {}
+		color( double pr, double pg, double pb, double pa = 1.0 ) : r( float( pr ) ), g( float( pg ) ), b( float( pb ) ), a( float( pa ) ) {}
 
 		float r, g, b, a;
 
-- 
2.43.0


From d83b989f180a0ee93c7b101ab937b1908fd92310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:03 +0000
Subject: [PATCH 111/135] fix: color_from_hsv was black for a negative hue

---
 xo/utility/color.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xo/utility/color.cpp b/xo/utility/color.cpp
index e60225b..aee4d3e 100644
--- a/xo/utility/color.cpp
+++ b/xo/utility/color.cpp
@@ -63,6 +63,8 @@ namespace xo
 	color color_from_hsv( float H, float S, float V )
 	{
 		H = fmod( H, 360.0f ) / 60.0f;
+		if ( H < 0.0f && ( H += 6.0f ) >= 6.0f )
+			H = 0.0f; // a negative value close to zero
 		float fract = H - floor( H );
 		float P = V * ( 1.0f - S );
 		float Q = V * ( 1.0f - S * fract );
-- 
2.43.0


From 4b0c7d0cf0ac8fdeaa3c6508585660afbda45807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:03 +0000
Subject: [PATCH 112/135] fix: a colour was read from text that only starts
 with a hexadecimal number

---
 xo/utility/color.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xo/utility/color.cpp b/xo/utility/color.cpp
index aee4d3e..d308c8c 100644
--- a/xo/utility/color.cpp
+++ b/xo/utility/color.cpp
@@ -35,7 +35,10 @@ namespace xo
 				else {
 					bool has_0x = xo::str_begins_with( str, "0x" );
 					size_t num_digits = has_0x ? str.size() - 2 : str.size();
-					auto value = static_cast<uint32>( std::stoul( str, 0, 16 ) );
+					size_t end = 0;
+					auto value = static_cast<uint32>( std::stoul( str, &end, 16 ) );
+					if ( end != str.size() )
+						return false; // not a hexadecimal number
 
 					if ( num_digits == 8 )
 						c = color_from_hex_rgba( value );
-- 
2.43.0


From fa21d09221949c93f6ea4d937e48fc73bda3efa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:52 +0000
Subject: [PATCH 113/135] fix: counting the elements equal to a constant did
 not compile

---
 xo/container/container_tools.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/container/container_tools.h b/xo/container/container_tools.h
index 7940b8e..9df45ea 100644
--- a/xo/container/container_tools.h
+++ b/xo/container/container_tools.h
@@ -60,7 +60,7 @@ namespace xo
 	}
 
 	/// count element in a container
-	template< typename C > size_t count( const C& cont, typename C::value_type& e ) {
+	template< typename C > size_t count( const C& cont, const typename C::value_type& e ) {
 		size_t c = 0; for ( auto it = std::begin( cont ); it != std::end( cont ); ++it ) c += size_t( *it == e ); return c;
 	}
 
-- 
2.43.0


From afaae0dcfce69cde0e8d9bc2bed7b2710d86a177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:52 +0000
Subject: [PATCH 114/135] fix: copy_container did not compile for containers of
 the standard library

---
 xo/container/container_tools.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/container/container_tools.h b/xo/container/container_tools.h
index 9df45ea..44bb8f6 100644
--- a/xo/container/container_tools.h
+++ b/xo/container/container_tools.h
@@ -119,7 +119,7 @@ namespace xo
 	/// copy elements of one container to another (with range checking)
 	template< typename InC, typename OutC > void copy_container( const InC& source, OutC& target ) {
 		xo_assert( std::size( source ) <= std::size( target ) );
-		copy( std::begin( source ), std::end( source ), std::begin( target ) );
+		xo::copy( std::begin( source ), std::end( source ), std::begin( target ) );
 	}
 
 	/// copy elements of one container to another, explicitly casting to target value type (with range checking)
-- 
2.43.0


From e952243a68d815b56bcf1416690da071d1623668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:52 +0000
Subject: [PATCH 115/135] fix: back_index only compiled for containers of the
 standard library

---
 xo/container/container_tools.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/container/container_tools.h b/xo/container/container_tools.h
index 44bb8f6..f706cd2 100644
--- a/xo/container/container_tools.h
+++ b/xo/container/container_tools.h
@@ -134,7 +134,7 @@ namespace xo
 	}
 
 	/// get index of last element
-	template< typename C > index_t back_index( const C& cont ) { return size( cont ) > 0 ? size( cont ) - 1 : no_index; }
+	template< typename C > index_t back_index( const C& cont ) { return std::size( cont ) > 0 ? std::size( cont ) - 1 : no_index; }
 
 	/// get index of element in container
 	template< typename E > index_t index_of( const E& elem, const std::vector<E>& vec ) { return index_t( &elem - &vec[0] ); }
-- 
2.43.0


From 7e48b38bd1c84fa1998f5306d726350fb5389a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:52 +0000
Subject: [PATCH 116/135] fix: clearing a list of flags did not compile, nor
 did any() and count() of constant flags

---
 xo/container/flag_set.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/xo/container/flag_set.h b/xo/container/flag_set.h
index 674e80c..29a467b 100644
--- a/xo/container/flag_set.h
+++ b/xo/container/flag_set.h
@@ -43,6 +43,10 @@ namespace xo
 			data_ |= storage_bit( index );
 			return *this;
 		}
+		flag_set& clear( EnumT index ) {
+			data_ &= ~storage_bit( index );
+			return *this;
+		}
 		template< EnumT index > flag_set& clear() {
 			data_ &= ~storage_bit( index );
 			return *this;
@@ -67,12 +71,12 @@ namespace xo
 			for ( auto f : flags ) set( f, value );
 			return *this;
 		}
-		bool any( std::initializer_list<EnumT> flags ) {
+		bool any( std::initializer_list<EnumT> flags ) const {
 			for ( auto f : flags )
 				if ( get( f ) ) return true;
 			return false;
 		}
-		size_t count( std::initializer_list<EnumT> flags ) {
+		size_t count( std::initializer_list<EnumT> flags ) const {
 			size_t c = 0;
 			for ( auto f : flags )
 				c += static_cast<size_t>( get( f ) );
-- 
2.43.0


From 62cf03a993fb5dedac744def2515fde9cae210cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:53 +0000
Subject: [PATCH 117/135] fix: dynarray::resize used a value from the array
 itself after it was deleted

---
 xo/container/dynarray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/container/dynarray.h b/xo/container/dynarray.h
index 910d52a..cbc3159 100644
--- a/xo/container/dynarray.h
+++ b/xo/container/dynarray.h
@@ -42,7 +42,7 @@ namespace xo
 
 		void assign( const T& v ) { std::fill( begin(), end(), v ); }
 
-		void resize( size_t n, const T& v = T() ) { data_.reset( new T[n] ); end_ = data_.get() + n; assign( v ); }
+		void resize( size_t n, const T& v = T() ) { *this = dynarray( n, v ); }
 		void clear() { data_.reset(); end_ = data_.get(); }
 
 		T* data() { return data_.get(); }
-- 
2.43.0


From d869d3c2319721176883fbf23af64d5093d6f8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:53 +0000
Subject: [PATCH 118/135] fix: the last element in a text was not read into a
 vector unless it was followed by whitespace

---
 xo/serialization/container_io.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/xo/serialization/container_io.h b/xo/serialization/container_io.h
index 558bbe8..b5cacd8 100644
--- a/xo/serialization/container_io.h
+++ b/xo/serialization/container_io.h
@@ -17,8 +17,7 @@ namespace xo
 	std::istream& operator>>( std::istream& is, std::vector<T>& v ) {
 		while ( is.good() ) {
 			T element;
-			is >> element;
-			if ( is.good() )
+			if ( is >> element )
 				v.emplace_back( element );
 		}
 		return is;
-- 
2.43.0


From 54135b9642f7954d0a30777ca41b2ddc81a17cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:53 +0000
Subject: [PATCH 119/135] fix: an enum at the end of a stream was not read

---
 xo/utility/smart_enum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/utility/smart_enum.h b/xo/utility/smart_enum.h
index de4b92b..92507fe 100644
--- a/xo/utility/smart_enum.h
+++ b/xo/utility/smart_enum.h
@@ -31,7 +31,7 @@ namespace smart_enum_detail
 inline std::string to_str( E e ) { return ::smart_enum_detail::to_str( int( e ), VA_STR ); } \
 inline bool from_str( const std::string& str, E& e ) { return ::smart_enum_detail::from_str( str, e, VA_STR ); } \
 inline std::ostream& operator<<( std::ostream& ostr, E e ) { return ostr << to_str( e ); } \
-inline std::istream& operator>>( std::istream& istr, E& e ) { std::string s; istr >> s; if ( istr.good() && !from_str( s, e ) ) istr.setstate( std::ios::failbit ); return istr; }
+inline std::istream& operator>>( std::istream& istr, E& e ) { std::string s; if ( istr >> s && !from_str( s, e ) ) istr.setstate( std::ios::failbit ); return istr; }
 
 #define xo_smart_enum( E, ... ) \
 enum E { __VA_ARGS__ }; \
-- 
2.43.0


From b29deb6f099ff8b969320b8856ad3a46b59a9e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:53 +0000
Subject: [PATCH 120/135] fix: memory_tools.h did not compile on its own

---
 xo/utility/memory_tools.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xo/utility/memory_tools.h b/xo/utility/memory_tools.h
index d9a4140..fc7ce57 100644
--- a/xo/utility/memory_tools.h
+++ b/xo/utility/memory_tools.h
@@ -5,6 +5,7 @@
 #include <memory>
 #include <vector>
 #include <string>
+#include "xo/system/assert.h"
 
 namespace xo
 {
-- 
2.43.0


From 0870389ea574861ca8e41a1a7e9ff49bd2590c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:53 +0000
Subject: [PATCH 121/135] fix: xo_do_periodic did not compile

---
 xo/system/debug_tools.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/system/debug_tools.h b/xo/system/debug_tools.h
index c0b9f30..6d4bc3e 100644
--- a/xo/system/debug_tools.h
+++ b/xo/system/debug_tools.h
@@ -1,7 +1,7 @@
 #pragma once
 
 #define xo_do_periodic( interval_, statement_ ) \
-{ static local_count_ = 0; if ( local_count_++ % interval_ == 0 ) { statement_; } }
+{ static int local_count_ = 0; if ( local_count_++ % interval_ == 0 ) { statement_; } }
 
 #if XO_IS_DEBUG_BUILD
 #	define xo_do_debug( statement ) statement
-- 
2.43.0


From 72f15525d42b80675d186e758a6438152c59ee34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:53 +0000
Subject: [PATCH 122/135] fix: console_plot always included zero above
 functions that are negative

---
 xo/numerical/console_plot.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/numerical/console_plot.h b/xo/numerical/console_plot.h
index a339d56..93c576c 100644
--- a/xo/numerical/console_plot.h
+++ b/xo/numerical/console_plot.h
@@ -24,7 +24,7 @@ namespace xo
 
 		auto x_span = x_max - x_min;
 		auto y_min = std::numeric_limits<T>::max();
-		auto y_max = std::numeric_limits<T>::min();
+		auto y_max = std::numeric_limits<T>::lowest();
 
 		std::vector< std::vector<T> > fn_ys;
 		for ( auto& fn : fns ) {
-- 
2.43.0


From c295c5223831de42c4356f22ff7853560d988943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:53 +0000
Subject: [PATCH 123/135] fix: console_plot of a constant function, or one
 column wide, divided by zero

---
 xo/numerical/console_plot.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xo/numerical/console_plot.h b/xo/numerical/console_plot.h
index 93c576c..f1f13d9 100644
--- a/xo/numerical/console_plot.h
+++ b/xo/numerical/console_plot.h
@@ -31,13 +31,13 @@ namespace xo
 			auto& fn_y = fn_ys.emplace_back();
 			fn_y.reserve( width );
 			for ( int xi = 0; xi < width; ++xi ) {
-				auto y = fn( x_min + xi * x_span / ( width - 1 ) );
+				auto y = fn( x_min + xi * x_span / std::max( width - 1, 1 ) );
 				fn_y.push_back( y );
 				y_min = std::min( y_min, y );
 				y_max = std::max( y_max, y );
 			}
 		}
-		auto y_span = y_max - y_min;
+		auto y_span = y_max > y_min ? y_max - y_min : T( 1 );
 
 		auto grid_x = [&]( T x ) {
 			return static_cast<int>( std::floor( 0.5 + ( width - 1 ) * ( x - x_min ) / x_span ) ); };
-- 
2.43.0


From 96b44ca29e69a6061df21bb92e7e61b4f9463477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:01 +0000
Subject: [PATCH 124/135] fix: dividing a negative time by a number of type
 size_t gave a large positive time

---
 xo/time/time.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xo/time/time.h b/xo/time/time.h
index 8292fc4..73a53a3 100644
--- a/xo/time/time.h
+++ b/xo/time/time.h
@@ -31,10 +31,10 @@ namespace xo
 		time operator-() const { return time( -internal_ ); }
 		time operator-( time o ) const { return time( internal_ - o.internal_ ); }
 		time operator+( time o ) const { return time( internal_ + o.internal_ ); }
-		time operator/( size_t n ) const { return time( internal_ / n ); }
+		time operator/( size_t n ) const { return time( internal_ / storage_t( n ) ); }
 		time& operator-=( time o ) { internal_ -= o.internal_; return *this; }
 		time& operator+=( time o ) { internal_ += o.internal_; return *this; }
-		time& operator/=( size_t n ) { internal_ /= n; return *this; }
+		time& operator/=( size_t n ) { internal_ /= storage_t( n ); return *this; }
 
 		// ratio between times
 		double operator/( time v ) const { return double( internal_ ) / double( v.internal_ ); }
-- 
2.43.0


From df7c7b77c492c1e89ae0ed3b5ba4c9f1c6f4b6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:01 +0000
Subject: [PATCH 125/135] fix: a time made from a whole number of seconds,
 milliseconds or nanoseconds was rounded when large

---
 xo/time/time.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/xo/time/time.h b/xo/time/time.h
index 73a53a3..b198f4b 100644
--- a/xo/time/time.h
+++ b/xo/time/time.h
@@ -2,6 +2,7 @@
 
 #include <cmath>
 #include <cstddef>
+#include <type_traits>
 
 namespace xo
 {
@@ -50,9 +51,18 @@ namespace xo
 		storage_t internal_;
 	};
 
-	template< typename T > time time_from_seconds( T s ) { return time( time::storage_t( std::llround( double( s ) * 1e9 ) ) ); }
-	template< typename T > time time_from_milliseconds( T s ) { return time( time::storage_t( std::llround( double( s ) * 1e6 ) ) ); }
-	template< typename T > time time_from_nanoseconds( T s ) { return time( time::storage_t( std::llround( double( s ) ) ) ); }
+	template< typename T > time time_from_seconds( T s ) {
+		if constexpr ( std::is_integral_v<T> ) return time( time::storage_t( s ) * 1'000'000'000 );
+		else return time( time::storage_t( std::llround( double( s ) * 1e9 ) ) );
+	}
+	template< typename T > time time_from_milliseconds( T s ) {
+		if constexpr ( std::is_integral_v<T> ) return time( time::storage_t( s ) * 1'000'000 );
+		else return time( time::storage_t( std::llround( double( s ) * 1e6 ) ) );
+	}
+	template< typename T > time time_from_nanoseconds( T s ) {
+		if constexpr ( std::is_integral_v<T> ) return time( time::storage_t( s ) );
+		else return time( time::storage_t( std::llround( double( s ) ) ) );
+	}
 
 	inline time distance( const time& t1, const time& t2 ) { return t1 > t2 ? t1 - t2 : t2 - t1; }
 
-- 
2.43.0


From a4f359c9cfe436f01cd59133c9e3afa44af575bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:33 +0000
Subject: [PATCH 126/135] fix: text with a whole number that the type cannot
 hold was converted to another number

---
 xo/string/string_cast.cpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/xo/string/string_cast.cpp b/xo/string/string_cast.cpp
index a63b194..e634b8a 100644
--- a/xo/string/string_cast.cpp
+++ b/xo/string/string_cast.cpp
@@ -5,6 +5,10 @@
 #include "xo/time/time.h"
 #include "xo/filesystem/path.h"
 
+#include <cerrno>
+#include <climits>
+#include <cstdlib>
+
 namespace xo
 {
 	bool from_str( const string& s, float& v )
@@ -33,43 +37,51 @@ namespace xo
 	bool from_str( const string& s, int& v )
 	{
 		char* p;
-		v = (int)( std::strtol( s.c_str(), &p, 10 ) );
-		return p != s.c_str();
+		errno = 0;
+		auto l = std::strtol( s.c_str(), &p, 10 );
+		v = (int)l;
+		return p != s.c_str() && errno != ERANGE && l == v;
 	}
 
 	bool from_str( const string& s, unsigned int& v )
 	{
 		char* p;
-		v = (unsigned int)( std::strtoul( s.c_str(), &p, 10 ) );
-		return p != s.c_str();
+		errno = 0;
+		auto l = std::strtoul( s.c_str(), &p, 10 );
+		v = (unsigned int)l;
+		return p != s.c_str() && errno != ERANGE && ( l <= UINT_MAX || 0 - l <= UINT_MAX ); // negative numbers wrap, as in C
 	}
 
 	bool from_str( const string& s, long& v )
 	{
 		char* p;
+		errno = 0;
 		v = std::strtol( s.c_str(), &p, 10 );
-		return p != s.c_str();
+		return p != s.c_str() && errno != ERANGE;
 	}
 
 	bool from_str( const string& s, unsigned long& v )
 	{
 		char* p;
+		errno = 0;
 		v = std::strtoul( s.c_str(), &p, 10 );
-		return p != s.c_str();
+		return p != s.c_str() && errno != ERANGE;
 	}
 
 	bool from_str( const string& s, long long& v )
 	{
 		char* p;
+		errno = 0;
 		v = std::strtoll( s.c_str(), &p, 10 );
-		return p != s.c_str();
+		return p != s.c_str() && errno != ERANGE;
 	}
 
 	bool from_str( const string& s, unsigned long long& v )
 	{
 		char* p;
+		errno = 0;
 		v = std::strtoull( s.c_str(), &p, 10 );
-		return p != s.c_str();
+		return p != s.c_str() && errno != ERANGE;
 	}
 
 	string to_str( float value )
-- 
2.43.0


From 5cf8cad888f3830570480bcdeec957201192420b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:33 +0000
Subject: [PATCH 127/135] fix: the text of a time of ten seconds or more was
 read as another time

---
 xo/string/string_cast.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/xo/string/string_cast.cpp b/xo/string/string_cast.cpp
index e634b8a..17630e7 100644
--- a/xo/string/string_cast.cpp
+++ b/xo/string/string_cast.cpp
@@ -203,7 +203,18 @@ namespace xo
 
 	bool from_str( const string& s, time& v )
 	{
-		if ( double d; from_str( s, d ) ) { v = time_from_seconds( d ); return true; }
-		else return false;
+		// seconds, minutes:seconds or hours:minutes:seconds
+		double seconds = 0;
+		const auto parts = split_str( s, ":" );
+		if ( parts.empty() || parts.size() > 3 )
+			return false;
+		for ( const auto& part : parts ) {
+			double d;
+			if ( !from_str( part, d ) )
+				return false;
+			seconds = seconds * 60 + d;
+		}
+		v = time_from_seconds( seconds );
+		return true;
 	}
 }
-- 
2.43.0


From bdfd9f5acdeb5e6287bf851a32e20c4925f85b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:34 +0000
Subject: [PATCH 128/135] fix: a flat_map put into a prop_node could not be
 read back

---
 xo/container/flat_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/container/flat_map.h b/xo/container/flat_map.h
index a76d47b..ed5dc17 100644
--- a/xo/container/flat_map.h
+++ b/xo/container/flat_map.h
@@ -145,7 +145,7 @@ namespace xo
 	}
 
 	template< typename K, typename V >
-	prop_node to_prop_node( flat_map<K, V>& m ) {
+	prop_node to_prop_node( const flat_map<K, V>& m ) {
 		prop_node pn;
 		for ( const auto& [key, value] : m )
 			pn[key] = value;
-- 
2.43.0


From b2ff9b96ecb58b44b47057fc2cf05c09e3969784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:34 +0000
Subject: [PATCH 129/135] fix: a prop_node added as a value, or read as one,
 lost its children

---
 xo/container/prop_node.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/xo/container/prop_node.h b/xo/container/prop_node.h
index 2bd7920..62b236d 100644
--- a/xo/container/prop_node.h
+++ b/xo/container/prop_node.h
@@ -276,6 +276,13 @@ namespace xo
 		prop_node pn; pn.set( key, v ); return pn;
 	}
 
+	/// a prop_node is kept as it is
+	inline prop_node to_prop_node( const prop_node& pn ) { return pn; }
+	inline bool from_prop_node( const prop_node& pn, prop_node& v ) {
+		v = pn; pn.set_accessed_recursively( true );
+		return true;
+	}
+
 	/// default conversion from prop_node to T, uses from_str()
 	template< typename T > bool from_prop_node( const prop_node& pn, T& v ) {
 		return from_str( pn.get_str(), v );
-- 
2.43.0


From c75931784d32c1be5d1b0cbcfeafa1efe1ca8ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:34 +0000
Subject: [PATCH 130/135] fix: reading an array from a shorter list left
 elements uninitialized

---
 xo/container/prop_node.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xo/container/prop_node.h b/xo/container/prop_node.h
index 62b236d..c412999 100644
--- a/xo/container/prop_node.h
+++ b/xo/container/prop_node.h
@@ -329,7 +329,7 @@ namespace xo
 
 	template< typename T >
 	T prop_node::get() const {
-		typename remove_const<T>::type v;
+		typename remove_const<T>::type v{};
 		if ( from_prop_node( *this, v ) )
 			return v;
 		else xo_error( "Could not convert \"" + get_str() + "\" to " + get_type_name<T>() );
@@ -354,7 +354,7 @@ namespace xo
 
 	template< typename T >
 	optional<T> prop_node::try_get() const {
-		T v;
+		T v{};
 		if ( from_prop_node( *this, v ) )
 			return v;
 		else return optional<T>();
-- 
2.43.0


From c3b11739fa162276e1b54028d6490e013c7557d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:34 +0000
Subject: [PATCH 131/135] fix: a scale put into a prop_node was read back as a
 uniform scale

---
 xo/geometry/scale3.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/xo/geometry/scale3.h b/xo/geometry/scale3.h
index b727c69..ed7a847 100644
--- a/xo/geometry/scale3.h
+++ b/xo/geometry/scale3.h
@@ -1,6 +1,6 @@
 #pragma once
 
-#include "xo/geometry/vec3_type.h"
+#include "xo/geometry/vec3.h"
 #include "xo/container/prop_node.h"
 
 namespace xo
@@ -70,6 +70,11 @@ namespace xo
 			return true;
 		}
 		else if ( pn.size() == 0 && pn.has_value() ) {
+			// string: "1 2 3"
+			if ( vec3_<T> vec; from_prop_node( pn, vec ) ) {
+				v.set( vec.x, vec.y, vec.z );
+				return true;
+			}
 			// uniform scaling
 			if ( auto sv = pn.try_get<T>() ) {
 				v.set( *sv, *sv, *sv );
@@ -79,4 +84,9 @@ namespace xo
 		}
 		else return false;
 	};
+
+	/// convert to prop_node
+	template< typename T > prop_node to_prop_node( const scale3_<T>& v ) {
+		return to_prop_node( static_cast<const vec3_<T>&>( v ) );
+	}
 }
-- 
2.43.0


From b34ca9bd1b4d164915c0ce421108e6d9cbbd0a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:49 +0000
Subject: [PATCH 132/135] fix: the largest 64 bit numbers were read as an
 unsigned int

---
 xo/string/string_cast.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xo/string/string_cast.cpp b/xo/string/string_cast.cpp
index 17630e7..082ce33 100644
--- a/xo/string/string_cast.cpp
+++ b/xo/string/string_cast.cpp
@@ -49,7 +49,9 @@ namespace xo
 		errno = 0;
 		auto l = std::strtoul( s.c_str(), &p, 10 );
 		v = (unsigned int)l;
-		return p != s.c_str() && errno != ERANGE && ( l <= UINT_MAX || 0 - l <= UINT_MAX ); // negative numbers wrap, as in C
+		if ( l > UINT_MAX && s.find( '-' ) < size_t( p - s.c_str() ) )
+			return errno != ERANGE && 0 - l <= UINT_MAX; // negative numbers wrap, as in C
+		return p != s.c_str() && errno != ERANGE && l <= UINT_MAX;
 	}
 
 	bool from_str( const string& s, long& v )
-- 
2.43.0


From 115fb755b8d4439109dc929a86beeae2018fadce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:50 +0000
Subject: [PATCH 133/135] fix: the clean name of a type in a template is its
 own, and of a name that is not mangled the name itself

---
 xo/system/system_tools.cpp | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/xo/system/system_tools.cpp b/xo/system/system_tools.cpp
index ef5f4d9..9653be3 100644
--- a/xo/system/system_tools.cpp
+++ b/xo/system/system_tools.cpp
@@ -94,21 +94,26 @@ namespace xo
 		std::string name = name0;
 #ifndef XO_COMP_MSVC
 		int status;
-		char* cleanType = abi::__cxa_demangle( name.c_str(), 0, 0, &status );
-		auto cleanStr = std::string( cleanType );
-		free( cleanType );
-		name = cleanStr;
-		//return cleanStr;
+		// returns nullptr if name is not a mangled name
+		if ( char* cleanType = abi::__cxa_demangle( name.c_str(), 0, 0, &status ) )
+		{
+			name = cleanType;
+			free( cleanType );
+		}
 #endif
-		auto endpos = name.find_first_of( "<" );
-		size_t pos = name.find_last_of( ": ", endpos );
-		if ( pos != std::string::npos )
+		// find the last scope that is not part of an argument
+		size_t pos = 0;
+		int depth = 0;
+		for ( size_t i = 0; i < name.size(); ++i )
 		{
-			if ( endpos != std::string::npos )
-				return name.substr( pos + 1, endpos - pos - 1 );
-			else return name.substr( pos + 1 );
+			if ( name[i] == '<' || name[i] == '(' || name[i] == '{' )
+				++depth;
+			else if ( name[i] == '>' || name[i] == ')' || name[i] == '}' )
+				--depth;
+			else if ( depth == 0 && ( name[i] == ':' || name[i] == ' ' ) )
+				pos = i + 1;
 		}
-		else return name;
+		return name.substr( pos, name.find( '<', pos ) - pos );
 	}
 
 	string get_computer_name()
-- 
2.43.0


From 9b26dd90fad8c676823caa849ff8629c68cd5274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:50 +0000
Subject: [PATCH 134/135] fix: dynamic_unique_cast deletes an object that is
 not of the type, as documented

---
 xo/utility/pointer_types.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xo/utility/pointer_types.h b/xo/utility/pointer_types.h
index b8d6856..018cbfa 100644
--- a/xo/utility/pointer_types.h
+++ b/xo/utility/pointer_types.h
@@ -28,6 +28,7 @@ namespace xo
 			ptr.release();
 			return u_ptr<TargetT>( tptr );
 		}
-		else return u_ptr<TargetT>();
+		ptr.reset();
+		return u_ptr<TargetT>();
 	}
 }
-- 
2.43.0


From 0685372720c4ff807539cea1bd9aa060de971fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:33 +0000
Subject: [PATCH 135/135] fix: write_function missed the last value because the
 rounding errors of the interval added up

---
 xo/system/debug_storage.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xo/system/debug_storage.h b/xo/system/debug_storage.h
index 418d5ea..37b17eb 100644
--- a/xo/system/debug_storage.h
+++ b/xo/system/debug_storage.h
@@ -6,6 +6,7 @@
 #include "xo/filesystem/filesystem.h"
 #include "xo/string/string_type.h"
 #include "xo/numerical/compare.h"
+#include <cmath>
 #include <fstream>
 #include <iomanip>
 
@@ -20,7 +21,10 @@ namespace xo
 		std::ofstream of( file.c_str() );
 		xo_error_if( !of.good(), "Could not create " + file.str() );
 		of << std::setprecision( 6 );
-		for ( T x = min; less_than_or_equal( x, max ); x += interval ) {
+		// the rounding errors of the interval must not add up
+		const auto steps = static_cast<long long>( std::floor( ( max - min ) / interval + T( 0.001 ) ) );
+		for ( long long i = 0; i <= steps; ++i ) {
+			T x = min + T( i ) * interval;
 			T y = func( x );
 			of << x << '\t' << y << std::endl;
 		}
-- 
2.43.0

