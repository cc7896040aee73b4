#include "xo/xo_types.h"
#include "vf.h"
#include "xo/string/string_tools.h"
#include "xo/string/pattern_matcher.h"
#include "xo/string/stack_string.h"
#include "xo/string/dictionary.h"
#include "xo/time/time.h"
using namespace xo;
using std::string;

#define S c["s"].text()
#define X c["x"].text()
static int idx( index_t i ) { return i == string::npos ? -1 : int( i ); }
static J list( const std::vector<string>& v ) { J j = J::arr(); for ( auto& e : v ) j.push( codes( e ) ); return j; }
static J pr( const std::pair<string, string>& p ) { return J::arr().push( codes( p.first ) ).push( codes( p.second ) ); }
static J bad( const char* why ) { return J::obj().set( "ok", true ).set( "v", J( why ) ); }

OP( "left" ) { return ok( codes( left_str( S, c["n"] ) ) ); }
OP( "right" ) { return ok( codes( right_str( S, c["n"] ) ) ); }
OP( "mid" ) { int m = c["m"]; return ok( codes( m < 0 ? mid_str( S, int( c["n"] ) ) : mid_str( S, int( c["n"] ), m ) ) ); }
OP( "in" ) { return ok( idx( in_str( S, X, int( c["n"] ) ) ) ); }
OP( "nth" ) { return ok( idx( find_nth_str( S, X, int( c["n"] ) ) ) ); }
OP( "begins" ) { return ok( str_begins_with( S, X ) ); }
OP( "begins_at" ) { return ok( str_begins_with( S, X, index_t( int( c["n"] ) ) ) ); }
OP( "ends" ) { return ok( str_ends_with( S, X ) ); }
OP( "contains" ) { return ok( str_contains( S, X ) ); }
OP( "char" ) { char k = char( int( c["c"] ) ); return ok( J::obj().set( "b", str_begins_with( S, k ) ).set( "e", str_ends_with( S, k ) ).set( "c", str_contains( S, k ) ) ); }
OP( "trim" ) { string x = X; return ok( J::obj().set( "t", codes( trim_str( S, x.c_str() ) ) ).set( "l", codes( trim_left_str( S, x.c_str() ) ) ).set( "r", codes( trim_right_str( S, x.c_str() ) ) ) ); }
OP( "trim_ws" ) { return ok( J::obj().set( "t", codes( trim_str( S ) ) ).set( "l", codes( trim_left_str( S ) ) ).set( "r", codes( trim_right_str( S ) ) ) ); }
OP( "split" ) {
	string s = S;
	auto a = split_str( s, X );
	auto b = split_str( string_view( s ), X );
	std::vector<string> bs( b.begin(), b.end() );
	if ( a != bs ) return bad( "string and string_view variants differ" );
	return ok( list( a ) );
}
OP( "split_first" ) { return ok( pr( split_str_at_first( S, X ) ) ); }
OP( "split_last" ) { return ok( pr( split_str_at_last( S, X ) ) ); }
OP( "replace" ) {
	string s = S, y = c["y"].text();
	const string t = s;
	string r1 = replace_str( t, X, y ), r2 = replace_str( string( t ), X, y );
	replace_str( s, X, y );
	if ( r1 != s || r2 != s || t != S ) return bad( "variants differ" );
	return ok( codes( s ) );
}
OP( "replace_char" ) {
	string s = S; char a = char( int( c["c"] ) ), b = char( int( c["d"] ) );
	string r = replace_char( string( s ), a, b );
	replace_char( s, a, b );
	if ( r != s ) return bad( "variants differ" );
	return ok( codes( s ) );
}
OP( "latin" ) { string s = S; replace_special_chars( s ); return ok( codes( s ) ); }
OP( "case" ) { return ok( J::obj().set( "l", codes( to_lower( S ) ) ).set( "u", codes( to_upper( S ) ) ) ); }
OP( "copy" ) {
	size_t n = int( c["n"] );
	std::vector<char> buf( n );
	size_t k = copy_str( S, buf.data(), n );
	return ok( J::obj().set( "n", int( k ) ).set( "s", codes( n ? string( buf.data() ) : string() ) ) );
}
OP( "keyval" ) { return ok( pr( make_key_value_str( S, X ) ) ); }
OP( "concat" ) {
	std::vector<string> l; for ( auto& e : c["l"].a ) l.push_back( e.text() );
	string a = concat_str( l, X );
	if ( l.size() == 4 ) { string b = concat_str( { l[0], l[1], l[2], l[3] }, X ); if ( a != b ) return bad( "variants differ" ); }
	return ok( codes( a ) );
}
OP( "concat2" ) { return ok( codes( concat_str( S, X, char( int( c["c"] ) ) ) ) ); }
OP( "append" ) { string s = S; append_str( s, X, c["y"].text() ); return ok( codes( s ) ); }
OP( "format" ) { string s = S; return ok( codes( stringf( "<%s|%d>", s.c_str(), int( c["n"] ) ) ) ); }
OP( "any_of" ) { return ok( str_equals_any_of( S, { "", "a", "ab" } ) ); }
OP( "match" ) { return ok( pattern_match( S, X ) ); }
OP( "matcher" ) {
	pattern_matcher m( X );
	pattern_matcher d, e( X.c_str() ), f( m );
	prop_node pn( X ); pattern_matcher g( pn ); d = g;
	string s = S;
	bool r = m.match( s );
	if ( m( s ) != r || d.match( s ) != r || e.match( s ) != r || f.match( s ) != r || pattern_matcher( to_str( m ) ).match( s ) != r ) return bad( "variants differ" );
	if ( m.empty() != m.patterns().empty() ) return bad( "empty" );
	return ok( J::obj().set( "m", r ).set( "n", list( m.patterns() ) ) );
}
OP( "is_pattern" ) { return ok( is_pattern( S ) ); }
template<typename T> bool conv( const string& s, string& r ) { T v; if ( !from_str( s, v ) ) return false; r = to_str( v ); return true; }
OP( "num" ) {
	string s = S, a, b, t = trim_left_str( s );
	bool x = conv<long long>( s, a ), y = conv<long>( s, b );
	if ( x != y || a != b ) return bad( "long and long long differ" );
	if ( t.find( '-' ) == string::npos ) {
		if ( conv<unsigned long long>( s, b ) != x || a != b ) return bad( "unsigned long long differs" );
		if ( conv<unsigned long>( s, b ) != x || a != b ) return bad( "unsigned long differs" );
	}
	if ( a.size() < 10 ) {
		if ( conv<int>( s, b ) != x || a != b ) return bad( "int differs" );
		if ( t.find( '-' ) == string::npos && ( conv<unsigned>( s, b ) != x || a != b ) ) return bad( "unsigned differs" );
	}
	if ( !x ) return fail();
	return ok( codes( a ) );
}
OP( "int" ) { int n = c["n"], v = 0; string t = to_str( n ); if ( !from_str( t, v ) ) return fail(); return ok( J::obj().set( "t", codes( t ) ).set( "v", v ) ); }
OP( "bool" ) { bool b; if ( !from_str( S, b ) ) return fail(); bool d = !b; if ( !from_str( to_str( b ), d ) || d != b ) return bad( "round trip" ); return ok( b ); }
OP( "time" ) { return ok( codes( to_str( time_from_seconds( double( int( c["n"] ) ) ) ) ) ); }
OP( "list" ) { std::vector<int> v; for ( auto& e : c["v"].a ) v.push_back( e ); return ok( codes( to_str( v ) ) ); }
OP( "stack" ) {
	stack_string s; int depth = 0;
	for ( auto& e : c["l"].a ) {
		const string& k = e["c"].s;
		if ( k == "push" ) { s.push_back( e["s"].text() ); ++depth; }
		else if ( k == "set" ) { s.set( e["s"].text() ); depth = e["s"].size() ? 1 : 0; }
		else if ( depth > 0 ) { s.pop_back(); --depth; }
	}
	return ok( codes( s.str() ) );
}
OP( "dict" ) {
	using D = dictionary<int>;
	const auto& l = c["l"];
	auto P = [&]( int i ) { return std::make_pair( int( l[i]["n"] ), l[i]["k"].text() ); };
	D d = l.size() == 0 ? D{} : l.size() == 1 ? make_dictionary( { P( 0 ) } ) : l.size() == 2 ? D{ P( 0 ), P( 1 ) } : D{ P( 0 ), P( 1 ), P( 2 ) };
	J e = fail(), s = fail();
	try { e = ok( int( d( S ) ) ); } catch ( std::exception& ) {}
	try { s = ok( codes( d( int( c["n"] ) ) ) ); } catch ( std::exception& ) {}
	return ok( J::obj().set( "e", e ).set( "d", d( S, -7 ) ).set( "s", s ) );
}
OP( "encode" ) { return ok( codes( encode_char( char( int( c["c"] ) ) ) ) ); }
OP( "decode" ) {
	string s = S;
	std::vector<char> exact( s.begin(), s.end() ); // no terminator behind it
	int len = -1;
	char r = decode_char( exact.data(), exact.size(), &len );
	return ok( J::obj().set( "c", int( (unsigned char)r ) ).set( "n", len ) );
}
OP( "quoted" ) { string q = quoted( S ); return ok( J::obj().set( "q", codes( q ) ).set( "u", codes( try_unquoted( q ) ) ) ); }
OP( "try_quoted" ) { string x = X, q = try_quoted( S, x.c_str() ); return ok( J::obj().set( "n", needs_quotes( S, x.c_str() ) ).set( "q", codes( q ) ).set( "u", codes( try_unquoted( q ) ) ) ); }
OP( "unquoted" ) { return ok( codes( try_unquoted( S ) ) ); }

int main() { return vf::main_loop(); }
