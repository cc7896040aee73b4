#include "vf.h"
#include "xo/container/array.h"
#include "xo/container/container_tools.h"
#include "xo/container/dynarray.h"
#include "xo/container/flag_set.h"
#include "xo/container/stream_wrapper.h"
#include "xo/filesystem/path.h"
#include "xo/geometry/quat.h"
#include "xo/geometry/vec3.h"
#include "xo/numerical/console_plot.h"
#include "xo/string/dictionary.h"
#include "xo/system/type_class.h"
#include "xo/utility/pointer_types.h"
#include "xo/serialization/container_io.h"
#include "xo/string/string_tools.h"
#include "xo/system/debug_tools.h"
#include "xo/system/system_tools.h"
#include "xo/time/date.h"
#include "xo/utility/hash.h"
#include "xo/utility/memory_tools.h"
#include "xo/utility/overload.h"
#include "xo/utility/pair_math.h"
#include "xo/utility/side.h"
#include "xo/utility/smart_enum.h"
#include "xo/utility/variant_cast.h"
#include <deque>
#include <fstream>
#include <list>
#include <sstream>
#include <unistd.h>
using std::string;
using vf::J;

static J same( std::initializer_list< J > l ) { string a, b; l.begin()->print( a ); for ( auto& j : l ) { b.clear(); j.print( b ); if ( a != b ) return J::arr().push( *l.begin() ).push( j ).push( "differs" ); } return *l.begin(); }
static std::vector< int > ints( const J& j ) { std::vector< int > v; for ( auto& e : j.a ) v.push_back( int( e ) ); return v; }
template< typename C > J list( const C& c ) { J r = J::arr(); for ( const auto& e : c ) r.push( J( int( e ) ) ); return r; }

// flags: the same calls on 64, 8 and 16 bits, with the flag as a value and as a template argument
enum class wide { a = 0, b = 31, c = 32, d = 62, e = 63 };
enum class tight { a = 0, b = 1, c = 3, d = 4, e = 7 };
enum loose { la = 2, lb = 15, lc = 7, ld = 8, le = 0 };
static const wide WB[] = { wide::a, wide::b, wide::c, wide::d, wide::e };
static const tight TB[] = { tight::a, tight::b, tight::c, tight::d, tight::e };
static const loose LB[] = { la, lb, lc, ld, le };
using wide_set = xo::flag_set< wide >;
using tight_set = xo::flag_set< tight, unsigned char >;
using loose_set = xo::flag_set< loose, unsigned short >;
static wide_set W[2];
static wide_set W2[2]; // through template arguments
static tight_set T[2];
static loose_set L[2];
static J see_flags() {
	J g = J::arr(), any = J::arr();
	for ( int i = 0; i < 2; ++i ) {
		J r = J::arr();
		const auto &w = W[i], &w2 = W2[i];
		for ( int f = 0; f < 5; ++f ) {
			bool t = f == 0 ? w2.get< wide::a >() : f == 1 ? w2.get< wide::b >() : f == 2 ? w2.get< wide::c >() : f == 3 ? w2.get< wide::d >() : w2.get< wide::e >();
			r.push( same( { J( w.get( WB[f] ) ), J( w( WB[f] ) ), J( w2.get( WB[f] ) ), J( t ), J( T[i].get( TB[f] ) ), J( L[i]( LB[f] ) ), J( wide_set( w.data() ).get( WB[f] ) ), J( ( ( w.data() >> int( WB[f] ) ) & 1 ) == 1 ) } ) );
		}
		g.push( r );
		any.push( same( { J( w.any() ), J( w2.any() ), J( T[i].any() ), J( L[i].any() ), J( w2.data() == w.data() && w.any() ) } ) );
	}
	return J::obj().set( "any", any ).set( "get", g );
}
template< typename S, typename E > void set_list( S& s, const E* B, const std::vector< int >& f, int how ) {
	// how: 0 clear, 1 set, 2 set to true, 3 set to false
	auto go = [&]( std::initializer_list< E > l ) { if ( how == 0 ) s.clear( l ); else if ( how == 1 ) s.set( l ); else s.set( l, how == 2 ); };
	if ( f.empty() ) go( {} );
	else if ( f.size() == 1 ) go( { B[f[0] - 1] } );
	else if ( f.size() == 2 ) go( { B[f[0] - 1], B[f[1] - 1] } );
	else go( { B[f[0] - 1], B[f[1] - 1], B[f[2] - 1] } );
}
template< typename S, typename E > J ask( const S& s, const E* B, const std::vector< int >& f ) {
	auto go = [&]( std::initializer_list< E > l ) { return J::obj().set( "any", s.any( l ) ).set( "count", s.count( l ) ); };
	if ( f.empty() ) return go( {} );
	if ( f.size() == 1 ) return go( { B[f[0] - 1] } );
	if ( f.size() == 2 ) return go( { B[f[0] - 1], B[f[1] - 1] } );
	return go( { B[f[0] - 1], B[f[1] - 1], B[f[2] - 1] } );
}
template< wide E > void one_of( wide_set& s, int how ) { if ( how == 0 ) s.clear< E >(); else if ( how == 1 ) s.set< E >(); else if ( how == 4 ) s.toggle< E >(); else s.set< E >( how == 2 ); }
static void one( wide_set& s, int f, int how ) {
	switch ( f ) { case 1: one_of< wide::a >( s, how ); break; case 2: one_of< wide::b >( s, how ); break; case 3: one_of< wide::c >( s, how ); break; case 4: one_of< wide::d >( s, how ); break; default: one_of< wide::e >( s, how ); }
}
static J change( int i, const std::vector< int >& f, int how ) {
	set_list( W[i], WB, f, how ); set_list( T[i], TB, f, how );
	for ( int x : f ) {
		one( W2[i], x, how );
		if ( how == 0 ) L[i].clear( { LB[x - 1] } ); else if ( how == 1 ) L[i].set( LB[x - 1] ); else L[i].set( LB[x - 1], how == 2 );
	}
	return ok( see_flags() );
}
OP( "fl_set" ) { return change( c["i"] - 1, ints( c["f"] ), c["v"].b() ? ( int( c["f"].size() ) % 2 ? 1 : 2 ) : 3 ); }
OP( "fl_clear" ) { return change( c["i"] - 1, ints( c["f"] ), 0 ); }
OP( "fl_new" ) {
	int i = c["i"] - 1; auto f = ints( c["f"] );
	if ( f.size() == 1 ) { W[i] = wide_set( WB[f[0] - 1] ); T[i] = TB[f[0] - 1]; L[i] = LB[f[0] - 1]; }
	else if ( f.size() == 2 ) { W[i] = { WB[f[0] - 1], WB[f[1] - 1] }; T[i] = tight_set{ TB[f[0] - 1], TB[f[1] - 1] }; L[i] = loose_set( { LB[f[0] - 1], LB[f[1] - 1] } ); }
	else if ( f.size() == 3 ) { W[i] = { WB[f[0] - 1], WB[f[1] - 1], WB[f[2] - 1] }; T[i] = { TB[f[0] - 1], TB[f[1] - 1], TB[f[2] - 1] }; L[i] = { LB[f[0] - 1], LB[f[1] - 1], LB[f[2] - 1] }; }
	else { W[i] = wide_set(); T[i] = tight_set(); L[i] = loose_set(); }
	W2[i] = wide_set( W[i] );
	return ok( see_flags() );
}
OP( "fl_toggle" ) { int i = c["i"] - 1, f = c["f"]; W[i].toggle( WB[f - 1] ); T[i].toggle( TB[f - 1] ); L[i].toggle( LB[f - 1] ); one( W2[i], f, 4 ); return ok( see_flags() ); }
OP( "fl_none" ) { int i = c["i"] - 1; W[i].clear(); T[i].clear(); L[i].clear(); W2[i].clear(); return ok( see_flags() ); }
OP( "fl_copy" ) { int i = c["i"] - 1; W[i] = W[1 - i]; T[i] = T[1 - i]; L[i] = L[1 - i]; W2[i] = W2[1 - i]; return ok( see_flags() ); }
OP( "fl_q" ) { int i = c["i"] - 1; auto f = ints( c["f"] ); return ok( same( { ask( W[i], WB, f ), ask( W2[i], WB, f ), ask( T[i], TB, f ), ask( L[i], LB, f ) } ) ); }

// arrays of numbers and of texts
using texts = xo::dynarray< string >;
static xo::dynarray< int > D[2];
static texts S[2];
static string text_of( int n ) { return n == 0 ? string() : "a text that does not fit in the object: " + std::to_string( n ); }
static J text_no( const string& s ) { return s.empty() ? J( 0 ) : s.compare( 0, 40, text_of( 7 ), 0, 40 ) ? J( "changed" ) : J( atoi( s.c_str() + 40 ) ); }
static J see_array() {
	J v = J::arr(), n = J::arr(), e = J::arr();
	for ( int i = 0; i < 2; ++i ) {
		const auto& d = D[i]; const auto& s = S[i];
		J x = list( d ), y = J::arr(), z = J::arr(), w = J::arr();
		for ( auto& t : s ) y.push( text_no( t ) );
		for ( size_t k = 0; k < d.size(); ++k ) { z.push( d[k] ); w.push( D[i].data()[k] ); }
		v.push( same( { x, y, z, w, list( D[i] ) } ) );
		n.push( same( { J( d.size() ), J( s.size() ), J( int( d.cend() - d.cbegin() ) ) } ) );
		e.push( same( { J( d.empty() ), J( s.empty() ) } ) );
	}
	return J::obj().set( "empty", e ).set( "eq", same( { J( D[0] == D[1] ), J( !( D[0] != D[1] ) ), J( S[0] == S[1] ), J( S[1] == S[0] ) } ) ).set( "n", n ).set( "v", v );
}
OP( "dy_new" ) { int i = c["i"] - 1, n = c["n"], v = c["v"]; if ( v == 0 ) { D[i] = xo::dynarray< int >( n ); S[i] = texts( n ); } else { D[i] = xo::dynarray< int >( n, v ); S[i] = texts( n, text_of( v ) ); } return ok( see_array() ); }
OP( "dy_resize" ) { int i = c["i"] - 1, n = c["n"], v = c["v"]; if ( v == 0 ) { D[i].resize( n ); S[i].resize( n ); } else { D[i].resize( n, v ); S[i].resize( n, text_of( v ) ); } return ok( see_array() ); }
OP( "dy_alias" ) { int i = c["i"] - 1, n = c["n"]; if ( D[i].empty() ) return fail(); D[i].resize( n, D[i][D[i].size() - 1] ); S[i].resize( n, S[i][S[i].size() - 1] ); return ok( see_array() ); }
OP( "dy_clear" ) { int i = c["i"] - 1; D[i].clear(); S[i].clear(); return ok( see_array() ); }
OP( "dy_assign" ) { int i = c["i"] - 1, v = c["v"]; D[i].assign( v ); S[i].assign( text_of( v ) ); return ok( see_array() ); }
OP( "dy_copy" ) { int i = c["i"] - 1; D[i] = D[1 - i]; S[i] = texts( S[1 - i] ); return ok( see_array() ); }
OP( "dy_move" ) { int i = c["i"] - 1; D[i] = std::move( D[1 - i] ); texts t( std::move( S[1 - i] ) ); S[i] = std::move( t ); return ok( see_array() ); }
OP( "dy_self" ) { int i = c["i"] - 1; auto &d = D[i]; auto& s = S[i]; D[i] = d; S[i] = s; D[i] = std::move( d ); S[i] = std::move( s ); return ok( see_array() ); }
OP( "dy_at" ) {
	int i = c["i"] - 1; size_t k = int( c["k"] ); const auto& d = D[i]; bool threw = false;
	try { S[i].at( k ); } catch ( std::exception& ) { threw = true; }
	int v = 0; bool threw2 = false;
	try { v = d.at( k ); } catch ( std::exception& ) { threw2 = true; }
	if ( threw != threw2 ) return ok( J( "differs" ) );
	if ( threw ) return fail();
	return ok( same( { J( v ), text_no( S[i].at( k ) ), J( D[i].at( k ) ) } ) );
}
OP( "dy_set" ) { int i = c["i"] - 1, v = c["v"]; size_t k = int( c["k"] ); D[i].at( k ) = v; S[i][k] = text_of( v ); return ok( see_array() ); }

static long times = 0;
static bool period() { bool b = false; xo_do_periodic( 3, b = true ); ++times; return b; }
OP( "pd" ) { return ok( period() ); }

template< typename C > J seek( C& m, int e ) {
	const C& v = m;
	auto big = [&]( int x ) { return x > e; };
	auto no = []( auto& c, auto it ) { return it == std::end( c ) ? J( -1 ) : J( int( std::distance( std::begin( c ), it ) ) ); };
	J r = J::obj();
	r.set( "any", xo::any_of( v, big ) ).set( "contains", xo::contains( v, e ) ).set( "containsif", xo::contains_if( v, big ) ).set( "count", xo::count( v, e ) ).set( "countif", xo::count_if( v, big ) );
	J each = J::arr(); xo::for_each( v, [&]( int x ) { each.push( 2 * x + e ); } );
	C w = m; xo::for_each( w, [&]( int& x ) { x = 2 * x + e; } );
	r.set( "each", same( { each, list( w ) } ) );
	r.set( "find", same( { no( v, xo::find( v, e ) ), no( m, xo::find( m, e ) ) } ) ).set( "findif", same( { no( v, xo::find_if( v, big ) ), no( m, xo::find_if( m, big ) ) } ) );
	r.set( "none", xo::none_of( v, big ) );
	auto ref = [&]( auto& c ) { try { auto& x = xo::find_ref_if( c, big ); bool inside = false; for ( auto& y : c ) inside |= &x == &y; return inside ? J( int( x ) ) : J( "a copy" ); } catch ( std::exception& ) { return J( -1 ); } };
	r.set( "ref", same( { ref( v ), ref( m ) } ) );
	return r;
}
template< typename C > J seek_index( const C& v, int e, int k ) {
	auto big = [&]( int x ) { return x > e; };
	auto no = []( xo::index_t i ) { return i == xo::no_index ? J( -1 ) : J( int( i ) ); };
	return J::obj().set( "index", k ? no( xo::find_index( v, e, k ) ) : same( { no( xo::find_index( v, e ) ), no( xo::find_index( v, e, 0 ) ) } ) )
		.set( "indexif", k ? no( xo::find_index_if( v, big, k ) ) : same( { no( xo::find_index_if( v, big ) ), no( xo::find_index_if( v, big, 0 ) ) } ) ).set( "back", no( xo::back_index( v ) ) );
}
OP( "search" ) {
	auto v = ints( c["xs"] ); int e = c["e"], k = c["k"];
	std::list< int > li( v.begin(), v.end() ); std::deque< int > dq( v.begin(), v.end() );
	xo::dynarray< int > dy( v.size() ); std::copy( v.begin(), v.end(), dy.data() );
	J r = same( { seek( v, e ), seek( li, e ), seek( dq, e ) } );
	J s = same( { seek_index( v, e, k ), seek_index( dq, e, k ) } );
	if ( r.t != J::Obj || s.t != J::Obj ) return ok( J::arr().push( r ).push( s ) );
	if ( xo::back_index( dy ) != xo::back_index( v ) || xo::find_index_if( dy, [&]( int x ) { return x == e; }, k ) != xo::find_index( v, e, k ) || xo::count_if( dy, [&]( int x ) { return x == e; } ) != xo::count( v, e ) ) return ok( "dynarray differs" );
	J at = J::arr(); for ( auto& x : v ) at.push( xo::index_of( x, v ) );
	std::vector< int > g; J g2 = J::arr(); for ( int x : v ) g2.push( xo::emplace_back_get_index( g, x ) );
	for ( auto& p : s.o ) r.set( p.first, p.second );
	return ok( r.set( "at", g == v ? same( { at, g2 } ) : J( "differs" ) ) );
}
OP( "copy" ) {
	auto xs = ints( c["xs"] ), ys = ints( c["ys"] );
	auto a = ys, b = ys, d = ys; std::vector< double > x( ys.begin(), ys.end() );
	xo::copy_container( xs, a ); auto e = xo::copy( xs, b.begin() ); xo::copy_cast( xs, x ); auto e2 = xo::copy( xs.begin(), xs.end(), d.begin() );
	std::list< long > l( ys.begin(), ys.end() ); xo::copy_cast( xs.begin(), xs.end(), l.begin() );
	J to; { std::vector< int > t( xs.size() ), u( xs.size() ); auto p = xo::copy_to_range( ys.begin(), t ); auto q = xo::copy_to_range( ys.begin(), u.begin(), u.end() ); to = p - ys.begin() == long( xs.size() ) && q == p ? same( { list( t ), list( u ) } ) : J( "end" ); }
	auto ap = xs; auto& back = xo::append( ap, ys ); std::list< int > al( xs.begin(), xs.end() ); xo::append( al, ys );
	bool ends = e - b.begin() == long( xs.size() ) && e2 - d.begin() == long( xs.size() );
	return ok( J::obj().set( "append", &back == &ap ? same( { list( ap ), list( al ) } ) : J( "copied" ) ).set( "range", ends ? same( { list( a ), list( b ), list( d ), list( x ), list( l ) } ) : J( "end" ) ).set( "to", to ) );
}
template< typename T, typename V, typename Q > J stream( const J& c, V v, Q q, T x ) {
	std::vector< T > a( 8 ), b;
	{ xo::output_iterator_stream< typename std::vector< T >::iterator > s( a.begin() ); s << v << q; s << T( x ); if ( s.pos_ != a.end() ) return J( "end" ); }
	{ xo::push_back_stream< std::vector< T > > s( b ); s << v.x << v.y << v.z; s << q.w << q.x << q.y << q.z << T( x ); }
	if ( a != b ) return J::arr().push( list( a ) ).push( list( b ) );
	V v2; Q q2; int x2 = -99; T x3 = -99;
	{ xo::input_iterator_stream< typename std::vector< T >::iterator > s( a.begin() ); s >> v2 >> q2 >> x2; if ( s.pos_ != a.end() ) return J( "end" ); }
	{ xo::input_iterator_stream< typename std::vector< T >::iterator > s( a.begin() + 7 ); s >> x3; }
	return J::obj().set( "q", list( std::vector< double >{ q2.w, q2.x, q2.y, q2.z } ) ).set( "v", list( std::vector< double >{ v2.x, v2.y, v2.z } ) ).set( "x", same( { J( x2 ), J( int( x3 ) ) } ) );
}
OP( "stream" ) {
	auto &v = c["v"], &q = c["q"]; int x = c["x"];
	int a[] = { v[0], v[1], v[2] }, b[] = { q[0], q[1], q[2], q[3] }; xo::vec3d vd( a[0], a[1], a[2] ); xo::vec3f vf( a[0], a[1], a[2] );
	xo::quatd qd( b[0], b[1], b[2], b[3] ); xo::quatf qf( b[0], b[1], b[2], b[3] );
	return ok( same( { stream< double >( c, vd, qd, x ), stream< float >( c, vf, qf, x ), stream< double >( c, vf, qf, x ), stream< float >( c, vd, qd, x ) } ) );
}

static string dir() { static string d = [] { auto t = getenv( "TMPDIR" ); return string( t ? t : "/tmp" ) + "/elems-" + std::to_string( getpid() ) + ".txt"; }(); return d; }
OP( "words" ) {
	string s = c["lead"].b() ? " \n" : "", sep = c["s"].str();
	for ( size_t i = 0; i < c["w"].size(); ++i ) s += ( i ? sep : "" ) + c["w"][i]["t"].str();
	if ( c["end"].b() ) s += "\n";
	std::vector< int > v; std::vector< std::pair< int, int > > p; std::vector< string > w;
	using xo::operator>>;
	{ std::istringstream is( s ); is >> v; } { std::istringstream is( s ); is >> p; } { std::istringstream is( s ); is >> w; }
	J ws = J::arr(), ps = J::arr(); for ( auto& x : w ) ws.push( x ); for ( auto& x : p ) ps.push( J::arr().push( x.first ).push( x.second ) );
	{ std::ofstream f( dir(), std::ios::binary ); f << s; }
	auto err = J::arr().push( "error" ); J file, file2;
	try { file = list( xo::read_data< std::vector< int > >( xo::path( dir() ) ) ); } catch ( std::exception& ) { file = err; }
	{ xo::error_code ec; auto x = xo::read_data< std::vector< int > >( xo::path( dir() ), &ec ); file2 = ec.bad() ? err : list( x ); }
	::unlink( dir().c_str() );
	xo::error_code ec; xo::read_data< std::vector< int > >( xo::path( dir() ), &ec );
	return ok( J::obj().set( "file", ec.bad() ? same( { file, file2 } ) : J( "read a file that is not there" ) ).set( "pairs", ps ).set( "v", list( v ) ).set( "words", ws ) );
}

template< typename T > J plot( const J& c ) {
	int x0 = c["x"], w = int( c["f"][0].size() ), h = c["h"];
	std::vector< std::function< T( T ) > > f;
	for ( auto& y : c["f"].a ) { auto v = ints( y ); f.push_back( [=]( T x ) { int i = int( std::floor( x - x0 + 0.5 ) ); return i >= 0 && i < int( v.size() ) ? T( v[i] ) : T( 1000 ); } ); }
	std::ostringstream os; auto* old = std::cout.rdbuf( os.rdbuf() );
	try { xo::console_plot< T >( f, T( x0 ), T( x0 + std::max( w - 1, 1 ) ), w, h ); } catch ( ... ) { std::cout.rdbuf( old ); throw; }
	std::cout.rdbuf( old );
	J rows = J::arr(); std::istringstream is( os.str() ); string l;
	while ( std::getline( is, l ) ) {
		J r = J::arr();
		for ( unsigned char ch : l ) switch ( ch ) { case ' ': r.push( 0 ); break; case 196: r.push( 1 ); break; case 179: r.push( 2 ); break; case 194: r.push( 3 ); break; case 193: r.push( 4 ); break; case 197: r.push( 5 ); break; case 219: r.push( 10 ); break; case 178: r.push( 11 ); break; case 177: r.push( 12 ); break; case 176: r.push( 13 ); break; default: r.push( -int( ch ) ); }
		rows.push( r );
	}
	return rows;
}
OP( "plot" ) { return ok( same( { plot< float >( c ), plot< double >( c ) } ) ); }

static J limbs( unsigned long long h ) { J r = J::arr(); for ( int i = 0; i < 4; ++i ) r.push( int( ( h >> ( 16 * i ) ) & 0xffff ) ); return r; }
OP( "hash" ) {
	string s = c["s"].text();
	J r = same( { limbs( xo::hash( s ) ), limbs( xo::hash( s.c_str() ) ), limbs( xo::hash_constexpr( s.c_str() ) ), limbs( operator""_hash( s.c_str(), s.size() ) ) } );
	for ( auto& e : c["s"].a ) if ( int( e ) > 127 ) return ok( r.size() == 4 ? limbs( 0 ) : r );
	return ok( r );
}
OP( "side" ) {
	string s = c["s"].text(), t = c["t"].text(); auto d = xo::side( int( c["d"] ) ); auto m = s; xo::str_mirror_side( m );
	return ok( J::obj().set( "base", codes( xo::str_remove_side( s ) ) ).set( "before", codes( xo::str_append_before_side( s, t ) ) ).set( "mirror", same( { codes( xo::str_mirrored_side( s ) ), codes( m ) } ) )
		.set( "opp", int( xo::mirrored( d ) ) ).set( "post", codes( xo::side_postfix( d ) ) ).set( "set", codes( xo::str_set_side( s, d ) ) ).set( "side", int( xo::str_get_side( s ) ) ) );
}
OP( "tidy" ) { return ok( codes( xo::tidy_identifier( c["s"].text().c_str() ) ) ); }

namespace e1 { xo_smart_enum( color, red, green, blue, dark_red ); }
namespace e2 { xo_smart_enum_class( color, red,green ,	blue, dark_red ); }
namespace e3 { xo_smart_enum_class_type( color, unsigned char, red, green, blue, dark_red ); }
namespace e4 { xo_smart_enum_type( color, short, red, green, blue, dark_red ); }
namespace e5 { enum class color { red, green, blue, dark_red }; XO_DEFINE_ENUM_SERIALIZATION( color, red, green, blue, dark_red ); }
template< typename E > J read_enum( const string& w, bool end ) {
	E e = E( 2 ); bool b = from_str( w, e ); J r = b ? J( int( e ) ) : int( e ) == 2 ? J( -1 ) : J( "changed" );
	if ( w.find( ' ' ) != string::npos ) return r;
	std::istringstream is( w + ( end ? " x" : "" ) ); E f = E( 2 );
	if ( w.empty() && end ) return r;
	is >> f; J q = is.fail() ? ( int( f ) == 2 ? J( -1 ) : J( "changed" ) ) : J( int( f ) );
	return same( { r, q } );
}
OP( "enum" ) {
	const auto& w = c["w"].str(); bool e = c["end"].b();
	J r = same( { read_enum< e1::color >( w, e ), read_enum< e2::color >( w, e ), read_enum< e3::color >( w, e ), read_enum< e4::color >( w, e ), read_enum< e5::color >( w, e ) } );
	return r.t == J::Int && r.i == -1 ? fail() : ok( r );
}
template< typename E > J write_enum( int n ) { std::ostringstream os; os << E( n ); return same( { J( to_str( E( n ) ) ), J( os.str() ) } ); }
OP( "enumtext" ) { int n = c["n"]; return ok( same( { write_enum< e1::color >( n ), write_enum< e2::color >( n ), write_enum< e3::color >( n ), write_enum< e4::color >( n ), write_enum< e5::color >( n ) } ) ); }
OP( "date" ) {
	xo::date d{ int( c["y"] ), int( c["m"] ), int( c["d"] ) }, e; auto t = to_str( d );
	return ok( J::obj().set( "back", from_str( t, e ) ? J::arr().push( e.year ).push( e.month ).push( e.day ) : J( "not read" ) ).set( "t", t ) );
}
OP( "dateread" ) { xo::date d; return from_str( c["s"].str(), d ) ? ok( J::arr().push( d.year ).push( d.month ).push( d.day ) ) : fail(); }
OP( "moment" ) { return ok( xo::get_date_time_str( std::time_t( int( c["d"] ) ) * 86400 + int( c["s"] ), "%Y-%m-%d_%H.%M.%S" ) ); }
OP( "misc" ) {
	int a = c["a"], b = c["b"], k = c["k"];
	xo::pair< int, double > p( a, b ), q( c["c"].num(), c["d"].num() ), s = p, t = p;
	s += q; t -= q; auto s2 = p + q, t2 = p - q;
	J pr = same( { J::arr().push( s.first ).push( int( s.second ) ).push( t.first ).push( int( t.second ) ), J::arr().push( s2.first ).push( int( s2.second ) ).push( t2.first ).push( int( t2.second ) ) } );
	std::vector< std::unique_ptr< int > > v; v.push_back( std::make_unique< int >( a ) ); v.push_back( std::make_unique< int >( b ) );
	auto w = xo::clone( v ); auto one = xo::clone( v[0] ); *v[0] = 77; v[1].reset();
	bool threw = false; try { xo::dereference_or_throw( v[1].get(), "null" ); } catch ( std::exception& ) { threw = true; }
	const int* cp = one.get();
	J cl = w.size() == 2 && threw ? same( { J::arr().push( *w[0] ).push( *w[1] ), J::arr().push( *one ).push( *w[1] ), J::arr().push( xo::dereference_or_throw( cp, "" ) ).push( xo::dereference_or_throw( w[1].get(), "" ) ) } ) : J( "no" );
	std::variant< int, string, bool > x; if ( k == 1 ) x = a; else if ( k == 2 ) x = string( "text" ); else x = true;
	auto kind = std::visit( xo::overload{ []( int ) { return string( "int" ); }, []( const string& s ) { return s; }, []( bool ) { return string( "flag" ); } }, x );
	std::variant< int, string > small( a ); auto big = xo::variant_cast< std::variant< string, std::vector< int >, int > >( small );
	std::variant< int, string > word( "w" ); auto big2 = xo::variant_cast< std::variant< string, std::vector< int >, int > >( word );
	return ok( J::obj().set( "cast", std::holds_alternative< int >( big ) && std::holds_alternative< string >( big2 ) ? J( std::get< int >( big ) ) : J( "other" ) ).set( "clone", cl ).set( "kind", kind ).set( "pair", pr ) );
}

// names of types
namespace outer { template< typename A > struct box { struct inner {}; template< typename B > struct part {}; virtual ~box() {} }; struct plain {}; namespace in { template< typename... A > struct many {}; enum num { one }; struct deep : box< many<> > {}; } }
namespace { struct hidden {}; struct top { virtual ~top() {} }; struct bottom : top {}; }
template< typename T > string own() { struct local {}; return xo::get_clean_type_name< local >(); }
static string real_types() {
	bottom b; const top& t = b; outer::in::deep d; const outer::box< outer::in::many<> >& base = d;
	struct { string got, want; } all[] = { { xo::get_clean_type_name< outer::plain >(), "plain" }, { xo::get_clean_type_name< outer::box< int > >(), "box" }, { xo::get_clean_type_name< outer::box< outer::plain > >(), "box" },
		{ xo::get_clean_type_name< outer::box< outer::in::many< outer::plain, int > > >(), "box" }, { xo::get_clean_type_name< outer::in::many<> >(), "many" }, { xo::get_clean_type_name< outer::in::num >(), "num" },
		{ xo::get_clean_type_name< hidden >(), "hidden" }, { xo::get_clean_type_name< outer::box< hidden > >(), "box" }, { xo::get_clean_type_name( t ), "bottom" }, { xo::get_clean_type_name( base ), "deep" }, { xo::get_clean_type_name( outer::plain() ), "plain" },
		{ xo::get_clean_type_name< xo::vec3d >(), "vec3_" }, { xo::get_clean_type_name< xo::path >(), "path" }, { xo::get_clean_type_name< std::vector< std::vector< xo::path > > >(), "vector" },
		{ xo::get_clean_type_name< outer::box< int >::inner >(), "inner" }, { xo::get_clean_type_name< outer::box< outer::plain >::part< outer::box< int >::inner > >(), "part" }, { own< int >(), "local" }, { own< outer::box< int > >(), "local" },
		{ xo::get_clean_type_name< int >(), "int" }, { xo::get_clean_type_name< double >(), "double" }, { xo::get_clean_type_name< bool >(), "bool" } };
	for ( auto& x : all ) if ( x.got != x.want ) return x.got + " is not " + x.want;
	bool classes = xo::get_type_class< void >() == xo::void_type_class && xo::get_type_class< bool >() == xo::boolean_type_class && xo::get_type_class< char >() == xo::integral_type_class && xo::get_type_class< unsigned long >() == xo::integral_type_class
		&& xo::get_type_class< float >() == xo::floating_point_type_class && xo::get_type_class< outer::in::num >() == xo::enum_type_class && xo::get_type_class< string >() == xo::string_type_class && xo::get_type_class< outer::plain >() == xo::unknown_type_class;
	return classes ? "" : "class of a type";
}
OP( "type" ) {
	string m;
	auto arg = []( const string& a ) { return a.size() == 1 ? a : std::to_string( a.size() ) + a; };
	for ( auto& p : c["p"].a ) { const auto& n = p["n"].str(); m += std::to_string( n.size() ) + n; if ( p["a"].size() ) { m += "I"; for ( auto& a : p["a"].a ) m += arg( a.str() ); m += "E"; } }
	if ( c["p"].size() > 1 ) m = "N" + m + "E";
	static const string r = real_types(); if ( !r.empty() ) return ok( r );
	if ( xo::tidy_type_name( "no type" ).empty() ) return ok( "no name" );
	return ok( J::obj().set( "mangled", xo::tidy_type_name( m ) ).set( "text", m ) );
}
OP( "dict" ) {
	auto& d = c["d"]; int k = c["k"]; const auto& n = c["n"].str(); auto err = J::arr().push( "error" );
	auto P = [&]( int i ) { return std::pair< int, string >( d[i]["k"], d[i]["n"].str() ); };
	auto L = [&]( int i ) { return std::pair< const char*, int >( d[i]["n"].str().c_str(), int( d[i]["k"] ) ); };
	auto ask = [&]( const xo::dictionary< int >& x ) {
		J name, key; const auto& y = x;
		try { name = J::arr().push( y( k ) ); } catch ( std::exception& ) { name = err; }
		try { key = J::arr().push( y( n ) ); } catch ( std::exception& ) { key = err; }
		return J::obj().set( "key", key ).set( "name", name ).set( "or", y( n, -77 ) );
	};
	auto look = [&]( std::initializer_list< std::pair< const char*, int > > l ) { try { return J::arr().push( xo::lookup< int >( n, l ) ); } catch ( std::exception& ) { return err; } };
	J r, l;
	switch ( d.size() ) {
	case 0: r = same( { ask( {} ), ask( xo::make_dictionary< int >( {} ) ) } ); l = look( {} ); break;
	case 1: r = same( { ask( { P( 0 ) } ), ask( xo::make_dictionary< int >( { P( 0 ) } ) ) } ); l = look( { L( 0 ) } ); break;
	case 2: r = same( { ask( { P( 0 ), P( 1 ) } ), ask( xo::make_dictionary< int >( { P( 0 ), P( 1 ) } ) ) } ); l = look( { L( 0 ), L( 1 ) } ); break;
	case 3: r = ask( { P( 0 ), P( 1 ), P( 2 ) } ); l = look( { L( 0 ), L( 1 ), L( 2 ) } ); break;
	default: r = ask( { P( 0 ), P( 1 ), P( 2 ), P( 3 ) } ); l = look( { L( 0 ), L( 1 ), L( 2 ), L( 3 ) } );
	}
	if ( r.t != J::Obj ) return ok( r );
	J k2 = r["key"]; return ok( J::obj().set( "key", same( { k2, l } ) ).set( "name", r["name"] ).set( "or", r["or"] ) );
}
static int live = 0;
struct c1 { c1() { ++live; } virtual ~c1() { --live; } virtual int no() const { return 1; } };
struct c2 : virtual c1 { int no() const override { return 2; } };
struct c3 : virtual c1 { long more[4]; int no() const override { return 3; } };
struct c4 : c2 { string s = "a text that is long enough to be somewhere else"; int no() const override { return 4; } };
static std::unique_ptr< c1 > object( int o ) { std::unique_ptr< c1 > p; if ( o == 1 ) p.reset( new c1 ); else if ( o == 2 ) p.reset( new c2 ); else if ( o == 3 ) p.reset( new c3 ); else if ( o == 4 ) p.reset( new c4 ); return p; }
template< typename T > J cast_to( int o ) {
	auto no = []( const c1* p ) { return p ? p->no() : 0; };
	J t, u;
	{ auto p = object( o ); auto* raw = p.get(); auto q = xo::try_dynamic_unique_cast< T >( p ); t = J::obj().set( "got", no( q.get() ) ).set( "left", no( p.get() ) ).set( "live", live ); if ( q && static_cast< c1* >( q.get() ) != raw ) t = J( "another object" ); }
	{ auto p = object( o ); auto q = xo::dynamic_unique_cast< T >( std::move( p ) ); u = J::obj().set( "got", no( q.get() ) ).set( "left", no( p.get() ) ).set( "live", live ); }
	{ auto q = xo::dynamic_unique_cast< T >( object( o ) ); if ( no( q.get() ) != int( u["got"] ) ) u = J( "differs for a temporary" ); }
	return J::obj().set( "cast", u ).set( "end", live ).set( "try", t );
}
OP( "cast" ) { int o = c["o"], t = c["t"]; return ok( t == 1 ? cast_to< c1 >( o ) : t == 2 ? cast_to< c2 >( o ) : t == 3 ? cast_to< c3 >( o ) : cast_to< c4 >( o ) ); }

int main() {
	setenv( "TZ", "UTC", 1 ); tzset();
	vf::on_reset() = []( const J& ) { for ( int i = 0; i < 2; ++i ) { W[i] = W2[i] = wide_set(); T[i] = tight_set(); L[i] = loose_set(); D[i].clear(); S[i].clear(); } while ( times % 3 ) period(); };
	return vf::main_loop();
}
