#include "vf.h"
#include <algorithm>
#include <string>
#include "xo/xo_types.h"
#include "xo/container/flat_map.h"
#include "xo/container/flat_set.h"
#include "xo/container/sorted_vector.h"
#include "xo/container/indexed_map.h"
#include "xo/container/indexed_set.h"
using namespace xo;
using std::string;

static string kind;
static flat_map<string, int> fm;
static flat_set<string> fs;
static sorted_vector<int> sv;
static indexed_map<string, int> im;
static indexed_set<int, unsigned char> is;

static string ks( const J& k ) { char b[8]; snprintf( b, 8, "k%03d", int( k.i ) ); return b; }
static int kn( const string& s ) { return atoi( s.c_str() + 1 ); }
static J ent( int k, int v ) { return J::arr().push( k ).push( v ); }
static J ent( const std::pair<string, int>& p ) { return ent( kn( p.first ), p.second ); }
static J ent( const string& s ) { return ent( kn( s ), 0 ); }
static J ent( int k ) { return ent( k, 0 ); }
template< typename C, typename I > J pos( C& c, I i ) { return J( int( i - c.begin() ) ); }
template< typename C, typename F > J both( C& c, F f ) {
	const C& cc = c;
	return ok( J::obj().set( "m", pos( c, f( c ) ) ).set( "c", pos( cc, f( cc ) ) ) );
}
#define BAD { fprintf( stderr, "HARNESS: op on wrong kind\n" ); exit( 97 ); }

OP( "insert" ) {
	string k = ks( c["k"] ); int v = c["v"].i; J r = J::obj();
	if ( kind == "fmap" ) { const flat_map<string, int>::value_type e( k, v ); auto p = fm.insert( e ); r.set( "pos", pos( fm, p.first ) ).set( "new", bool( p.second ) ); }
	else if ( kind == "fset" ) { auto p = fs.insert( k ); r.set( "pos", pos( fs, p.first ) ).set( "new", bool( p.second ) ); }
	else if ( kind == "svec" ) { auto p = sv.insert( c["k"].i ); r.set( "pos", pos( sv, p ) ).set( "new", true ); }
	else { auto p = im.insert( { k, v } ); r.set( "pos", pos( im, p.first ) ).set( "new", bool( p.second ) ); }
	return ok( r );
}
OP( "insert_rv" ) {
	string k = ks( c["k"] ); int v = c["v"].i; J r = J::obj();
	if ( kind == "fmap" ) { flat_map<string, int>::value_type e( k, v ); auto p = fm.insert( std::move( e ) ); r.set( "pos", pos( fm, p.first ) ).set( "new", bool( p.second ) ); }
	else { auto p = fs.insert( std::move( k ) ); r.set( "pos", pos( fs, p.first ) ).set( "new", bool( p.second ) ); }
	return ok( r );
}
OP( "index" ) { string k = ks( c["k"] ); return kind == "fmap" ? ok( fm[k] ) : ok( im[k] ); }
OP( "assign" ) { string k = ks( c["k"] ); int v = c["v"].i; if ( kind == "fmap" ) fm[k] = v; else im[k] = v; return ok(); }
OP( "at" ) { return ok( fm.at( ks( c["k"] ) ) ); }
OP( "cat" ) { const auto& m = fm; return ok( m.at( ks( c["k"] ) ) ); }
OP( "cindex" ) { const auto& m = fm; const auto& i = im; string k = ks( c["k"] ); return kind == "fmap" ? ok( m[k] ) : ok( i[k] ); }
OP( "erase_key" ) { string k = ks( c["k"] ); return kind == "fmap" ? ok( fm.erase( k ) ) : ok( fs.erase( k ) ); }
OP( "erase_at" ) {
	int i = c["i"].i;
	if ( kind == "fmap" ) return ok( pos( fm, fm.erase( fm.begin() + i ) ) );
	if ( kind == "fset" ) return ok( pos( fs, fs.erase( fs.begin() + i ) ) );
	if ( kind == "svec" ) return ok( pos( sv, sv.erase( sv.begin() + i ) ) );
	return ok( pos( im, im.erase( im.begin() + i ) ) );
}
OP( "remove" ) { auto it = sv.remove( int( c["k"].i ) ); return ok( pos( sv, it ) ); }
OP( "find" ) {
	string k = ks( c["k"] ); int n = c["k"].i;
	if ( kind == "fmap" ) return both( fm, [&]( auto& m ) { return m.find( k ); } );
	if ( kind == "fset" ) return both( fs, [&]( auto& m ) { return m.find( k ); } );
	if ( kind == "svec" ) return both( sv, [&]( auto& m ) { return m.find( n ); } );
	return both( im, [&]( auto& m ) { return m.find( k ); } );
}
OP( "find_from" ) { string k = ks( c["k"] ); int i = c["i"].i; return both( im, [&]( auto& m ) { return m.find( k, m.begin() + i ); } ); }
OP( "lower" ) {
	string k = ks( c["k"] );
	if ( kind == "fmap" ) return both( fm, [&]( auto& m ) { return m.lower_bound( k ); } );
	return both( fs, [&]( auto& m ) { return m.lower_bound( k ); } );
}
OP( "upper" ) {
	string k = ks( c["k"] );
	if ( kind == "fmap" ) return both( fm, [&]( auto& m ) { return m.upper_bound( k ); } );
	return both( fs, [&]( auto& m ) { return m.upper_bound( k ); } );
}
OP( "count" ) { string k = ks( c["k"] ); return kind == "fmap" ? ok( fm.count( k ) ) : kind == "fset" ? ok( fs.count( k ) ) : ok( im.count( k ) ); }
OP( "contains" ) { string k = ks( c["k"] ); return kind == "fmap" ? ok( fm.contains( k ) ) : kind == "fset" ? ok( fs.contains( k ) ) : ok( im.contains( k ) ); }
OP( "push_back" ) {
	if ( c["v"].i % 2 ) im.push_back( { ks( c["k"] ), int( c["v"].i ) } );
	else im.emplace_back( ks( c["k"] ), int( c["v"].i ) );
	return ok();
}
OP( "get_or_add" ) { return ok( int( is.get_or_add( int( c["k"].i ) ) ) ); }
OP( "try_get" ) { auto o = is.try_get( int( c["k"].i ) ); return ok( o ? int( *o ) : -1 ); }
OP( "clear" ) {
	if ( kind == "fmap" ) fm.clear(); else if ( kind == "fset" ) fs.clear(); else if ( kind == "svec" ) sv.clear();
	else if ( kind == "imap" ) im.clear(); else is.clear();
	return ok();
}
template< typename T > void copy_( T& x ) { T y( x ); T z; z = y; y.clear(); x = z; }
template< typename T > void move_( T& x ) { T y( std::move( x ) ); T z; z = std::move( y ); x = std::move( z ); }
OP( "copy" ) {
	if ( kind == "fmap" ) copy_( fm ); else if ( kind == "fset" ) copy_( fs ); else if ( kind == "svec" ) copy_( sv );
	else if ( kind == "imap" ) copy_( im ); else copy_( is );
	return ok();
}
OP( "move" ) {
	if ( kind == "fmap" ) move_( fm ); else if ( kind == "fset" ) move_( fs ); else if ( kind == "svec" ) move_( sv );
	else if ( kind == "imap" ) move_( im ); else move_( is );
	return ok();
}
OP( "reserve" ) { if ( kind == "fmap" ) fm.reserve( 40 ); else if ( kind == "fset" ) fs.reserve( 40 ); else if ( kind == "svec" ) sv.reserve( 40 ); else im.reserve( 40 ); return ok(); }

template< typename C > void iter( C& c, J& o, bool rev ) {
	const C& cc = c; J it = J::arr(), cit = J::arr(), rv = J::arr(), e = J::arr();
	for ( auto& x : c ) it.push( ent( x ) );
	for ( auto i = cc.begin(); i != cc.end(); ++i ) cit.push( ent( *i ) );
	size_t k = 0; for ( auto i = cc.cbegin(); i != cc.cend(); ++i, ++k ) if ( ent( *i ).dump() != cit[k].dump() ) cit.push( "cbegin differs" );
	if ( !c.empty() ) { e.push( ent( c.front() ) ).push( ent( cc.back() ) ); }
	o.set( "size", c.size() ).set( "empty", c.empty() ).set( "it", it ).set( "cit", cit );
	if constexpr ( std::is_same_v<C, flat_map<string, int>> || std::is_same_v<C, flat_set<string>> ) {
		for ( auto i = c.rbegin(); i != c.rend(); ++i ) rv.push( ent( *i ) );
		size_t n = 0; for ( auto i = cc.crbegin(); i != cc.crend(); ++i, ++n ) if ( ent( *i ).dump() != rv[n].dump() ) rv.push( "crbegin differs" );
	}
	o.set( "rev", rv ).set( "ends", e );
}

template< typename C, typename E, size_t... I > C make_n( const std::vector<E>& l, std::index_sequence<I...> ) { return C{ l[I]... }; }
template< typename C, size_t N = 0, typename E > C make( const std::vector<E>& l ) {
	if ( l.size() == N ) return make_n<C>( l, std::make_index_sequence<N>() );
	if constexpr ( N < 12 ) return make<C, N + 1>( l );
	else { fprintf( stderr, "HARNESS: initial list too long\n" ); exit( 97 ); }
}

int main() {
	vf::on_reset() = []( const J& c ) {
		kind = c["kind"].s;
		std::vector<flat_map<string, int>::value_type> me; std::vector<string> se; std::vector<int> ie;
		for ( auto& e : c["l"].a ) { me.push_back( { ks( e[0] ), int( e[1].i ) } ); se.push_back( ks( e[0] ) ); ie.push_back( e[0].i ); }
		fm = make<flat_map<string, int>>( me ); fs = make<flat_set<string>>( se ); sv = make<sorted_vector<int>>( ie );
		im = make<indexed_map<string, int>>( me ); is.clear();
	};
	vf::on_obs() = [] {
		J o = J::obj();
		if ( kind == "fmap" ) iter( fm, o, true );
		else if ( kind == "fset" ) iter( fs, o, true );
		else if ( kind == "svec" ) { iter( sv, o, false ); }
		else if ( kind == "imap" ) {
			iter( im, o, false );
			const auto& ci = im;
			for ( size_t i = 0; i < im.size(); ++i ) if ( !( im[i] == *( im.begin() + i ) ) || !( ci[i] == im[i] ) ) o.set( "index_differs", i );
		}
		else {
			J it = J::arr(); for ( size_t i = 0; i < is.size(); ++i ) it.push( ent( is[i] ) );
			o.set( "size", is.size() ).set( "empty", is.size() == 0 ).set( "it", it ).set( "cit", it ).set( "rev", J::arr() ).set( "ends", J::arr() );
		}
		return o;
	};
	return vf::main_loop();
}
