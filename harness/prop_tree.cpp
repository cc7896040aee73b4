#include "vf.h"
#include "xo/container/prop_node.h"
#include "xo/container/prop_node_tools.h"
#include "xo/system/log.h"
#include "xo/system/log_sink.h"
#include "xo/string/string_tools.h"
#include <algorithm>
#include <initializer_list>
#include <sstream>
using namespace xo;
using std::string;

static prop_node root;
static const int NONE = -999999;

struct bad_path : std::runtime_error { bad_path() : std::runtime_error( "path" ) {} };
// navigation that neither marks nor changes anything
static prop_node* at( prop_node& n, const J& t ) {
	prop_node* p = &n;
	for ( auto& e : t.a ) { if ( e.i < 1 || size_t( e.i ) > p->size() ) return nullptr; p = &p->at( e.i - 1 ).second; }
	return p;
}
static prop_node& target( const J& c ) { auto* p = at( root, c["t"] ); if ( !p ) throw bad_path(); return *p; }
static bool find_ptr( const prop_node& n, const prop_node* x, std::vector<int>& p ) {
	if ( &n == x ) return true;
	for ( size_t i = 0; i < n.size(); ++i ) { p.push_back( int( i + 1 ) ); if ( find_ptr( n.at( i ).second, x, p ) ) return true; p.pop_back(); }
	return false;
}
static J path_of( const prop_node& n, const prop_node* x ) {
	std::vector<int> p;
	if ( !x || !find_ptr( n, x, p ) ) return J::arr().push( 0 );
	J j = J::arr(); for ( int i : p ) j.push( i ); return j;
}
static prop_node lit( const J& x ) {
	prop_node n( x["v"].s );
	for ( auto& k : x["c"].a ) n.add_child( k["k"].s, lit( k["n"] ) );
	return n;
}
static J proj( const prop_node& n ) {
	J c = J::arr();
	for ( size_t i = 0; i < n.size(); ++i ) c.push( J::obj().set( "k", n.at( i ).first ).set( "n", proj( n.at( i ).second ) ) );
	return J::obj().set( "v", n.peek_str() ).set( "a", n.is_accessed() ).set( "c", c );
}
static string query( const J& c ) {
	string q; bool f = true;
	for ( auto& e : c["q"].a ) { if ( !f ) q += c["d"].s; f = false; q += e.s; }
	return q;
}
static char delim( const J& c ) { return c["d"].s[0]; }
static int idx_in( const prop_node& n, const prop_node::pair_t& e ) { for ( size_t i = 0; i < n.size(); ++i ) if ( &n.at( i ) == &e ) return int( i + 1 ); return 0; }
#define T auto& n = target( c ); const auto& cn = n; (void)cn; (void)n
#define K c["k"].s
#define V c["v"].s

OP( "set_key" ) { T; n.set( K, V ); return ok(); }
OP( "assign_key" ) { T; n[K] = V; return ok(); }
OP( "set" ) { T; n = V; return ok(); }
OP( "set_value" ) { T; n.set_value( string( V ) ); return ok(); }
OP( "set_tree" ) { T; const prop_node x = lit( c["x"] ); n = x; return ok(); }
OP( "set_tree_rv" ) { T; n.set( lit( c["x"] ) ); return ok(); }
OP( "set_ints" ) { T; std::vector<int> v; for ( auto& e : c["xs"].a ) v.push_back( atoi( e.s.c_str() ) ); n = v; return ok(); }
OP( "add_child" ) { T; if ( K.empty() ) n.add_child(); else n.add_child( K ); return ok(); }
OP( "add_tree" ) { T; const prop_node x = lit( c["x"] ); n.add_child( K, x ); return ok(); }
OP( "add_tree_rv" ) { T; n.add_child( K, lit( c["x"] ) ); return ok(); }
OP( "add_kv" ) { T; n.add_key_value( K, V ); return ok(); }
OP( "add_value" ) { T; n.add_value( V ); return ok(); }
OP( "add_children" ) { T; n.add_children( c["n"].i, K, V ); return ok(); }
OP( "append" ) { T; const prop_node x = lit( c["x"] ); auto it = n.append( x ); return ok( int( n.size() ) - int( n.end() - it ) ); }
OP( "append_rv" ) { T; auto it = n.append( lit( c["x"] ) ); return ok( int( n.size() ) - int( n.end() - it ) ); }
OP( "insert" ) { T; const prop_node x = lit( c["x"] ); auto p = n.begin() + std::min<size_t>( c["i"].i, n.size() ); auto it = n.insert( p, x.begin(), x.end() ); return ok( int( n.size() ) - int( n.end() - it ) ); }
OP( "merge" ) { T; const prop_node x = lit( c["x"] ); if ( c["ow"].b() ) n.merge( x, true ); else n.merge( x ); return ok(); }
OP( "erase_key" ) { T; return ok( n.erase( K ) ); }
OP( "erase_at" ) { T; if ( c["i"].i < 1 || size_t( c["i"].i ) > n.size() ) return fail(); auto it = n.erase( n.begin() + ( c["i"].i - 1 ) ); return ok( int( it - n.begin() ) + 1 ); }
OP( "erase_query" ) { T; return ok( n.erase_query( query( c ), delim( c ) ) ); }
OP( "pop_back" ) { T; if ( n.size() == 0 ) return fail(); n.pop_back(); return ok(); }
OP( "clear" ) { T; n.clear(); return ok(); }
OP( "get_or_add_child" ) { T; auto& r = n.get_or_add_child( K ); return ok( path_of( n, &r ) ); }
OP( "get_or_add_query" ) { T; auto& r = n.get_or_add_query( query( c ), delim( c ) ); return ok( path_of( n, &r ) ); }
OP( "set_query" ) { T; auto& r = n.set_query( query( c ), V, delim( c ) ); return ok( path_of( n, &r ) ); }
OP( "try_get_child" ) { T; return ok( path_of( n, n.try_get_child( K ) ) ); }
OP( "ctry_get_child" ) { T; return ok( path_of( n, cn.try_get_child( K ) ) ); }
OP( "get_child" ) { T; return ok( path_of( n, &n.get_child( K ) ) ); }
OP( "cget_child" ) { T; auto& a = cn.get_child( K ); auto& b = cn[K]; return &a == &b ? ok( path_of( n, &a ) ) : fail(); }
OP( "get_child_at" ) { T; index_t i = c["i"].i - 1; auto& a = n.get_child( i ); auto& b = n[i]; return &a == &b ? ok( path_of( n, &a ) ) : fail(); }
OP( "cget_child_at" ) { T; index_t i = c["i"].i - 1; auto& a = cn.get_child( i ); auto& b = cn[i]; return &a == &b ? ok( path_of( n, &a ) ) : fail(); }
// initializer_list of up to three keys
template< typename F > auto with_keys( const J& c, F f ) {
	auto& k = c["ks"].a;
	switch ( k.size() ) {
	case 0: return f( std::initializer_list<string>{} );
	case 1: return f( std::initializer_list<string>{ k[0].s } );
	case 2: return f( std::initializer_list<string>{ k[0].s, k[1].s } );
	default: return f( std::initializer_list<string>{ k[0].s, k[1].s, k[2].s } );
	}
}
OP( "try_get_any_child" ) { T; return with_keys( c, [&]( std::initializer_list<string> l ) { return ok( path_of( n, cn.try_get_any_child( l ) ) ); } ); }
OP( "get_any_child" ) { T; return with_keys( c, [&]( std::initializer_list<string> l ) { return ok( path_of( n, &cn.get_any_child( l ) ) ); } ); }
OP( "try_get_query" ) { T; return ok( path_of( n, n.try_get_query( query( c ), delim( c ) ) ) ); }
OP( "ctry_get_query" ) { T; return ok( path_of( n, cn.try_get_query( query( c ), delim( c ) ) ) ); }
OP( "find_rec" ) { T; return ok( path_of( n, cn.try_find_child_recursively( K ) ) ); }
static prop_node stranger( "x" );
static prop_node* node_or_stranger( prop_node& n, const J& p ) { auto* x = at( n, p ); return x ? x : &stranger; }
template< typename P > J parent_ret( const prop_node& n, const P& r ) {
	return ok( J::obj().set( "p", r.first ? path_of( n, r.first ) : J::arr().push( 0 ) ).set( "i", r.second == no_index ? -1 : int( r.second ) ) );
}
OP( "find_parent" ) { T; return parent_ret( n, n.try_find_parent( *node_or_stranger( n, c["p"] ) ) ); }
OP( "cfind_parent" ) { T; return parent_ret( n, cn.try_find_parent( *node_or_stranger( n, c["p"] ) ) ); }
OP( "info" ) {
	T; return ok( J::obj().set( "size", n.size() ).set( "layers", n.count_layers() ).set( "kids", n.count_children() ).set( "empty", n.empty() )
		.set( "has_value", n.has_value() ).set( "peek", n.peek_str() ).set( "unacc", n.count_unaccessed() ).set( "acc", n.is_accessed() ) );
}
OP( "key_info" ) { T; return ok( J::obj().set( "has", n.has_key( K ) ).set( "has_value", n.has_value( K ) ).set( "count", n.count_key( K ) ) ); }
OP( "has_any_key" ) { T; return with_keys( c, [&]( std::initializer_list<string> l ) { return ok( n.has_any_key( l ) ); } ); }
OP( "eq" ) { T; prop_node x = lit( c["x"] ); prop_node y = n; return ok( J::obj().set( "eq", n == x && x == n ).set( "ne", n != x ).set( "self", n == y && !( n != y ) ) ); }
OP( "is_array" ) { T; return ok( n.is_array() ); }
OP( "get_key" ) { T; return ok( n.get_key( c["i"].i - 1 ) ); }
OP( "get_str" ) { T; return ok( n.get_str() ); }
OP( "get_str_key" ) { T; return ok( n.get_str( K ) ); }
OP( "get_int" ) { T; return ok( n.get<int>() ); }
template< typename O > J opt( const O& o ) { return ok( o ? int( *o ) : NONE ); }
OP( "try_get_int" ) { T; return opt( n.try_get<int>() ); }
OP( "get_int_key" ) { T; return ok( n.get<int>( K ) ); }
OP( "get_int_at" ) { T; return ok( n.get<int>( index_t( c["i"].i - 1 ) ) ); }
OP( "get_int_def" ) { T; return ok( n.get<int>( K, int( c["d"].i ) ) ); }
OP( "try_get_int_key" ) { T; return opt( n.try_get<int>( K ) ); }
OP( "try_get_into" ) { T; int v = NONE; bool b = n.try_get( v, K ); if ( b != ( v != NONE ) ) return fail(); return ok( v ); }
OP( "get_any" ) { T; return with_keys( c, [&]( std::initializer_list<string> l ) { return ok( n.get_any<int>( l ) ); } ); }
OP( "get_any_def" ) { T; return with_keys( c, [&]( std::initializer_list<string> l ) { return ok( n.get_any<int>( l, int( c["d"].i ) ) ); } ); }
OP( "try_get_any" ) { T; return with_keys( c, [&]( std::initializer_list<string> l ) { return opt( n.try_get_any<int>( l ) ); } ); }
OP( "get_all" ) { T; return ok( J( n.get_all<int>( K ) ) ); }
OP( "get_ints" ) { T; return ok( J( n.get<std::vector<int>>() ) ); }
OP( "iterate" ) { T; J r = J::arr(); for ( auto& e : n ) r.push( e.first ); return ok( r ); }
OP( "citerate" ) { T; J r = J::arr(); for ( auto it = cn.cbegin(); it != cn.cend(); ++it ) r.push( it->first ); return ok( r ); }
OP( "riterate" ) { T; J r = J::arr(); for ( auto it = n.rbegin(); it != n.rend(); ++it ) r.push( it->first ); return ok( r ); }
OP( "criterate" ) { T; J r = J::arr(); for ( auto it = cn.rbegin(); it != cn.rend(); ++it ) r.push( it->first ); return ok( r ); }
OP( "select" ) { T; J r = J::arr(); for ( auto& e : n.select( K ) ) r.push( idx_in( n, e ) ); return ok( r ); }
OP( "select_pattern" ) { T; J r = J::arr(); for ( auto& e : n.select_pattern( c["pat"].s ) ) r.push( idx_in( n, e ) ); return ok( r ); }
OP( "ends" ) { T; if ( n.size() == 0 ) return fail(); if ( &n.front() != &cn.front() || &n.back() != &cn.back() ) return fail(); return ok( J::arr().push( n.front().first ).push( n.back().first ) ); }
OP( "access" ) { T; n.access( c["b"].b() ); return ok(); }
OP( "set_accessed_rec" ) { T; n.set_accessed_recursively( c["b"].b() ); return ok(); }
static J lines( const string& s ) { J r = J::arr(); std::istringstream is( s ); string l; while ( std::getline( is, l ) ) r.push( l ); return r; }
OP( "unaccessed" ) { T; return ok( lines( to_str_unaccessed( n ) ) ); }
struct cap_sink : log::sink {
	std::vector<string> got;
	cap_sink() : log::sink( log::level::trace, {} ) {}
	void hande_log_message( log::level, const string& m ) override { got.push_back( m ); }
};
OP( "log_unaccessed" ) { T; cap_sink s; log_unaccessed( n, log::level::info ); return ok( J( s.got ) ); }
OP( "find_query_to" ) { T; auto r = find_query_to_node( &n, node_or_stranger( n, c["p"] ) ); return ok( J::obj().set( "found", r.first ).set( "q", r.second ) ); }
OP( "make_query" ) { T; auto* x = at( n, c["p"] ); if ( !x ) return fail(); return ok( make_prop_node_query( n, *x ) ); }
OP( "copy" ) { // a copy is independent of the original
	T; prop_node x( n ); prop_node y; y = x; n = y;
	x.set_value( string( "changed" ) ); x.add_child( "zz" ); x.set_accessed_recursively( true ); if ( y.size() ) y[index_t( 0 )].set_value( string( "changed" ) ); y.clear();
	return ok();
}
OP( "move" ) { T; prop_node x( std::move( n ) ); prop_node y; y = std::move( x ); n = std::move( y ); return ok(); }

int main() {
	vf::on_reset() = []( const J& ) { root = prop_node(); };
	vf::on_obs() = [] { return proj( root ); };
	return vf::main_loop();
}
