#include "xo/xo_types.h"
#include "vf.h"
#include "xo/container/prop_node.h"
#include "xo/serialization/prop_node_serializer_zml.h"
#include "xo/serialization/serialize.h"
#include "xo/system/error_code.h"
#include <algorithm>
#include <filesystem>
#include <fstream>
#include <unistd.h>
namespace fs = std::filesystem;
using namespace xo;
using std::string;
static string root;

static J proj( const prop_node& n ) {
	J c = J::arr();
	for ( size_t i = 0; i < n.size(); ++i ) c.push( J::obj().set( "k", codes( n.at( i ).first ) ).set( "n", proj( n.at( i ).second ) ) );
	return J::obj().set( "v", codes( n.peek_str() ) ).set( "c", c );
}
static size_t values( const prop_node& n ) {
	size_t c = n.has_value() ? 1 : 0;
	for ( size_t i = 0; i < n.size(); ++i ) c += values( n.at( i ).second );
	return c;
}
// nothing of a freshly read tree counts as accessed
static J fresh( const prop_node& n ) {
	J j = proj( n );
	if ( n.count_unaccessed() != values( n ) ) j.set( "accessed", true );
	return j;
}
static string rooted( string s ) {
	for ( string b : { "<< ", "<< \"" } )
		for ( size_t p = 0; ( p = s.find( b + "/", p ) ) != string::npos; p += 4 ) s.replace( p, b.size() + 1, b + root + "/" );
	return s;
}
struct res { bool ok; prop_node n; bool escaped; };
template< typename F > void both( std::vector<res>& rs, F g ) {
	error_code ec; res r{ true, prop_node(), false };
	try { r.n = g( &ec ); r.ok = ec.good(); } catch ( std::exception& ) { r.ok = false; r.escaped = true; }
	rs.push_back( r );
	res q{ true, prop_node(), false };
	try { q.n = g( nullptr ); } catch ( std::exception& ) { q.ok = false; }
	rs.push_back( q );
}
static J agreed( const std::vector<res>& rs ) {
	for ( auto& r : rs ) {
		if ( r.escaped ) return J::obj().set( "ok", false ).set( "escaped", true );
		if ( r.ok != rs[0].ok || ( r.ok && !( r.n == rs[0].n ) ) ) return J::obj().set( "ok", false ).set( "disagree", true );
	}
	if ( !rs[0].ok ) return fail();
	return ok( fresh( rs[0].n ) );
}
OP( "zml" ) {
	path f( c["f"].text() ), g( root + "/" + c["f"].text() );
	std::vector<res> rs;
	both( rs, [&]( error_code* e ) { return load_zml( f, e ); } );
	both( rs, [&]( error_code* e ) { return load_zml( g, e ); } );
	both( rs, [&]( error_code* e ) { return load_file( f, "zml", e ); } );
	both( rs, [&]( error_code* e ) { return load_file( g, "zml", e ); } );
	if ( f.extension_no_dot().str() == "zml" ) both( rs, [&]( error_code* e ) { return load_file( f, e ); } );
	return agreed( rs );
}
OP( "text" ) {
	string s = rooted( c["s"].text() );
	std::vector<res> rs;
	both( rs, [&]( error_code* e ) { return parse_zml( s.c_str(), e ); } );
	return agreed( rs );
}
// how often each file was included
static J counts( const std::vector<path>& v, const J& names ) {
	J r = J::arr(); size_t total = 0;
	for ( auto& x : names.a ) {
		auto full = fs::path( root + "/" + x.text() ).lexically_normal();
		auto n = std::count_if( v.begin(), v.end(), [&]( auto& p ) { return fs::absolute( p.str() ).lexically_normal() == full; } );
		total += n; r.push( long( n ) );
	}
	if ( total != v.size() ) r.push( "others" );
	return r;
}
OP( "included" ) {
	path f( c["f"].text() );
	std::vector<path> v;
	error_code e;
	load_zml( f, &e, path(), &v );
	prop_node_serializer_zml s;
	error_code e2;
	s.load_file( f, &e2 );
	if ( e.good() != e2.good() ) return J::obj().set( "ok", false ).set( "disagree", true );
	if ( e.bad() ) return fail();
	auto a = counts( v, c["fs"] );
	string x, y; a.print( x ); counts( s.included_files_, c["fs"] ).print( y );
	return x == y ? ok( a ) : J::obj().set( "ok", false ).set( "disagree", true );
}
// with nodes that name a file; such files need the extension zml
OP( "inc" ) {
	string d = c["d"].text();
	path f( c["f"].text() ), g( root + "/" + c["f"].text() );
	std::vector<res> rs;
	for ( auto& p : { f, g } ) {
		res q{ true, prop_node(), false };
		try { q.n = d == "INCLUDE" ? load_file_with_include( p ) : load_file_with_include( p, d ); } catch ( std::exception& ) { q.ok = false; }
		rs.push_back( q );
	}
	return agreed( rs );
}
int main() {
	char n[] = "/dev/shm/vfincXXXXXX";
	if ( !mkdtemp( n ) ) return 97;
	root = string( n ) + "/base";
	vf::on_reset() = []( const J& c ) {
		fs::remove_all( root );
		fs::create_directories( root + "/d/d/d/d" );
		fs::create_directories( root + "/folder.zml" );
		if ( chdir( root.c_str() ) ) exit( 97 );
		for ( auto& f : c["files"].a ) std::ofstream( root + "/" + f["f"].text(), std::ios::binary ) << rooted( f["s"].text() );
	};
	int r = vf::main_loop();
	std::error_code e;
	fs::current_path( "/", e );
	fs::remove_all( n, e );
	return r;
}
