#include "xo/xo_types.h"
#include "vf.h"
#include "xo/container/prop_node.h"
#include "xo/container/prop_node_tools.h"
#include "xo/serialization/prop_node_serializer_zml.h"
#include "xo/serialization/serialize.h"
#include "xo/filesystem/filesystem.h"
#include "xo/system/error_code.h"
#include <sstream>
#include <unistd.h>
using namespace xo;
using std::string;

static prop_node lit( const J& x ) {
	prop_node n( x["v"].text() );
	for ( auto& k : x["c"].a ) n.add_child( k["k"].text(), lit( k["n"] ) );
	return n;
}
static size_t values( const prop_node& n ) {
	size_t c = n.has_value() ? 1 : 0;
	for ( size_t i = 0; i < n.size(); ++i ) c += values( n.at( i ).second );
	return c;
}
static J proj( const prop_node& n ) {
	J c = J::arr();
	for ( size_t i = 0; i < n.size(); ++i ) c.push( J::obj().set( "k", codes( n.at( i ).first ) ).set( "n", proj( n.at( i ).second ) ) );
	return J::obj().set( "v", codes( n.peek_str() ) ).set( "c", c );
}
// nothing of a freshly read tree counts as accessed
static J fresh( const prop_node& n ) {
	J j = proj( n );
	if ( n.count_unaccessed() != values( n ) ) j.set( "accessed", true );
	return j;
}
static string write( const prop_node& n, const string& w ) {
	std::ostringstream str;
	if ( w == "concise" ) str << prop_node_serializer_zml_concise( n );
	else if ( w == "factory" ) { auto s = make_serializer( "zml", n ); s->write_stream( str ); }
	else prop_node_serializer_zml( n ).write_stream( str );
	return str.str();
}
static string file_name() { return "zml_" + std::to_string( getpid() ) + ".zml"; }

OP( "write" ) { return ok( codes( write( lit( c["n"] ), c["w"].s ) ) ); }
// written text is read back
OP( "round" ) {
	prop_node n = lit( c["n"] ), r;
	const string& w = c["w"].s;
	if ( w == "file" || w == "save_file" ) {
		path f( file_name() );
		error_code ec;
		if ( w == "file" ) { save_zml( n, f, &ec ); if ( ec.good() ) r = load_zml( f, &ec ); }
		else { if ( !save_file( n, f ) ) return fail(); r = load_file( f ); }
		::unlink( f.c_str() );
		if ( ec.bad() ) return fail();
	}
	else {
		std::istringstream str( write( n, w ) );
		error_code ec;
		prop_node_serializer_zml s( r, &ec );
		str >> s;
		if ( ec.bad() ) return fail();
	}
	J j = fresh( r );
	if ( !( r == n ) ) j.set( "equal", false );
	return ok( j );
}
// text is read in every way there is; they all agree
OP( "parse" ) {
	string s = c["s"].text();
	struct res { bool ok; prop_node n; bool escaped; };
	std::vector<res> rs;
	auto with = [&]( auto f ) {
		error_code ec; res r{ true, prop_node(), false };
		try { r.n = f( &ec ); r.ok = ec.good(); } catch ( std::exception& ) { r.ok = false; r.escaped = true; }
		rs.push_back( r );
	};
	auto without = [&]( auto f ) {
		res r{ true, prop_node(), false };
		try { r.n = f( nullptr ); } catch ( std::exception& ) { r.ok = false; }
		rs.push_back( r );
	};
	if ( s.find( '\0' ) == string::npos ) {
		auto f = [&]( error_code* e ) { return parse_zml( s.c_str(), e ); };
		with( f ); without( f );
	}
	auto g = [&]( error_code* e ) { prop_node n; std::istringstream str( s ); prop_node_serializer_zml z( n, e ); z.read_stream( str ); return n; };
	with( g ); without( g );
	for ( auto& r : rs ) {
		if ( r.escaped ) return J::obj().set( "ok", false ).set( "escaped", true );
		if ( r.ok != rs[0].ok || ( r.ok && !( r.n == rs[0].n ) ) ) return J::obj().set( "ok", false ).set( "disagree", true );
	}
	if ( !rs[0].ok ) return fail();
	return ok( fresh( rs[0].n ) );
}

int main() { return vf::main_loop(); }
