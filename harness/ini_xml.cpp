#include "xo/xo_types.h"
#include "vf.h"
#include "xo/container/prop_node.h"
#include "xo/serialization/prop_node_serializer_ini.h"
#include "xo/serialization/prop_node_serializer_xml.h"
#include "xo/serialization/serialize.h"
#include "xo/system/error_code.h"
#include <fstream>
#include <memory>
#include <sstream>
#include <unistd.h>
using namespace xo;
using std::string;

static prop_node lit( const J& x ) {
	prop_node n( x["v"].text() );
	for ( auto& k : x["c"].a ) n.add_child( k["k"].text(), lit( k["n"] ) );
	return n;
}
static J proj( const prop_node& n ) {
	J c = J::arr();
	for ( size_t i = 0; i < n.size(); ++i ) c.push( J::obj().set( "k", codes( n.at( i ).first ) ).set( "n", proj( n.at( i ).second ) ) );
	return J::obj().set( "v", codes( n.peek_str() ) ).set( "c", c );
}
static std::unique_ptr< prop_node_serializer > direct( const string& f ) {
	if ( f == "ini" ) return std::make_unique< prop_node_serializer_ini >();
	return std::make_unique< prop_node_serializer_xml >();
}
static string write( const prop_node& n, const string& f, bool made ) {
	std::ostringstream str;
	if ( made ) str << *make_serializer( f, n );
	else { auto s = direct( f ); s->write_pn_ = &n; s->write_stream( str ); }
	return str.str();
}
static string tmp( const string& ext ) { return "ix_" + std::to_string( getpid() ) + "." + ext; }

OP( "write" ) {
	auto n = lit( c["n"] );
	auto t = write( n, c["f"].s, false );
	if ( t != write( n, c["f"].s, true ) ) return J::obj().set( "ok", false ).set( "differs", true );
	return ok( codes( t ) );
}
OP( "round" ) {
	prop_node n = lit( c["n"] ), r;
	auto& f = c["f"].s;
	if ( c["w"].s == "file" ) {
		path p( tmp( f ) ), p2( tmp( "txt" ) );
		error_code ec, ec2, ec3;
		bool a = save_file( n, p, &ec ), b = save_file( n, p2, f, &ec );
		if ( a && b ) r = load_file( p, &ec2 );
		prop_node r2;
		if ( a && b ) r2 = load_file( p2, f, &ec3 );
		::unlink( p.c_str() ); ::unlink( p2.c_str() );
		if ( !a || !b || ec.bad() || ec2.bad() || ec3.bad() ) return fail();
		if ( !( r == r2 ) ) return J::obj().set( "ok", false ).set( "differs", true );
	}
	else {
		std::istringstream str( write( n, f, true ) );
		error_code ec;
		auto s = make_serializer( f, r, &ec );
		str >> *s;
		if ( ec.bad() ) return fail();
	}
	return ok( proj( r ) );
}
// text is read in every way there is; they all agree
OP( "parse" ) {
	string s = c["s"].text(), f = c["f"].s;
	path p( tmp( f ) );
	std::ofstream( p.str(), std::ios::binary ) << s;
	struct res { bool ok; prop_node n; bool escaped; };
	std::vector<res> rs;
	auto with = [&]( auto g ) {
		error_code ec; res r{ true, prop_node(), false };
		try { r.n = g( &ec ); r.ok = ec.good(); } catch ( std::exception& ) { r.ok = false; r.escaped = true; }
		rs.push_back( r );
		res q{ true, prop_node(), false };
		try { q.n = g( nullptr ); } catch ( std::exception& ) { q.ok = false; }
		rs.push_back( q );
	};
	with( [&]( error_code* e ) { prop_node n; std::istringstream str( s ); auto z = direct( f ); z->read_pn_ = &n; z->ec_ = e; z->read_stream( str ); return n; } );
	with( [&]( error_code* e ) { prop_node n; std::istringstream str( s ); auto z = make_serializer( f, n, e ); str >> *z; return n; } );
	with( [&]( error_code* e ) { return load_file( p, e ); } );
	with( [&]( error_code* e ) { return load_file( p, f, e ); } );
	::unlink( p.c_str() );
	for ( auto& r : rs ) {
		if ( r.escaped ) return J::obj().set( "ok", false ).set( "escaped", true );
		if ( r.ok != rs[0].ok || ( r.ok && !( r.n == rs[0].n ) ) ) return J::obj().set( "ok", false ).set( "disagree", true );
	}
	if ( !rs[0].ok ) return fail();
	return ok( proj( rs[0].n ) );
}
int main() { return vf::main_loop(); }
