#include "vf.h"
#include "xo/system/settings.h"
#include "xo/system/log.h"
#include "xo/geometry/vec3.h"
#include "xo/utility/color.h"
#include <cmath>
#include <filesystem>
#include <fstream>
#include <memory>
#include <unistd.h>
namespace fs = std::filesystem;
using namespace xo;
using std::string;
static string root;
static J schema;
static std::unique_ptr<settings> s;

static prop_node node( const J& v ) {
	if ( v["a"].a.empty() ) return prop_node( v["s"].s );
	prop_node p; for ( auto& x : v["a"].a ) p.add_child( "", prop_node( x.s ) );
	return p;
}
static path file( const string& f ) {
	if ( f.empty() ) return path();
	if ( f == "bad" ) return path( root + "/plain/x.zml" ); // its folder is a file
	return path( root + "/cfg/sub/" + f + ".zml" );
}
static string name( const path& p ) { return p == file( "bad" ) ? "bad" : p.stem().str(); }
static long cents( double v ) { return std::lround( v * 100 ); }
static prop_node make_schema() {
	prop_node p;
	for ( auto& z : schema.a ) {
		prop_node n;
		n.add_child( "label", prop_node( "a setting" ) );
		if ( !z["ty"].s.empty() ) n.add_child( "type", prop_node( z["ty"].s ) );
		n.add_child( "default", node( z["def"] ) );
		if ( z["allowed"].size() ) { prop_node a; for ( auto& x : z["allowed"].a ) a.add_child( "", node( x ) ); n.add_child( "allowed", a ); }
		if ( !z["lo"]["s"].s.empty() ) n.add_child( "range", prop_node( z["lo"]["s"].s + ".." + z["hi"]["s"].s ) );
		p.set_query( z["id"].s, n );
	}
	return p;
}
static J show( const string& id ) {
	string ty;
	for ( auto& z : schema.a ) if ( z["id"].s == id ) ty = z["ty"].s;
	J x = J::arr();
	if ( ty == "int" ) x.push( s->get<int>( id ) );
	else if ( ty == "float" ) x.push( cents( s->get<double>( id ) ) );
	else if ( ty == "bool" ) x.push( int( s->get<bool>( id ) ) );
	else if ( ty == "vec3" ) { auto v = s->get<vec3d>( id ); x.push( cents( v.x ) ).push( cents( v.y ) ).push( cents( v.z ) ); }
	else if ( ty == "color" ) { auto c = s->get<color>( id ); for ( float e : { c.r, c.g, c.b, c.a } ) x.push( long( std::lround( e * 255 ) ) ); }
	return J::obj().set( "s", s->get<string>( id ) ).set( "x", x );
}
static void entry( std::ostream& o, const string& id, const J& v ) {
	auto p = id.find( '.' );
	if ( p != string::npos ) { o << id.substr( 0, p ) << " { "; entry( o, id.substr( p + 1 ), v ); o << "}\n"; return; }
	o << id << " = ";
	if ( v["a"].a.empty() ) o << '"' << v["s"].s << '"';
	else { o << "[ "; for ( auto& x : v["a"].a ) o << x.s << ' '; o << "]"; }
	o << "\n";
}
OP( "open" ) {
	auto n = std::make_unique<settings>( make_schema(), file( c["f"].s ), c["ver"].s.empty() ? version() : version( 1, 2, 3 ) );
	s = std::move( n );
	return ok();
}
OP( "put_file" ) {
	fs::create_directories( root + "/cfg/sub" );
	std::ofstream o( file( c["f"].s ).str() );
	if ( c["broken"].b() ) o << "a = 3\ng = { c = 4\n";
	if ( !c["ver"].s.empty() ) o << "version = \"" << c["ver"].s << "\"\n";
	for ( auto& e : c["es"].a ) entry( o, e["id"].s, e["v"] );
	return ok();
}
OP( "rm_file" ) { fs::remove( file( c["f"].s ).str() ); return ok(); }
OP( "set" ) {
	if ( !s ) return fail();
	auto& v = c["v"];
	string id = c["id"].s;
	// through the type the value is of, as far as it can be
	if ( !v["a"].a.empty() ) return ok( s->set( id, vec3d( v["x"].a[ 0 ].num() / 100.0, v["x"].a[ 1 ].num() / 100.0, v["x"].a[ 2 ].num() / 100.0 ) ) );
	char* e; long n = strtol( v["s"].s.c_str(), &e, 10 );
	if ( !*e && !v["s"].s.empty() && std::to_string( n ) == v["s"].s && n > 1 ) return ok( n % 2 ? s->set( id, int( n ) ) : s->set( id, n ) );
	if ( v["s"].s == "1" || v["s"].s == "0" ) return ok( s->set( id, v["s"].s == "1" ) );
	if ( v["s"].s == "1.25" ) return ok( s->set( id, 1.25 ) );
	return ok( s->set( id, v["s"].s ) );
}
OP( "get" ) { if ( !s ) return fail(); s->get<string>( c["id"].s ); return ok( show( c["id"].s ) ); }
OP( "save" ) { if ( !s ) return fail(); s->save( file( c["f"].s ) ); return ok(); }
OP( "save_full" ) {
	if ( !s ) return fail();
	auto f = file( "full" ).str();
	fs::create_directories( root + "/cfg/sub" );
	fs::remove( f );
	if ( symlink( "/dev/full", f.c_str() ) ) exit( 97 );
	bool thrown = false;
	try { s->save( path( f ) ); } catch ( std::exception& ) { thrown = true; }
	unlink( f.c_str() );
	return thrown ? fail() : ok();
}
OP( "load" ) { if ( !s ) return fail(); s->load( file( c["f"].s ) ); return ok(); }
OP( "reset_all" ) { if ( !s ) return fail(); s->reset(); return ok(); }
int main() {
	char n[] = "/dev/shm/vfsetXXXXXX"; // many small files
	if ( !mkdtemp( n ) ) return 97;
	root = n;
	std::ifstream f( getenv( "VF_SCHEMA" ) ? getenv( "VF_SCHEMA" ) : "" );
	string line;
	if ( !std::getline( f, line ) ) return 97;
	schema = vf::parse( line );
	vf::on_reset() = []( const J& c ) {
		s.reset();
		fs::remove_all( root + "/cfg" );
		std::ofstream( root + "/plain" ) << "text";
	};
	vf::on_obs() = [] {
		if ( !s ) return J::obj().set( "live", false );
		J v = J::arr();
		for ( auto& z : schema.a ) v.push( show( z["id"].s ) );
		auto ver = []( const version& v ) { return v.empty() ? string() : to_str( v ); };
		return J::obj().set( "live", true ).set( "vals", v ).set( "cur", name( s->data_file() ) ).set( "ver", ver( s->current_version() ) ).set( "dver", ver( s->data_version() ) );
	};
	int r = vf::main_loop();
	std::error_code e;
	fs::remove_all( root, e );
	return r;
}
