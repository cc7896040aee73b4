#include "xo/xo_types.h"
#include "vf.h"
#include "xo/filesystem/path.h"
#include "xo/string/string_cast.h"
using namespace xo;
using std::string;
static J pc( const path& p ) { return codes( p.str() ); }
static J bad( const char* why ) { return ok( J( why ) ); }
#define S path( c["s"].text() )
#define X path( c["x"].text() )

OP( "parts" ) {
	const path p = S;
	path m = p, r = p, n = p;
	m.make_preferred(); r.remove_filename(); n.replace_extension();
	if ( p.is_absolute() == p.is_relative() ) return bad( "absolute and relative" );
	path q; q = p.str(); path t; t = p.c_str();
	path u; if ( !from_str( to_str( p ), u ) ) return bad( "from_str" );
	if ( !( q == p ) || !( t == p ) || !( u == p ) || string( p.c_str() ) != p.str() ) return bad( "copies" );
	return ok( J::obj().set( "parent", pc( p.parent_path() ) ).set( "file", pc( p.filename() ) ).set( "ext", pc( p.extension() ) ).set( "extnd", pc( p.extension_no_dot() ) )
		.set( "stem", pc( p.stem() ) ).set( "hasf", p.has_filename() ).set( "hasp", p.has_parent_path() ).set( "abs", p.is_absolute() ).set( "empty", p.empty() )
		.set( "pref", pc( m ) ).set( "rm", pc( r ) ).set( "noext", pc( n ) ) );
}
OP( "join" ) {
	path a = S, b = S, d = S, e = S;
	a /= X; b /= X.str(); d += X; e += X.str();
	path j = S / X, k = S + X;
	if ( a != j || b != j || d != k || e != k ) return bad( "variants differ" );
	return ok( J::obj().set( "j", pc( j ) ).set( "a", pc( k ) ) );
}
OP( "rext" ) { path p = S; return ok( pc( p.replace_extension( X ) ) ); }
OP( "rfile" ) { path p = S; return ok( pc( p.replace_filename( X ) ) ); }
OP( "rstem" ) { path p = S; return ok( pc( p.replace_stem( X ) ) ); }
OP( "cstem" ) { path p = S; return ok( pc( p.concat_stem( X.str() ) ) ); }
OP( "cmp" ) {
	if ( ( S == X ) == ( S != X ) ) return bad( "equal and not equal" );
	return ok( J::obj().set( "eq", S == X ).set( "lt", S < X ) );
}
int main() { return vf::main_loop(); }
