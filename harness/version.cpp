#include "xo/xo_types.h"
#include "vf.h"
#include "xo/system/version.h"
#include "xo/string/string_cast.h"
#include "xo/container/prop_node.h"
using namespace xo;
using std::string;
static version V( const J& j ) { return version( j["a"], j["b"], j["c"], j["d"], j["p"].text() ); }
static J jv( const version& v ) { return J::obj().set( "a", v.major_ ).set( "b", v.minor_ ).set( "c", v.patch_ ).set( "d", v.build_ ).set( "p", codes( v.postfix_ ) ); }
OP( "text" ) {
	version v = V( c["v"] ), r( 9, 9, 9, 9, "old" );
	string t = to_str( v );
	if ( !from_str( t, r ) ) return fail();
	if ( !( r == v ) ) return ok( J( "not equal" ) );
	prop_node pn; pn.set( "version", v );
	if ( !( pn.get<version>( "version" ) == v ) ) return ok( J( "not equal in a property tree" ) );
	return ok( J::obj().set( "t", codes( t ) ).set( "r", jv( r ) ).set( "empty", v.empty() ) );
}
OP( "read" ) { version v( 9, 9, 9, 9, "old" ); if ( !from_str( c["s"].text(), v ) ) return fail(); return ok( jv( v ) ); }
OP( "cmp" ) {
	version a = V( c["v"] ), b = V( c["w"] );
	return ok( J::obj().set( "c", version_compare( a, b ) ).set( "lt", a < b ).set( "gt", a > b ).set( "le", a <= b ).set( "ge", a >= b ).set( "eq", a == b ).set( "ne", a != b ) );
}
OP( "atleast" ) {
	version a = V( c["v"] ), b = V( c["w"] );
	return ok( J::obj().set( "al", a.is_at_least( b.major_, b.minor_, b.patch_, b.build_ ) ).set( "be", a.is_below( b.major_, b.minor_, b.patch_, b.build_ ) ) );
}
int main() { return vf::main_loop(); }
