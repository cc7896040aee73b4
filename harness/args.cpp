#include "xo/xo_types.h"
#include "vf.h"
#include "xo/system/assert.h"
#include "xo/utility/arg_parser.h"
#include "xo/container/prop_node.h"
#include "xo/container/prop_node_tools.h"
using namespace xo;
using std::string;
struct Line {
	std::vector<string> w; std::vector<const char*> p;
	Line( const J& a ) { w.push_back( "p" ); for ( auto& e : a.a ) w.push_back( e.text() ); for ( auto& s : w ) p.push_back( s.c_str() ); }
	int argc() { return int( p.size() ); }
	const char** argv() { return p.data(); }
};
OP( "opt" ) {
	Line l( c["a"] ); arg_parser a( l.argc(), l.argv() ); string f = c["f"].text();
	auto i = a.find_flag( f );
	return ok( J::obj().set( "i", i == no_index ? -1 : int( i ) ).set( "has", a.has_flag( f ) ).set( "s", codes( a.get<string>( f, "d" ) ) ).set( "n", a.get<int>( f, 77 ) ) );
}
OP( "pos" ) {
	Line l( c["a"] ); arg_parser a( l.argc(), l.argv() ); index_t n = int( c["n"] );
	return ok( J::obj().set( "s", codes( a.get<string>( n, "d" ) ) ).set( "size", int( a.size() ) ).set( "n", a.get<int>( n, 77 ) ) );
}
OP( "words" ) { Line l( c["a"] ); arg_parser a( l.argc(), l.argv() ); J j = J::arr(); for ( index_t i = 0; i < a.size(); ++i ) j.push( codes( a.arg( i ) ) ); return ok( j ); }
OP( "tree" ) {
	Line l( c["a"] );
	prop_node pn = prop_node_from_arg( l.argc(), l.argv() );
	J k = J::arr();
	for ( auto& e : pn ) {
		if ( e.second.size() ) return ok( J( "grandchildren" ) );
		k.push( J::obj().set( "k", codes( e.first ) ).set( "v", codes( e.second.get_str() ) ) );
	}
	return ok( J::obj().set( "v", codes( pn.get_str() ) ).set( "c", k ) );
}
int main() { return vf::main_loop(); }
