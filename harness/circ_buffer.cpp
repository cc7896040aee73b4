#include "vf.h"
#include "xo/xo_types.h"
#include "xo/container/circular_buffer.h"
using namespace xo;
static circular_buffer<int> d;
static size_t nc;

OP( "set" ) { d.set( c["i"].i, c["v"].i ); return ok(); }
OP( "set_back" ) { d.back( c["i"].i ) = c["v"].i; return ok(); }
OP( "advance" ) { d.advance(); return ok(); }
OP( "clear_back" ) { d.clear_back( c["v"].i ); return ok(); }
OP( "reset_buffer" ) { d.reset(); return ok(); }
OP( "resize" ) { d.resize( c["f"].i, c["c"].i ); nc = c["c"].i; return ok(); }
OP( "add_channel" ) { auto i = d.add_channel(); ++nc; return ok( i ); }
OP( "add_frame" ) { return ok( d.add_frame() ); }

int main() {
	vf::on_reset() = []( const J& c ) { nc = c["c"].i; d = circular_buffer<int>( c["f"].i, nc ); };
	vf::on_obs() = [] {
		const auto& cd = d;
		J f = J::arr(), g = J::arr(), b = J::arr();
		if ( d.capacity() > 0 ) for ( size_t i = 0; i < nc; ++i ) { f.push( cd.front( i ) ); g.push( cd.get( i ) ); b.push( cd.back( i ) ); }
		return J::obj().set( "cap", d.capacity() ).set( "empty", d.empty() ).set( "front", f ).set( "get", g ).set( "back", b );
	};
	return vf::main_loop();
}
