#include "vf.h"
#include <memory>
#include <thread>
#include "xo/xo_types.h"
#include "xo/thread/stop_token.h"
#include "xo/thread/interruptible.h"
using namespace xo;
using vf::J;
struct Task : interruptible { int x = 1; };
struct State { std::vector< stop_source > src; std::vector< stop_token > tok; std::vector< std::unique_ptr< Task > > ints; };
static std::unique_ptr< State > s;
// w: by another thread
template< typename F > static void run( const J& c, F f ) { if ( c["w"].b() ) std::thread( f ).join(); else f(); }
#define K size_t( c["k"].i - 1 )
#define T size_t( c["t"].i - 1 )
OP( "new_source" ) { run( c, [&] { s->src.at( K ) = stop_source(); } ); return vf::ok(); }
OP( "copy_source" ) { stop_source n( s->src.at( K ) ); std::swap( s->src.at( T ), n ); return vf::ok(); }
OP( "assign_source" ) { s->src.at( T ) = s->src.at( K ); return vf::ok(); }
OP( "move_source" ) { stop_source n( std::move( s->src.at( K ) ) ); s->src.at( T ) = std::move( n ); return vf::ok(); }
OP( "move_assign_source" ) { s->src.at( T ) = std::move( s->src.at( K ) ); return vf::ok(); }
OP( "get_token" ) { s->tok.at( T ) = s->src.at( K ).get_token(); return vf::ok(); }
OP( "new_token" ) { s->tok.at( K ) = stop_token(); return vf::ok(); }
OP( "copy_token" ) { stop_token n( s->tok.at( K ) ); std::swap( s->tok.at( T ), n ); return vf::ok(); }
OP( "assign_token" ) { s->tok.at( T ) = s->tok.at( K ); return vf::ok(); }
OP( "move_token" ) { stop_token n( std::move( s->tok.at( K ) ) ); s->tok.at( T ) = std::move( n ); return vf::ok(); }
OP( "move_assign_token" ) { s->tok.at( T ) = std::move( s->tok.at( K ) ); return vf::ok(); }
OP( "request" ) { bool r = false; run( c, [&] { r = s->src.at( K ).request_stop(); } ); return vf::ok( J( -999 ) ); }
OP( "new_int" ) { run( c, [&] { s->ints.at( K ).reset( new Task ); } ); return vf::ok(); }
OP( "interrupt" ) { const Task& t = *s->ints.at( K ); run( c, [&] { t.interrupt(); } ); return vf::ok(); }
OP( "copy_int" ) { s->ints.at( T ).reset( new Task( *s->ints.at( K ) ) ); return vf::ok(); }
OP( "assign_int" ) { *s->ints.at( T ) = *s->ints.at( K ); return vf::ok(); }
int main() {
	vf::on_reset() = []( const J& c ) {
		s.reset( new State );
		s->src.resize( size_t( c["ns"].i ) ); s->tok.resize( size_t( c["nt"].i ) );
		for ( int i = 0; i < int( c["ni"].i ); ++i ) s->ints.emplace_back( new Task );
	};
	vf::on_obs() = [] {
		J sr = J::arr(), sp = J::arr(), tr = J::arr(), tp = J::arr(), in = J::arr();
		for ( auto& x : s->src ) sr.push( x.stop_requested() ), sp.push( x.stop_possible() );
		for ( auto& x : s->tok ) tr.push( x.stop_requested() ), tp.push( x.stop_possible() );
		for ( auto& x : s->ints ) in.push( x->test_interrupt_flag() );
		return J::obj().set( "sr", sr ).set( "sp", sp ).set( "tr", tr ).set( "tp", tp ).set( "ints", in );
	};
	return vf::main_loop();
}
