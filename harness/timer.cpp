#include "vf.h"
#include <cmath>
#include "clock.h"
#include <memory>
#include "xo/xo_types.h"
#include "xo/container/prop_node.h"
#include "xo/string/string_cast.h"
#include "xo/time/timer.h"
#include "xo/time/stopwatch.h"
#include "xo/time/interval_checker.h"
#include <cmath>
using vf::J;
using xo::time; 
static long long unit = 1, epoch0 = 0;
struct State { std::vector< xo::timer > t{ 2, xo::timer( true ) }; std::unique_ptr< xo::stopwatch > sw{ new xo::stopwatch }; std::vector< xo::interval_checker > ch; };
static std::unique_ptr< State > s;
static xo::time tm( const J& v ) { return xo::time( v.i * unit ); }
static J val( xo::time t ) { long long n = t.nanoseconds(); return n % unit ? J( "between ticks: " + std::to_string( n ) ) : J( n / unit ); }
#define K size_t( c["k"].i - 1 )
OP( "tick" ) { vf::clock_ns() += c["d"].i * unit; return vf::ok(); }
OP( "new" ) { s->t.at( K ) = xo::timer( c["start"].b() ); return vf::ok(); }
OP( "pause" ) { return vf::ok( val( s->t.at( K ).pause() ) ); }
OP( "resume" ) { s->t.at( K ).resume(); return vf::ok(); }
OP( "restart" ) { return vf::ok( val( s->t.at( K ).restart() ) ); }
OP( "set" ) { s->t.at( K ).set( tm( c["v"] ) ); return vf::ok(); }
OP( "copy" ) { s->t.at( size_t( c["t"].i - 1 ) ) = s->t.at( K ); return vf::ok(); }
OP( "scoped" ) { { xo::scoped_timer_starter x( s->t.at( K ) ); vf::clock_ns() += c["d"].i * unit; } return vf::ok( val( s->t.at( K )() ) ); }
OP( "sw_new" ) { s->sw.reset( new xo::stopwatch ); return vf::ok(); }
OP( "sw_restart" ) { s->sw->restart(); return vf::ok(); }
OP( "sw_clear" ) { s->sw->clear(); return vf::ok(); }
OP( "sw_split" ) { s->sw->split( c["n"].s.c_str() ); return vf::ok(); }
OP( "sw_report" ) {
	auto pn = s->sw->get_report();
	J a = J::arr();
	for ( auto& [k, v] : pn ) a.push( J::obj().set( "n", k ).set( "t", codes( v.get_str() ) ) );
	return vf::ok( a );
}
OP( "ch_new" ) { s->ch.at( K ) = xo::interval_checker( tm( c["d"] ) ); return vf::ok(); }
OP( "ch" ) { return vf::ok( J( s->ch.at( K ).check( xo::time( vf::clock_ns() - epoch0 ) ) ) ); }
OP( "text" ) { return vf::ok( codes( xo::to_str( xo::time( c["v"].i * 1000000LL ), int( c["d"].i ), double( c["hide"].i ) ) ) ); }
OP( "from" ) {
	auto& f = c["f"].s; long long n = c["n"].i; xo::time t;
	if ( f == "s" ) t = n % 2 ? xo::time_from_seconds( int( n ) ) : xo::time_from_seconds( double( n ) );
	else if ( f == "ms" ) t = n % 2 ? xo::time_from_milliseconds( int( n ) ) : xo::time_from_milliseconds( double( n ) );
	else if ( f == "ns" ) t = n % 2 ? xo::time_from_nanoseconds( n ) : xo::time_from_nanoseconds( double( n ) );
	else if ( f == "str" ) { if ( !xo::from_str( std::to_string( n ) + "e-3", t ) ) return vf::fail(); }
	else t = xo::time_from_seconds( double( n ) / 1000.0 );
	long long v = t.nanoseconds(), q = v / 1000000, r = v % 1000000;
	if ( r < 0 ) r += 1000000, --q;
	return vf::ok( J::obj().set( "ms", q ).set( "rest", r ) );
}
OP( "conv" ) {
	xo::time t( c["n"].i * 1000000000LL ); double n = double( c["n"].i );
	if ( t.secondsd() != t.seconds< double >() || std::abs( t.secondsd() - n ) > 1e-6 || std::abs( t.secondsf() - float( n ) ) > 1e-6 * std::abs( n ) || std::abs( t.milliseconds() - 1e3 * n ) > 1e-3 || std::abs( t.millisecondsf() - 1e3 * n ) > 1e-3 * std::abs( n ) || t.nanosecondsd() != 1e9 * n ) return vf::ok( "differs" );
	return vf::ok( J::obj().set( "s", t.seconds< int >() ).set( "ms", t.milliseconds< long long >() ) );
}
OP( "arith" ) {
	auto a = tm( c["a"] ), b = tm( c["b"] ); auto x = a, y = a; x += b; y -= b;
	if ( x != a + b || y != a - b ) return vf::fail();
	return vf::ok( J::obj().set( "add", val( a + b ) ).set( "sub", val( a - b ) ).set( "neg", val( -a ) ).set( "dist", val( xo::distance( a, b ) ) )
		.set( "lt", a < b ).set( "le", a <= b ).set( "gt", a > b ).set( "ge", a >= b ).set( "eq", a == b ).set( "ne", a != b ) );
}
static J parts( xo::time t, bool neg ) { long long n = neg ? -t.nanoseconds() : t.nanoseconds(); return n < 0 ? J( "sign" ) : J::arr().push( n / 1000000000 ).push( n % 1000000000 ); }
static J both( J a, J b ) { return a.dump() == b.dump() ? a : J::arr().push( a ).push( b ).push( "differ" ); }
OP( "big" ) {
	bool neg = c["neg"].b(); long long sec = c["s"].i, n = c["n"].i, f = neg ? -1 : 1;
	return vf::ok( J::obj().set( "ns", both( parts( xo::time_from_nanoseconds( f * ( sec * 1000000000LL + n ) ), neg ), parts( xo::time( f * ( sec * 1000000000LL + n ) ), neg ) ) )
		.set( "ms", parts( xo::time_from_milliseconds( f * ( sec * 1000LL + n / 1000000 ) ), neg ) )
		.set( "sec", both( parts( xo::time_from_seconds( f * sec ), neg ), parts( xo::time_from_seconds( int( f * sec ) ), neg ) ) ) );
}
OP( "div" ) {
	xo::time a( c["a"].i ), b = a, d = a * 2.0; int n = int( c["n"].i ); b /= size_t( n );
	auto q = []( xo::time t ) { return J( t.nanoseconds() ); }; auto z = a; z.reset();
	return vf::ok( J::obj().set( "q", both( both( q( a / size_t( n ) ), q( a / n ) ), both( q( b ), q( a / double( n ) ) ) ) ).set( "mul", both( q( a * n ), q( xo::time( n ) * c["a"].i ) ) )
		.set( "ratio", both( J( int( std::lround( ( a * n ) / xo::time( n ) ) ) ), J( int( std::lround( d / xo::time( 2 ) ) ) ) ) ).set( "zero", both( J( a.is_zero() ), J( a == z || !z.is_zero() ) ) ) );
}
OP( "units" ) {
	unsigned long long n = c["n"].i; using namespace xo::time_literals;
	auto s = []( xo::time t, long long u ) { return t.nanoseconds() % u ? J( "rest" ) : J( t.nanoseconds() / u ); }; const long long G = 1000000000;
	return vf::ok( J::obj().set( "minute", s( operator""_minute( n ), G ) ).set( "hour", s( operator""_hour( n ), G ) ).set( "day", s( operator""_day( n ), G ) ).set( "year", s( operator""_year( n ), G ) )
		.set( "s", s( operator""_s( n ), G ) ).set( "ms", s( operator""_ms( n ), 1000000 ) ).set( "ns", s( operator""_ns( n ), 1 ) ) );
}
int main() {
	vf::on_reset() = []( const J& c ) {
		unit = c.has( "unit" ) ? c["unit"].i : 1000000; epoch0 = vf::clock_ns();
		s.reset( new State ); s->ch.assign( 2, xo::interval_checker( xo::time( 2 * unit ) ) );
	};
	vf::on_obs() = [] {
		J e = J::arr(), ti = J::arr(), r = J::arr(), p = J::arr(), n = J::arr(), v = J::arr();
		for ( auto& t : s->t ) { e.push( val( t() ) ); ti.push( val( xo::time( t.tick_count() ) ) ); r.push( t.is_running() ); p.push( t.is_paused() ); }
		for ( auto& x : s->sw->split_names() ) n.push( x );
		for ( auto& x : s->sw->split_times() ) v.push( val( x ) );
		return J::obj().set( "e", e ).set( "ticks", ti ).set( "run", r ).set( "paused", p ).set( "names", n ).set( "times", v ).set( "n", s->sw->size() );
	};
	return vf::main_loop();
}
