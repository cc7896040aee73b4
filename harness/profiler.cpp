#include "vf.h"
#include "clock.h"
#include <cmath>
#include <memory>
#include <set>
#include "xo/xo_types.h"
#include "xo/container/prop_node.h"
#include "xo/system/profiler.h"
using vf::J;
struct State { std::unique_ptr< xo::profiler > p; std::vector< std::unique_ptr< xo::scoped_profiler_section > > open; };
static std::unique_ptr< State > s;
static const char* label( const std::string& n ) { static std::set< std::string > all; return all.insert( n ).first->c_str(); }
static void close_all() { if ( s ) while ( !s->open.empty() ) s->open.pop_back(); }
OP( "tick" ) { vf::clock_ns() += c["d"].i * 1000000LL; return vf::ok(); }
OP( "start" ) { s->p->start( label( c["name"].s ) ); return vf::ok(); }
OP( "enter" ) { s->open.emplace_back( new xo::scoped_profiler_section( label( c["name"].s ), *s->p ) ); return vf::ok(); }
OP( "leave" ) { if ( !s->open.empty() ) s->open.pop_back(); return vf::ok(); }
OP( "stop" ) { s->p->stop(); return vf::ok(); }
static J node( const std::string& name, const xo::prop_node& pn ) {
	double ms = -1, perc = -1, excl = -1, avg = -1, over = -1; int count = -1, end = 0;
	std::string v = pn.get_str();
	int n = sscanf( v.c_str(), "%lfms %lf%% (%lf%%) %d %lfns ~%lf%% OH%n", &ms, &perc, &excl, &count, &avg, &over, &end );
	if ( n < 5 ) throw std::logic_error( "unexpected text: " + v );
	J ch = J::arr();
	for ( auto& [k, c] : pn ) ch.push( node( k, c ) );
	return J::obj().set( "name", name ).set( "ms", std::llround( ms ) ).set( "count", count ).set( "perc", std::llround( perc * 100 ) )
		.set( "excl", std::llround( excl * 100 ) ).set( "avg", std::llround( avg ) ).set( "ch", ch );
}
OP( "report" ) {
	auto pn = s->p->report( double( c["min"].i ), c["tag"].b() );
	J a = J::arr();
	for ( auto& [k, v] : pn ) a.push( node( k, v ) );
	return vf::ok( a );
}
int main() {
	vf::on_reset() = []( const J& ) { close_all(); s.reset( new State ); s->p.reset( new xo::profiler ); };
	vf::on_obs() = [] { return J::obj().set( "on", s->p->enabled() ); };
	int r = vf::main_loop();
	close_all();
	return r;
}
