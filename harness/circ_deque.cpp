#include "vf.h"
#include "xo/container/circular_deque.h"
#include <memory>
using namespace xo;
static circular_deque<int> d;

OP( "push_back" ) { d.push_back( c["v"].i ); return ok(); }
OP( "push_front" ) { d.push_front( c["v"].i ); return ok(); }
OP( "push_back_alias" ) { d.push_back( d.front() ); return ok(); }
OP( "push_front_alias" ) { d.push_front( d.back() ); return ok(); }
OP( "pop_back" ) { d.pop_back(); return ok(); }
OP( "pop_front" ) { d.pop_front(); return ok(); }
OP( "front" ) { return ok( d.front() ); }
OP( "back" ) { return ok( d.back() ); }
OP( "cfront" ) { const auto& cd = d; return ok( cd.front() ); }
OP( "cback" ) { const auto& cd = d; return ok( cd.back() ); }
OP( "clear" ) { d.clear(); return ok(); }
OP( "reserve" ) { d.reserve( c["n"].i ); return ok(); }
OP( "set" ) { if ( size_t( c["i"].i ) >= d.size() ) return fail(); d[c["i"].i] = c["v"].i; return ok(); }
OP( "copy" ) { auto e = d; circular_deque<int> f; f = e; d = f; return ok(); }

int main() {
	vf::on_reset() = []( const J& c ) { d = circular_deque<int>( c["cap"].i ); };
	vf::on_obs() = [] {
		const auto& cd = d;
		J o = J::obj(); J at = J::arr(), cat = J::arr(), it = J::arr(), cit = J::arr(), off = J::arr();
		for ( size_t i = 0; i < d.size(); ++i ) { at.push( d[i] ); cat.push( cd[i] ); off.push( *( d.begin() + int( i ) ) ); }
		size_t guard = 0;
		for ( auto i = d.begin(); i != d.end() && guard++ < 1000; i++ ) it.push( *i );
		for ( auto i = cd.begin(); i != cd.end() && guard++ < 2000; ++i ) cit.push( *i );
		o.set( "size", d.size() ).set( "empty", d.empty() ).set( "at", at ).set( "cat", cat ).set( "it", it ).set( "cit", cit );
		o.set( "off", off ).set( "dist", d.end() - d.begin() );
		o.set( "capok", d.capacity() >= d.size() && d.full() == ( d.size() == d.capacity() ) );
		return o;
	};
	return vf::main_loop();
}
