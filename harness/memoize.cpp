#include "scheduler.h"
#include <map>
#include <tuple>
#include "xo/xo_types.h"
#include "xo/system/assert.h"
#include "xo/utility/memoize.h"
using namespace xo;
using vf::J;

// keys compare themselves at a point where other threads may run
struct Key { int v; bool operator<( const Key& o ) const { sched::yield(); return v < o.v; } };
static J ev( const char* op ) { return J::obj().set( "op", op ).set( "t", std::max( 1, sched::self() ) ); }

struct Scen {
	std::map< int, int > throws; int results = 0; bool rec = false;
	std::function< int( Key ) > self;
	std::vector< std::pair< const int*, int > > refs;
	int f( Key k ) {
		sched::event( ev( "begin" ).set( "a", k.v ) );
		sched::yield();
		if ( throws[k.v] > 0 ) {
			--throws[k.v];
			sched::event( ev( "throw" ).set( "a", k.v ) );
			throw std::runtime_error( "no result" );
		}
		if ( rec && k.v > 1 ) try { self( Key{ k.v - 1 } ); self( Key{ k.v - 2 } ); } catch ( std::exception& ) {
			sched::event( ev( "throw" ).set( "a", k.v ) ); throw; }
		int r = k.v * 100 + ++results;     // every computation gives a new result
		sched::event( ev( "end" ).set( "a", k.v ).set( "v", r ) );
		sched::yield();
		return r;
	}
	template< typename M > int call( M& m, Key k ) {
		sched::event( ev( "call" ).set( "a", k.v ) );
		try {
			const int& r = m( k );
			int v = r;
			sched::event( ev( "ret" ).set( "v", v ) );
			refs.push_back( { &r, v } );
			return v;
		}
		catch ( std::exception& ) { sched::event( ev( "exc" ) ); throw; }
	}
	template< typename M > void body( M& m, const J& calls ) {
		for ( auto& a : calls.a )
			if ( a.i == 0 ) {
				sched::event( ev( "size_call" ).set( "a", 0 ) );
				long n = m.size();
				sched::event( ev( "size_ret" ).set( "v", n ) );
			}
			else try { call( m, Key{ int( a.i ) } ); } catch ( std::exception& ) {}
	}
	template< typename M > void fin( M& m ) {
		bool stable = true;
		for ( auto& r : refs ) stable = stable && *r.first == r.second;
		sched::event( J::obj().set( "op", "final" ).set( "t", 1 ).set( "v", m.size() ).set( "stable", stable ) );
	}
};

template< typename M > static J run( const J& c, bool rec ) {
	std::unique_ptr< Scen > s; std::unique_ptr< M > m; long runs = 0;
	auto make = [&] {
		m.reset(); s.reset( new Scen );
		for ( auto& a : c["throws"].a ) s->throws[a.i]++;
		s->rec = rec;
		m.reset( new M( [&]( Key k ) { return s->f( k ); } ) );
		s->self = [&]( Key k ) { return s->call( *m, k ); };
		sched::Bodies b;
		for ( auto& q : c["calls"].a ) b.push_back( [&] { s->body( *m, q ); } );
		return b;
	};
	J h = sched::explore( make, [&] { s->fin( *m ); }, c["bound"].i, c["max"].i, 1, runs );
	return vf::ok( J::obj().set( "runs", runs ).set( "hist", h ) );
}
OP( "safe" ) { return run< memoize_thread_safe< int( Key ) > >( c, false ); }
OP( "plain" ) { return run< memoize< int( Key ) > >( c, true ); }
int main() { return vf::main_loop(); }
