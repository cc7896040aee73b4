#include "scheduler.h"
#include <map>
#include <fstream>
#include <sys/stat.h>
#include <sys/time.h>
#include <stdlib.h>
#include "xo/xo_types.h"
#include "xo/utility/file_resource_cache.h"
using namespace xo;
using vf::J;
static long now = 100;
extern "C" time_t time( time_t* t ) noexcept { time_t v = 1000000 + now; if ( t ) *t = v; return v; }

static std::string dir;
static J ev( const char* op ) { return J::obj().set( "op", op ).set( "t", std::max( 1, sched::self() ) ); }
static std::string file( int f ) { return dir + "/f" + std::to_string( f ); }
static int number( const path& p ) { return atoi( p.str().substr( dir.size() + 2 ).c_str() ); }

struct Res {
	static int& live() { static int n = 0; return n; }
	int ver; bool whole = false;
	Res( int v ) : ver( v ) { ++live(); }
	Res( const Res& o ) : ver( o.whole ? o.ver : -1 ), whole( o.whole ) { ++live(); }
	~Res() { whole = false; ver = -2; --live(); }
};
using Cache = file_resource_cache< Res, path >;

static void write( int f, int v, int m, bool good ) {
	std::ofstream( file( f ) ) << v << ' ' << good;
	struct timeval tv[2] = { { 5000 + m, 0 }, { 5000 + m, 0 } };
	utimes( file( f ).c_str(), tv );
}
static void env( const J& o ) {
	auto& k = o["op"].s;
	J e = o; e.set( "t", 1 );
	sched::yield();
	if ( k == "write" ) write( o["f"].i, o["v"].i, o["m"].i, o["good"].b() );
	else if ( k == "delete" ) ::remove( file( o["f"].i ).c_str() );
	else now += o["d"].i;
	sched::event( e );
	sched::yield();
}
static Res* create( const path& p ) {
	int f = number( p );
	sched::event( ev( "begin" ).set( "f", f ) );
	sched::yield();
	std::ifstream str( p.str() );
	int v = 0; bool good = false;
	str >> v >> good;
	if ( !good ) { sched::event( ev( "throw" ).set( "f", f ) ); throw std::runtime_error( "cannot be read" ); }
	std::unique_ptr< Res > r( new Res( v ) );
	sched::event( ev( "end" ).set( "f", f ).set( "v", v ) );
	sched::yield();
	r->whole = true;
	return r.release();
}
static Res* clone_res( const Res& r ) { sched::yield(); auto* c = new Res( r ); return c; }
static void request( Cache& c, int f ) {
	sched::event( ev( "call" ).set( "f", f ) );
	try {
		auto r = c( path( file( f ) ) );
		int v = r && r->whole ? r->ver : -3;
		if ( r ) r->ver = -4;        // the caller owns the copy it got
		sched::event( ev( "ret" ).set( "v", v ) );
	}
	catch ( std::exception& ) { sched::event( ev( "exc" ) ); }
}
// threads: lists of requests; env: what one more thread does to the files; then a last request for every file
OP( "cache" ) {
	std::unique_ptr< Cache > ca; long runs = 0;
	auto make = [&] {
		ca.reset(); now = 100;
		for ( int f = 1; f <= 3; ++f ) ::remove( file( f ).c_str() );
		ca.reset( new Cache( create, clone_res ) );
		Res::live() = 0;
		sched::Bodies b;
		for ( auto& q : c["threads"].a ) b.push_back( [&] { for ( auto& o : q.a ) if ( o.t == J::Int ) request( *ca, o.i ); else env( o ); } );
		if ( c["env"].size() ) b.push_back( [&] { for ( auto& o : c["env"].a ) env( o ); } );
		for ( auto& o : c["before"].a ) write( o["f"].i, o["v"].i, o["m"].i, o["good"].b() );
		return b;
	};
	auto done = [&] {
		// the state before goes in front of the history
		std::vector< J > e;
		for ( auto& o : c["before"].a ) { J x = o; x.set( "t", 1 ); e.push_back( x ); }
		auto& s = sched::S().events;
		s.insert( s.begin(), e.begin(), e.end() );
		for ( auto d : { 0, 10 } ) {
			if ( d ) env( J::obj().set( "op", "tick" ).set( "d", d ) );
			for ( int f = 1; f <= 3; ++f ) request( *ca, f );
		}
		sched::event( J::obj().set( "op", "final" ).set( "t", 1 ).set( "live", Res::live() ) );
	};
	J h = sched::explore( make, done, c["bound"].i, c["max"].i, 1, runs );
	return vf::ok( J::obj().set( "runs", runs ).set( "hist", h ) );
}
int main() {
	char tmpl[] = "cacheXXXXXX";
	if ( !mkdtemp( tmpl ) ) return 97;
	char* full = realpath( tmpl, nullptr );
	dir = full; free( full );
	int r = vf::main_loop();
	for ( int f = 1; f <= 3; ++f ) ::remove( file( f ).c_str() );
	rmdir( dir.c_str() );
	return r;
}
