#include "vf.h"
#define main program_main
#include "xo/system/test_main.h"
#undef main
#include "xo/system/log_sink.h"
#include <algorithm>
#include <atomic>
#include <fcntl.h>
#include <memory>
#include <mutex>
#include <sys/wait.h>
#include <unistd.h>
using namespace xo;
using std::string;
using vf::J;

struct script { std::vector< std::vector< string > > runs; std::atomic< int > n{ 0 }; };
static std::mutex order_mutex;
static std::vector< int > order;
static bool yes() { return true; }
static bool no() { return false; }
static bool raise() { throw std::runtime_error( "raised in a check" ); }
static bool raise_int() { throw 3; }
static void perform( script& s, test::test_case& XO_ACTIVE_TEST_CASE ) {
	int k = s.n++;
	if ( s.runs.empty() ) return;
	int j = 0;
	for ( auto& x : s.runs[ k % s.runs.size() ] ) {
		bool msg = j++ % 2; // both kinds of check
		if ( x == "ok" ) { if ( msg ) XO_CHECK_MESSAGE( yes(), "holds" ) else XO_CHECK( yes() ) }
		else if ( x == "bad" ) { if ( msg ) XO_CHECK_MESSAGE( no(), "does not hold" ) else XO_CHECK( no() ) }
		else if ( x == "cthrow" ) { if ( msg ) XO_CHECK_MESSAGE( raise(), "" ) else XO_CHECK( raise() ) }
		else if ( x == "cint" ) { XO_CHECK( raise_int() ) }
		else if ( x == "throw" ) throw std::runtime_error( "raised" );
		else if ( x == "empty" ) throw std::runtime_error( "" );
		else if ( x == "int" ) throw 4;
	}
}
static std::vector< std::vector< string > > runs( const J& c ) {
	std::vector< std::vector< string > > r;
	for ( auto& x : c.a ) { r.emplace_back(); for ( auto& y : x.a ) r.back().push_back( y.s ); }
	return r;
}
static J single( const J& c ) {
	auto s = std::make_shared< script >();
	s->runs = runs( c["c"] );
	test::test_case t( "single", [s]( test::test_case& tc ) { perform( *s, tc ); } );
	J v = J::arr();
	for ( int i = 0; i < c["n"].num(); ++i ) {
		auto& r = t.run();
		v.push( J::obj().set( "checks", r.checks_ ).set( "passed", r.passed_ ).set( "failed", r.failed_ ).set( "thrown", !r.error_.empty() ).set( "success", r.success() ) );
	}
	return v;
}
// what was said about each case
struct listener : log::sink {
	listener() : log::sink( log::level::trace, log::format_flags() ) {}
	void hande_log_message( log::level l, const string& m ) override { std::scoped_lock k( mu ); said.push_back( { l, m } ); }
	void flush() override {}
	std::mutex mu;
	std::vector< std::pair< log::level, string > > said;
};
static bool names( const string& m, const string& name ) {
	for ( size_t p = 0; ( p = m.find( name, p ) ) != string::npos; ++p )
		if ( p + name.size() == m.size() || !isdigit( (unsigned char)m[ p + name.size() ] ) ) return true;
	return false;
}
static std::vector< script* > scripts; // of the cases that are registered, in that order
static void scripted( int i, test::test_case& tc ) {
	{ std::scoped_lock k( order_mutex ); order.push_back( i + 1 ); }
	perform( *scripts[ i ], tc );
}
// registered by the macros: always the first case there is
XO_TEST_CASE( vfcase1 ) { scripted( 0, XO_ACTIVE_TEST_CASE ); }
XO_TEST_CASE_SKIP( vfskipped ) { std::scoped_lock k( order_mutex ); order.push_back( -1 ); }
static J suite( const J& c ) {
	for ( int k = 0; k < c["times"].num(); ++k )
		for ( auto& x : c["cs"].a ) { auto s = new script; s->runs = runs( x ); scripts.push_back( s ); }
	if ( scripts.empty() ) return J::arr();
	for ( int i = 1; i < (int)scripts.size(); ++i )
		test::add_test_case( "vfcase" + std::to_string( i + 1 ), [i]( test::test_case& tc ) { scripted( i, tc ); } );
	J v = J::arr();
	for ( auto& h : c["how"].a ) {
		listener l;
		log::add_sink( &l );
		order.clear();
		int failed;
		if ( h.s == "main" ) {
			// the exit code of a program of its own
			int p[2];
			if ( pipe( p ) ) exit( 97 );
			auto pid = fork();
			if ( !pid ) {
				int n = open( "/dev/null", O_WRONLY );
				dup2( n, 1 ); dup2( n, 2 );
				char* argv[] = { (char*)"test", nullptr };
				int r = program_main( 1, argv );
				for ( int o : order ) if ( write( p[1], &o, sizeof o ) != sizeof o ) _exit( 97 );
				_exit( r );
			}
			close( p[1] );
			for ( int o; read( p[0], &o, sizeof o ) == sizeof o; ) order.push_back( o );
			close( p[0] );
			int st; waitpid( pid, &st, 0 );
			failed = WIFEXITED( st ) && WEXITSTATUS( st ) == 0 ? 0 : WIFEXITED( st ) ? 1 : 1000;
		}
		else failed = h.s == "async" ? test::run_tests_async() : test::run_tests();
		log::remove_sink( &l );
		J ran = J::arr(), said = J::arr(), ord = J::arr();
		for ( size_t i = 0; i < scripts.size(); ++i ) {
			ran.push( long( std::count( order.begin(), order.end(), int( i + 1 ) ) ) );
			if ( h.s == "main" ) continue;
			auto name = "vfcase" + std::to_string( i + 1 );
			bool passed = false, complained = false;
			for ( auto& m : l.said ) if ( names( m.second, name ) ) {
				if ( m.second.find( "PASSED" ) != string::npos ) passed = true;
				if ( m.first >= log::level::error ) complained = true;
			}
			said.push( J::obj().set( "passed", passed ).set( "complained", complained ) );
		}
		for ( auto& o : order ) if ( o < 0 ) failed = 2000;
		if ( h.s != "async" ) for ( auto& o : order ) ord.push( o );
		// the last word
		bool clear = h.s != "main" && !l.said.empty() && l.said.back().first < log::level::error;
		v.push( J::obj().set( "failed", failed ).set( "ran", ran ).set( "order", ord ).set( "said", said ).set( "clear", clear ) );
	}
	return v;
}
// cases stay registered, so each suite gets a process of its own
static J apart( J ( *f )( const J& ), const J& c ) {
	int p[2];
	if ( pipe( p ) ) exit( 97 );
	fflush( stdout );
	auto pid = fork();
	if ( !pid ) {
		close( p[0] );
		string s;
		f( c ).print( s );
		for ( size_t i = 0; i < s.size(); ) { auto n = write( p[1], s.data() + i, s.size() - i ); if ( n <= 0 ) _exit( 97 ); i += n; }
		_exit( 0 );
	}
	close( p[1] );
	string s; char buf[4096];
	for ( ssize_t n; ( n = read( p[0], buf, sizeof buf ) ) > 0; ) s.append( buf, n );
	close( p[0] );
	int st; waitpid( pid, &st, 0 );
	if ( !WIFEXITED( st ) || WEXITSTATUS( st ) ) return J::obj().set( "ok", false ).set( "died", true );
	return ok( vf::parse( s ) );
}
OP( "suite" ) { return apart( suite, c ); }
OP( "case" ) { return apart( single, c ); }
int main() { return vf::main_loop(); }
