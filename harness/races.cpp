// The specifications of the concurrent parts take every access to shared data as one step.  Here the same kinds of threads run
// freely, built with ThreadSanitizer, which reports any two accesses to shared data that no lock or atomic orders.
#include "vf.h"
#include <atomic>
#include <fstream>
#include <filesystem>
#include <memory>
#include <sstream>
#include <thread>
#include "xo/xo_types.h"
#include "xo/system/assert.h"
#include "xo/system/log.h"
#include "xo/system/log_sink.h"
#include "xo/thread/stop_token.h"
#include "xo/thread/interruptible.h"
#include "xo/utility/memoize.h"
#include "xo/utility/file_resource_cache.h"
using namespace xo;
using vf::J;

static void together( int n, const std::function< void( int ) >& f ) {
	std::atomic_int ready{ 0 };
	std::vector< std::thread > t;
	for ( int i = 0; i < n; ++i ) t.emplace_back( [&, i] { ++ready; while ( ready < n ) {} f( i ); } );
	for ( auto& x : t ) x.join();
}
#define ROUNDS for ( int r = 0; r < int( c["rounds"].i ); ++r )

OP( "memo" ) {
	ROUNDS {
		memoize_thread_safe< int( int ) > m( []( int k ) { if ( k == 7 ) throw std::runtime_error( "no" ); return k * 2; } );
		together( 4, [&]( int i ) { for ( int k = 0; k < 12; ++k ) { try { if ( m( ( k * ( i + 1 ) ) % 10 ) < 0 ) abort(); } catch ( std::exception& ) {} m.size(); } } );
	}
	return vf::ok();
}
OP( "cache" ) {
	for ( int i = 0; i < 3; ++i ) std::ofstream( "race" + std::to_string( i ) ) << i;
	ROUNDS {
		file_resource_cache< int, path > fc( []( const path& p ) { return new int( p.str().back() - '0' ); }, []( const int& i ) { return new int( i ); } );
		together( 4, [&]( int i ) { for ( int k = 0; k < 9; ++k ) { try { auto v = fc( path( "race" + std::to_string( ( k * ( i + 1 ) ) % 4 ) ) ); if ( *v < 0 ) abort(); } catch ( std::exception& ) {} } } );
	}
	return vf::ok();
}
struct CountSink : log::sink {
	std::atomic_int n{ 0 };
	CountSink( log::level l ) : sink( l, {} ) {}
	void hande_log_message( log::level, const string& ) override { ++n; }
};
OP( "log" ) {
	ROUNDS {
		std::ostringstream str;
		CountSink a( log::level::info ), b( log::level::warning );
		log::stream_sink s( str, log::level::info );
		a.set_sink_mode( r % 2 ? log::sink_mode::current_thread : log::sink_mode::all_threads );
		together( 4, [&]( int i ) {
			for ( int k = 0; k < 6; ++k ) switch ( ( i + k ) % 4 ) {
				case 0: log::info( "text ", i ); log::warningf( "text %d", k ); break;
				case 1: log::error( "text" ); break;
				case 2: ( i % 2 ? a : b ).set_log_level( k % 2 ? log::level::info : log::level::error ); log::test_log_level( log::level::info ); a.get_log_level(); break;
				default: if ( i == 1 ) { log::remove_sink( &b ); log::add_sink( &b ); } else log::flush();
			} } );
	}
	return vf::ok();
}
OP( "stop" ) {
	ROUNDS {
		stop_source s; stop_token t = s.get_token(); int data = 0; stop_source copy = s;
		together( 4, [&]( int i ) {
			stop_token mine = i == 3 ? copy.get_token() : t;
			if ( i == 0 ) { data = 1; copy.request_stop(); }
			else if ( i == 1 ) { while ( !mine.stop_requested() ) std::this_thread::yield(); if ( data != 1 ) abort(); }
			else { s.stop_requested(); mine.stop_possible(); mine.stop_requested(); if ( i == 2 ) mine = stop_token(); } } );
	}
	return vf::ok();
}
struct Task : interruptible {};
OP( "interrupt" ) {
	ROUNDS {
		Task t;
		together( 3, [&]( int i ) { if ( i == 0 ) t.interrupt(); else if ( i == 1 ) while ( !t.test_interrupt_flag() ) std::this_thread::yield(); else t.test_interrupt_flag(); } );
	}
	return vf::ok();
}
int main() { return vf::main_loop(); }
