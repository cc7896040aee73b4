#include "scheduler.h"
#include <cstdarg>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <sstream>
#include <stdlib.h>
#include "xo/xo_types.h"
#include "xo/system/log.h"
#include "xo/system/log_sink.h"
using namespace xo;
using vf::J;
using log::level;

static int T0 = 1;           // the number of the main thread: after the others
static int who() { return sched::self() > 0 ? sched::self() : T0; }
static J ev( const char* op ) { return J::obj().set( "op", op ).set( "t", who() ); }

// message `id` of n characters
static std::string text( int id, int n ) {
	std::string s = "m" + std::to_string( id ) + ":";
	for ( int i = int( s.size() ); i < n; ++i ) s += "abc%d \"xyz\\0"[i % 12] ? "abc%d \"xyz\\0"[i % 12] : '.';
	return s;
}
struct Msgs { std::map< int, std::string > all; } msgs;
static int number( const std::string& s ) { return s.size() > 1 && s[0] == 'm' ? atoi( s.c_str() + 1 ) : -1; }
static bool whole( const std::string& s ) { auto it = msgs.all.find( number( s ) ); return it != msgs.all.end() && it->second == s; }

struct RecSink : log::sink {
	int id;
	RecSink( int i, level l ) : sink( l, {} ), id( i ) {}
	void hande_log_message( level l, const std::string& s ) override {
		sched::event( ev( "deliver" ).set( "s", id ).set( "id", number( s ) ).set( "l", int( l ) ).set( "whole", whole( s ) ) );
		sched::yield();
		sched::event( ev( "handled" ).set( "s", id ) );
	}
	void flush() override { sched::event( ev( "flushed" ).set( "s", id ) ); sched::yield(); }
};
// a stream that lets other threads run between any two pieces of output
struct SlowBuf : std::streambuf {
	std::string got;
	std::streamsize xsputn( const char* s, std::streamsize n ) override { sched::yield(); got.append( s, size_t( n ) ); sched::yield(); return n; }
	int overflow( int c ) override { sched::yield(); if ( c != EOF ) got += char( c ); return 1; }
	int sync() override { sched::yield(); return 0; }
};
static bool time_prefix( const std::string& l ) {
	if ( l.size() < 9 || l[2] != ':' || l[5] != ':' || l[8] != ' ' ) return false;
	for ( int i : { 0, 1, 3, 4, 6, 7 } ) if ( !isdigit( (unsigned char)l[i] ) ) return false;
	return true;
}
static J lines_of( const std::string& txt ) {
	J a = J::arr(); size_t p = 0;
	while ( p < txt.size() ) {
		size_t e = txt.find( '\n', p );
		std::string l = txt.substr( p, e == std::string::npos ? e : e - p );
		bool w = e != std::string::npos && time_prefix( l ) && whole( l.substr( 9 ) );
		a.push( J( long( w ? number( l.substr( 9 ) ) : -1 ) ) );
		if ( e == std::string::npos ) break;
		p = e + 1;
	}
	return a;
}
static std::string slurp( const std::string& f ) { std::ifstream i( f ); std::stringstream s; s << i.rdbuf(); return s.str(); }

static std::string dir;
struct Scen {
	std::vector< std::string > kind;
	std::vector< std::unique_ptr< log::sink > > sinks;
	std::vector< std::unique_ptr< SlowBuf > > bufs;
	std::vector< std::unique_ptr< std::ostream > > streams;
	std::streambuf* old = nullptr;
	Scen( const J& s ) {
		for ( auto& k : s.a ) {
			auto l = level( k["l"].i ); auto& kd = k["kind"].s;
			kind.push_back( kd );
			bufs.emplace_back( new SlowBuf ); streams.emplace_back( new std::ostream( bufs.back().get() ) );
			if ( kd == "rec" ) sinks.emplace_back( new RecSink( int( sinks.size() + 1 ), l ) );
			else if ( kd == "stream" ) sinks.emplace_back( new log::stream_sink( *streams.back(), l ) );
			else if ( kd == "console" ) { old = std::cout.rdbuf( bufs.back().get() ); sinks.emplace_back( new log::console_sink( l ) ); }
			else sinks.emplace_back( new log::file_sink( path( dir + "/sub/dir/log" + std::to_string( sinks.size() ) + ".txt" ), l ) );
		}
	}
	~Scen() { if ( old ) std::cout.rdbuf( old ); }
	void final() {
		for ( size_t i = 0; i < sinks.size(); ++i ) if ( kind[i] != "rec" ) {
			sinks[i]->flush();
			std::string txt = kind[i] == "file" ? slurp( dir + "/sub/dir/log" + std::to_string( i ) + ".txt" ) : bufs[i]->got;
			sched::event( ev( "lines" ).set( "s", long( i + 1 ) ).set( "lines", lines_of( txt ) ) );
		}
		sched::event( ev( "final" ) );
	}
	// one message: form 0 message(), 1 message() in pieces, 2 messagef(), 3 the function named after the level, 4 its f version
	void msg( const J& o ) {
		int id = int( o["id"].i ), n = int( o["n"].i ), f = int( o["f"].i ); auto l = level( o["l"].i );
		std::string s = text( id, n );
		msgs.all[id] = s;
		bool fl = f >= 3 && l >= level::error;
		sched::event( ev( "msg" ).set( "id", id ).set( "l", int( l ) ).set( "fl", fl ) );
		std::string rest = s.substr( std::to_string( id ).size() + 2 );
		const char* c = s.c_str(); const char* r = rest.c_str();
		if ( f == 0 ) log::message( l, s );
		else if ( f == 1 ) log::message( l, "m", id, std::string( ":" ), rest );
		else if ( f == 2 ) log::messagef( l, "m%d:%s", id, r );
		else if ( f == 3 ) switch ( l ) {
			case level::trace: log::trace( s ); break; case level::debug: log::debug( "m", id, ":", rest ); break;
			case level::info: log::info( s ); break; case level::warning: log::warning( "m", id, ":" + rest ); break;
			case level::error: log::error( s ); break; default: log::critical( c ); }
		else switch ( l ) {
			case level::trace: log::tracef( "%s", c ); break; case level::debug: log::debugf( "m%d:%s", id, r ); break;
			case level::info: log::infof( "%s%s", "m", c + 1 ); break; case level::warning: log::warningf( "%s", c ); break;
			case level::error: log::errorf( "m%d%c%s", id, ':', r ); break; default: log::criticalf( "%s", c ); }
		sched::event( ev( "ret" ).set( "v", true ) );
	}
	void one( const J& o ) {
		auto& k = o["op"].s;
		if ( k == "msg" ) return msg( o );
		if ( k == "test" ) {
			sched::event( ev( "test" ).set( "l", o["l"].i ) );
			bool b = log::test_log_level( level( o["l"].i ) );
			sched::event( ev( "ret" ).set( "v", b ) ); return;
		}
		if ( k == "flush" ) { sched::event( ev( "flush_call" ) ); log::flush(); sched::event( ev( "ret" ).set( "v", true ) ); return; }
		auto* s = sinks.at( size_t( o["s"].i - 1 ) ).get();
		if ( k == "get" ) { sched::event( ev( "get" ).set( "s", o["s"].i ).set( "l", int( s->get_log_level() ) ) ); return; }
		J e = o; e.set( "t", who() );
		sched::event( e );
		if ( k == "add" ) log::add_sink( s );
		else if ( k == "rem" ) log::remove_sink( s );
		else if ( k == "lvl" ) s->set_log_level( level( o["l"].i ) );
		else if ( k == "mode" ) s->set_sink_mode( o["all"].b() ? log::sink_mode::all_threads : log::sink_mode::current_thread );
		sched::event( ev( "done" ) );
	}
};

OP( "log" ) {
	std::unique_ptr< Scen > s; long runs = 0;
	T0 = int( c["threads"].a.size() ) + 1;
	auto make = [&] {
		s.reset(); msgs.all.clear();
		s.reset( new Scen( c["sinks"] ) );
		sched::Bodies b;
		for ( auto& q : c["threads"].a ) b.push_back( [&] { for ( auto& o : q.a ) s->one( o ); } );
		return b;
	};
	J h = sched::explore( make, [&] { for ( auto& o : c["after"].a ) s->one( o ); s->final(); }, c["bound"].i, c["max"].i, 1, runs );
	s.reset();
	return vf::ok( J::obj().set( "runs", runs ).set( "hist", h ) );
}
// a sink is made or destroyed while another thread logs
OP( "life" ) {
	long runs = 0; std::unique_ptr< RecSink > s;
	auto make = [&] {
		s.reset(); msgs.all.clear(); msgs.all[1] = "m1:";
		if ( c["destroy"].b() ) s.reset( new RecSink( 1, level::info ) );
		sched::Bodies b;
		b.push_back( [&] { if ( c["destroy"].b() ) s.reset(); else s.reset( new RecSink( 1, level::info ) ); } );
		b.push_back( [] { log::message( level::info, "m1:" ); } );
		return b;
	};
	sched::explore( make, nullptr, 1, 200, 1, runs );
	return vf::ok( J::obj().set( "runs", runs ) );
}
// the text a console sink writes
OP( "console" ) {
	SlowBuf buf; auto* old = std::cout.rdbuf( &buf );
	{
		log::console_sink s( level::trace );
		s.format() = log::format_flags();
		if ( c["time"].b() ) s.format().set( log::format::show_time );
		if ( c["level"].b() ) s.format().set( log::format::show_level );
		log::message( level( c["l"].i ), c["text"].text() );
	}
	std::cout.rdbuf( old );
	J a = J::arr(); size_t p = 0;
	auto codes = []( const std::string& t ) { J x = J::arr(); for ( unsigned char ch : t ) x.push( int( ch ) ); return x; };
	while ( p < buf.got.size() ) {
		size_t e = buf.got.find( '\n', p );
		if ( e == std::string::npos ) { a.push( J( "(no end of line)" ) ); break; }
		std::string l = buf.got.substr( p, e - p );
		if ( c["time"].b() ) l = time_prefix( l ) ? l.substr( 9 ) : "(no time)";
		a.push( codes( l ) );
		p = e + 1;
	}
	return vf::ok( a );
}
// a file that cannot be opened
OP( "badfile" ) {
	log::file_sink s( path( dir ), level::trace );
	log::message( level::info, "text" );
	return vf::ok( J( s.file_stream().good() ) );
}
int main() {
	char d[] = "logXXXXXX";
	if ( !mkdtemp( d ) ) return 97;
	dir = std::filesystem::absolute( d ).string();
	int r = vf::main_loop();
	std::filesystem::remove_all( dir );
	return r;
}
