#include "xo/xo_types.h"
#include "vf.h"
#include "xo/serialization/char_stream.h"
#include <memory>
using namespace xo;
using std::string;

static std::unique_ptr<char_stream> cs;
static std::unique_ptr<char[]> buf;
static int flip;
static bool odd = false;
static std::vector<string> strs( const J& l ) { std::vector<string> r; for ( auto& e : l.a ) r.push_back( e.text() ); return r; }

template<typename T> J rd() { T v{}; *cs >> v; return ok( int( v ) ); }
OP( "int" ) { switch ( flip++ % 3 ) { case 0: return rd<int>(); case 1: return rd<long>(); default: return rd<long long>(); } }
OP( "uint" ) { switch ( flip++ % 3 ) { case 0: return rd<unsigned int>(); case 1: return rd<unsigned long>(); default: return rd<unsigned long long>(); } }
OP( "opt" ) { optional<int> v = 77; *cs >> v; return v ? ok( int( *v ) ) : fail(); }
OP( "token" ) { if ( flip++ % 2 ) { string s = "left over"; *cs >> s; return ok( codes( s ) ); } return ok( codes( cs->get_token() ) ); }
OP( "line" ) { return ok( codes( cs->get_line() ) ); }
OP( "getc" ) { return ok( int( (unsigned char)cs->getc() ) ); }
OP( "peekc" ) { return ok( int( (unsigned char)cs->peekc() ) ); }
OP( "seek" ) { return ok( cs->seek( c["x"].text() ) ); }
OP( "seek_past" ) { return ok( cs->seek_past( c["x"].text() ) ); }
OP( "try_str" ) { return ok( cs->try_get( c["x"].text() ) ); }
OP( "try_char" ) { return ok( cs->try_get( char( int( c["c"] ) ) ) ); }
OP( "set_ops" ) { cs->set_operators( strs( c["l"] ) ); return ok(); }
OP( "set_delims" ) { cs->set_delimiter_chars( c["x"].text() ); return ok(); }
OP( "set_quotes" ) { cs->set_quotation_chars( c["x"].text() ); return ok(); }

int main() {
	vf::on_reset() = []( const J& c ) {
		string s = c["s"].text(), d = c["d"].text(), q = c["q"].text();
		auto o = strs( c["o"] );
		cs.reset();
		flip = int( s.size() );
		odd = !odd;
		if ( odd || s.find( '\0' ) != string::npos )
			cs.reset( new char_stream( std::move( s ), d, q, o ) );
		else {
			buf.reset( new char[s.size() + 1] );
			memcpy( buf.get(), s.c_str(), s.size() + 1 );
			cs.reset( new char_stream( buf.get(), d, q, o ) );
		}
	};
	vf::on_obs() = [] {
		return J::obj().set( "good", cs->good() ).set( "eof", cs->eof() ).set( "fail", cs->fail() ).set( "line", int( cs->line_number() ) ).set( "q", cs->token_quoted() );
	};
	return vf::main_loop();
}
