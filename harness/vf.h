// Conformance driver runtime: a JSON-lines interpreter around the public API of xo.
// Every driver registers one handler per specification action.  A line {"op":"x",...} executes the
// action on the real object and prints {"ret":...,"obs":...}: the result of the call, and the projection
// of the real object on the variables of the specification.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <utility>
#include <vector>
#include <exception>
#include <stdexcept>

namespace vf
{
	struct J
	{
		enum T { Nul, Bool, Int, Str, Arr, Obj } t = Nul;
		long long i = 0;
		std::string s;
		std::vector< J > a;
		std::vector< std::pair< std::string, J > > o;

		J() {}
		J( bool v ) : t( Bool ), i( v ) {}
		J( int v ) : t( Int ), i( v ) {}
		J( unsigned v ) : t( Int ), i( v ) {}
		J( long v ) : t( Int ), i( v ) {}
		J( long long v ) : t( Int ), i( v ) {}
		J( unsigned long v ) : t( Int ), i( (long long)v ) {}
		J( unsigned long long v ) : t( Int ), i( (long long)v ) {}
		J( const char* v ) : t( Str ), s( v ) {}
		J( const std::string& v ) : t( Str ), s( v ) {}
		template< typename X > J( const std::vector< X >& v ) : t( Arr ) { for ( const auto& e : v ) a.push_back( J( e ) ); }
		static J arr() { J j; j.t = Arr; return j; }
		static J obj() { J j; j.t = Obj; return j; }
		J& push( J v ) { t = Arr; a.push_back( std::move( v ) ); return *this; }
		J& set( const std::string& k, J v ) { t = Obj; o.emplace_back( k, std::move( v ) ); return *this; }
		bool has( const std::string& k ) const { for ( auto& p : o ) if ( p.first == k ) return true; return false; }
		const J& operator[]( const std::string& k ) const {
			for ( auto& p : o ) if ( p.first == k ) return p.second;
			fprintf( stderr, "HARNESS: missing field %s\n", k.c_str() ); exit( 97 );
		}
		const J& operator[]( const char* k ) const { return ( *this )[std::string( k )]; }
		const J& operator[]( size_t n ) const { return a.at( n ); }
		const J& operator[]( int n ) const { return a.at( n ); }
		size_t size() const { return a.size(); }
		operator int() const { return int( i ); }
		long long num() const { return i; }
		bool b() const { return i != 0; }
		const std::string& str() const { return s; }
		// text is represented in the specifications as a sequence of byte codes
		std::string text() const {
			if ( t == Str ) return s;
			std::string r; for ( auto& e : a ) r += char( (unsigned char)e.i ); return r;
		}
		void print( std::string& out ) const {
			switch ( t ) {
			case Nul: out += "null"; break;
			case Bool: out += i ? "true" : "false"; break;
			case Int: out += std::to_string( i ); break;
			case Str:
				out += '"';
				for ( unsigned char c : s ) {
					if ( c == '"' || c == '\\' ) { out += '\\'; out += char( c ); }
					else if ( c < 32 || c >= 127 ) { char b[8]; snprintf( b, 8, "\\u%04x", c ); out += b; }
					else out += char( c );
				}
				out += '"'; break;
			case Arr: {
				out += '['; bool f = true;
				for ( auto& e : a ) { if ( !f ) out += ','; f = false; e.print( out ); }
				out += ']'; break; }
			case Obj: {
				out += '{'; bool f = true;
				for ( auto& e : o ) { if ( !f ) out += ','; f = false; J( e.first ).print( out ); out += ':'; e.second.print( out ); }
				out += '}'; break; }
			}
		}
		std::string dump() const { std::string r; print( r ); return r; }
	};

	// text as a sequence of byte codes
	inline J codes( const std::string& s ) { J j = J::arr(); for ( unsigned char c : s ) j.push( J( int( c ) ) ); return j; }

	struct Parser
	{
		const char* p; const char* e;
		void ws() { while ( p < e && ( *p == ' ' || *p == '\t' || *p == '\n' || *p == '\r' ) ) ++p; }
		[[noreturn]] void bad() { fprintf( stderr, "HARNESS: bad json near: %.40s\n", p ); exit( 97 ); }
		J parse() {
			ws(); if ( p >= e ) bad();
			J j;
			if ( *p == '{' ) {
				j.t = J::Obj; ++p; ws();
				if ( *p == '}' ) { ++p; return j; }
				for ( ;; ) {
					ws(); J k = parse(); ws(); if ( *p != ':' ) bad(); ++p;
					J v = parse(); j.o.emplace_back( k.s, std::move( v ) ); ws();
					if ( *p == ',' ) { ++p; continue; } if ( *p == '}' ) { ++p; break; } bad();
				}
			}
			else if ( *p == '[' ) {
				j.t = J::Arr; ++p; ws();
				if ( *p == ']' ) { ++p; return j; }
				for ( ;; ) {
					j.a.push_back( parse() ); ws();
					if ( *p == ',' ) { ++p; continue; } if ( *p == ']' ) { ++p; break; } bad();
				}
			}
			else if ( *p == '"' ) {
				j.t = J::Str; ++p;
				while ( p < e && *p != '"' ) {
					if ( *p == '\\' ) {
						++p;
						switch ( *p ) {
						case 'n': j.s += '\n'; break; case 't': j.s += '\t'; break; case 'r': j.s += '\r'; break;
						case 'b': j.s += '\b'; break; case 'f': j.s += '\f'; break;
						case 'u': { j.s += char( strtol( std::string( p + 1, 4 ).c_str(), 0, 16 ) ); p += 4; break; }
						default: j.s += *p;
						}
						++p;
					}
					else j.s += *p++;
				}
				++p;
			}
			else if ( !strncmp( p, "true", 4 ) ) { j = J( true ); p += 4; }
			else if ( !strncmp( p, "false", 5 ) ) { j = J( false ); p += 5; }
			else if ( !strncmp( p, "null", 4 ) ) { p += 4; }
			else {
				char* q; j.t = J::Int; j.i = strtoll( p, &q, 10 ); if ( q == p ) bad();
				p = q; if ( *p == '.' || *p == 'e' ) bad();
			}
			return j;
		}
	};
	inline J parse( const std::string& s ) { Parser p{ s.data(), s.data() + s.size() }; return p.parse(); }

	using handler = std::function< J( const J& ) >;
	inline std::map< std::string, handler >& ops() { static std::map< std::string, handler > m; return m; }
	inline std::function< void( const J& ) >& on_reset() { static std::function< void( const J& ) > f; return f; }
	inline std::function< J() >& on_obs() { static std::function< J() > f; return f; }
	struct Reg { Reg( const char* n, handler h ) { ops()[n] = std::move( h ); } };

	// results: a call that throws is the record [ok |-> FALSE], otherwise [ok |-> TRUE, v |-> value]
	inline J ok() { return J::obj().set( "ok", true ); }
	inline J ok( J v ) { return J::obj().set( "ok", true ).set( "v", std::move( v ) ); }
	inline J fail() { return J::obj().set( "ok", false ); }

	inline int main_loop( FILE* in = stdin, FILE* out = stdout ) {
		std::string line; int c;
		bool eof = false;
		while ( !eof ) {
			line.clear();
			while ( ( c = getc_unlocked( in ) ) != EOF && c != '\n' ) line += char( c );
			eof = c == EOF;
			if ( line.empty() ) continue;
			J cmd = parse( line );
			const std::string& op = cmd["op"].s;
			J rep = J::obj();
			if ( op == "reset" ) {
				if ( on_reset() ) on_reset()( cmd );
				rep.set( "ret", ok() );
			}
			else {
				auto it = ops().find( op );
				if ( it == ops().end() ) { fprintf( stderr, "HARNESS: unknown op %s\n", op.c_str() ); exit( 97 ); }
				try { rep.set( "ret", it->second( cmd ) ); }
				catch ( std::exception& ) { rep.set( "ret", fail() ); }
			}
			if ( on_obs() ) rep.set( "obs", on_obs()() );
			std::string s = rep.dump(); s += '\n';
			fwrite( s.data(), 1, s.size(), out );
			fflush( out );
		}
		return 0;
	}
}

#define VF_CAT2( a, b ) a##b
#define VF_CAT( a, b ) VF_CAT2( a, b )
#define OP( NAME ) static vf::J VF_CAT( vf_op_, __LINE__ )( const vf::J& c ); \
	static vf::Reg VF_CAT( vf_reg_, __LINE__ )( NAME, VF_CAT( vf_op_, __LINE__ ) ); \
	static vf::J VF_CAT( vf_op_, __LINE__ )( const vf::J& c )
using vf::J;
using vf::ok;
using vf::fail;
using vf::codes;
