#include "vf.h"
#include "xo/container/label_vector.h"
#include "xo/container/storage.h"
#include "xo/container/storage_tools.h"
#include "xo/container/table.h"
#include "xo/geometry/vec3.h"
#include "xo/geometry/quat.h"
#include "xo/numerical/constants.h"
#include "xo/system/debug_storage.h"
#include "xo/utility/data_algorithms.h"
#include <fstream>
#include <memory>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>
using namespace xo;
using std::string;
static const char* All[] = { "a", "b", "c", "d", "p.x", "" };

static long pos( index_t i ) { return i == no_index ? -1 : long( i ); }
static J jnum( double v ) { return v == (long long)v ? J( (long long)v ) : J( std::to_string( v ) ); }
template< typename V > J nums( const V& v ) { J r = J::arr(); for ( auto& x : v ) r.push( jnum( x ) ); return r; }
static string sep_text( string s, const string& sep ) { string r; for ( char x : s ) if ( x == '\t' ) r += sep; else r += x; return r; }
static string tmp_file() { char n[] = "/tmp/vftabXXXXXX"; int fd = mkstemp( n ); if ( fd < 0 ) exit( 97 ); close( fd ); unlink( n ); return n; }
static string file_text( const string& n ) { std::ifstream f( n ); std::stringstream s; s << f.rdbuf(); return s.str(); }
template< typename T > string written( const T& t ) { std::stringstream s; s << t; return s.str(); }

struct If { virtual ~If() {} virtual J run( const string& op, const J& c ) = 0; virtual J obs() = 0; };

struct Lv : If {
	label_vector<string> v;
	J run( const string& op, const J& c ) override {
		if ( op == "make" ) {
			auto& l = c["ls"].a;
			if ( c["how"].s == "vector" ) { std::vector<string> s; for ( auto& x : l ) s.push_back( x.s ); v = label_vector<string>( s ); }
			else switch ( l.size() ) {
			case 0: v = label_vector<string>( std::initializer_list<string>{} ); break;
			case 1: v = label_vector<string>( { l[0].s } ); break;
			case 2: v = label_vector<string>( std::initializer_list<string>{ l[0].s, l[1].s } ); break;
			case 3: v = label_vector<string>( std::initializer_list<string>{ l[0].s, l[1].s, l[2].s } ); break;
			default: exit( 97 );
			}
			return ok();
		}
		if ( op == "add_col" ) return ok( pos( v.add( c["l"].s ) ) );
		if ( op == "goa_col" ) return ok( pos( v.find_or_add( c["l"].s ) ) );
		if ( op == "find" ) return ok( pos( v.find_or_throw( c["l"].s ) ) );
		if ( op == "set_label" ) { auto i = v.set( c["i"].i, c["l"].s ); if ( long( i ) != c["i"].i ) return ok( pos( i ) ); return ok(); }
		if ( op == "clear" ) { v.clear(); return ok(); }
		if ( op == "resize" ) { if ( c["c"].i % 2 ) v.reserve( 10 ); v.resize( c["c"].i ); return ok(); }
		exit( 97 );
	}
	J obs() override {
		J cl = J::arr(), cf = J::arr(), rf = J::arr();
		for ( auto& l : v ) cl.push( l );
		for ( size_t i = 0; i < v.size(); ++i ) if ( v[i] != cl[i].s ) cl.push( "index" );
		for ( auto n : All ) { cf.push( pos( v.find( n ) ) ); rf.push( -1 ); }
		return J::obj().set( "cl", cl ).set( "rl", J::arr() ).set( "g", J::arr() ).set( "cf", cf ).set( "rf", rf ).set( "empty", true );
	}
};

template< typename T > struct Sto : If {
	storage<T> s;
	const storage<T>& cs() { return s; }
	J grid( const storage<T>& s ) {
		J g = J::arr();
		for ( size_t i = 0; i < s.frame_size(); ++i ) {
			J r = J::arr();
			for ( size_t j = 0; j < s.channel_size(); ++j ) {
				r.push( jnum( s( i, j ) ) );
				if ( s( i, j ) != s[i][j] ) r.push( "frame" );
				if ( j < s.labels().size() && !s.get_label( j ).empty() && s[i][s.get_label( j )] != s( i, j ) ) r.push( "label" );
				if ( s.get_channel( j )[i] != s( i, j ) ) r.push( "channel" );
			}
			g.push( r );
		}
		if ( s.frame_size() && s.channel_size() && ( s.front()[0] != s( 0, 0 ) || s.back()[0] != s( s.frame_size() - 1, 0 ) ) ) g.push( "front/back" );
		if ( s.data().size() != s.frame_size() * s.channel_size() ) g.push( "size" );
		return g;
	}
	J labels( const storage<T>& s ) { J l = J::arr(); for ( size_t j = 0; j < s.channel_size(); ++j ) l.push( s.get_label( j ) ); return l; }
	J content( const storage<T>& s ) { return J::obj().set( "cl", labels( s ) ).set( "rl", J::arr() ).set( "g", grid( s ) ); }
	bool all_labelled() { for ( auto& l : s.labels() ) if ( l.empty() ) return false; return true; }
	std::vector<T> data( const J& d ) { std::vector<T> v; for ( auto& x : d.a ) v.push_back( T( x.i ) ); return v; }
	J frame( typename storage<T>::frame f ) { J r = J::arr(); for ( size_t j = 0; j < s.channel_size(); ++j ) r.push( jnum( f[j] ) ); return r; }
	J run( const string& op, const J& c ) override {
		T v = c.has( "v" ) ? T( c["v"].i ) : T();
		size_t i = c.has( "i" ) ? c["i"].i : 0, j = c.has( "j" ) ? c["j"].i : 0;
		if ( op == "make" ) { s = storage<T>( c["r"].i, c["c"].i, v ); return ok(); }
		if ( op == "add_col" ) return ok( pos( s.add_channel( c["l"].s, v ) ) );
		if ( op == "add_col_data" ) return ok( pos( s.add_channel( c["l"].s, data( c["d"] ) ) ) );
		if ( op == "goa_col" ) return ok( pos( s.find_or_add_channel( c["l"].s, v ) ) );
		if ( op == "find" ) return ok( pos( s.find_channel( c["l"].s ) ) );
		if ( op == "set_label" ) { s.set_label( i, c["l"].s ); return ok(); }
		if ( op == "add_frame" ) return ok( frame( s.add_frame( v ) ) );
		if ( op == "add_frame_data" ) return ok( frame( s.add_frame( data( c["d"] ) ) ) );
		if ( op == "clear" ) { s.clear(); return ok(); }
		if ( op == "resize" ) { s.resize( c["r"].i, c["c"].i, v ); return ok(); }
		if ( op == "set" ) { if ( i >= s.frame_size() || j >= s.channel_size() ) return fail(); if ( i % 2 ) s[i][j] = v; else s( i, j ) = v; return ok( jnum( s( i, j ) ) ); }
		if ( op == "set_back" ) { if ( !s.frame_size() || j >= s.channel_size() ) return fail(); s.back()[j] = v; return ok( jnum( cs().back()[j] ) ); }
		if ( op == "fset" ) { if ( i >= s.frame_size() ) return fail(); s[i][c["l"].s] = v; return ok( jnum( cs()[i][c["l"].s] ) ); }
		if ( op == "fget" ) { if ( i >= s.frame_size() ) return fail(); return ok( jnum( cs()[i][c["l"].s] ) ); }
		if ( op == "vec" ) {
			if ( i >= s.frame_size() ) return fail();
			auto f = s[i];
			J r = J::arr();
			if ( c["q"].b() ) {
				write<T>( f, "p", quat_<T>( v + 3, v, v + 1, v + 2 ) );
				quat_<T> q; auto cf = cs()[i]; read<T>( cf, "p", q );
				return ok( r.push( jnum( q.x ) ).push( jnum( q.y ) ).push( jnum( q.z ) ).push( jnum( q.w ) ) );
			}
			write<T>( f, "p", vec3_<T>( v, v + 1, v + 2 ) );
			vec3_<T> q; auto cf = cs()[i]; read<T>( cf, "p", q );
			return ok( r.push( jnum( q.x ) ).push( jnum( q.y ) ).push( jnum( q.z ) ) );
		}
		if ( op == "channel" ) return ok( nums( s.get_channel( c["l"].s ) ) );
		if ( op == "interp" ) { if ( j >= s.channel_size() ) return fail(); return ok( jnum( 4 * s.get_interpolated_value( T( c["q"].i ) / 4, j ) ) ); }
		if ( op == "nearest" ) {
			if ( s.frame_size() && s.channel_size() ) {
				if ( j >= s.channel_size() ) return fail();
				for ( size_t k = 1; k < s.frame_size(); ++k ) if ( s( k, j ) < s( k - 1, j ) ) return fail();
			}
			auto k = find_frame_index( s, T( c["x"].i ), j );
			if ( k == no_index ) return ok( -1 );
			if ( k >= s.frame_size() ) return ok( "beyond" );
			return ok( jnum( std::abs( double( s( k, j ) - T( c["x"].i ) ) ) ) );
		}
		if ( op == "cov" ) {
			auto n = s.frame_size();
			if ( n != 1 && n != 2 && n != 4 ) return fail();
			auto m = compute_channel_means( s );
			for ( auto& x : m ) x *= n;
			auto t = compute_covariance( s );
			J cv = J::arr();
			for ( size_t a = 0; a < s.channel_size(); ++a ) { J r = J::arr(); for ( size_t b = 0; b < s.channel_size(); ++b ) r.push( jnum( t( a, b ) * n * n * n ) ); cv.push( r ); }
			return ok( J::obj().set( "mean", nums( m ) ).set( "cov", cv ) );
		}
		if ( op == "text" ) return ok( written( s ) );
		if ( op == "file" ) {
			auto n = tmp_file();
			{ file_storage<T> f{ path( n ) }; static_cast<storage<T>&>( f ) = s; }
			auto t = file_text( n );
			unlink( n.c_str() );
			return ok( t );
		}
		if ( op == "reread" ) {
			if ( !all_labelled() || !s.channel_size() ) return fail();
			std::stringstream str( sep_text( written( s ), c["sep"].s ) );
			storage<T> r;
			str >> r;
			return ok( content( r ) );
		}
		exit( 97 );
	}
	J obs() override {
		J cf = J::arr(), rf = J::arr();
		for ( auto n : All ) { cf.push( pos( s.try_find_channel( n ) ) ); rf.push( -1 ); }
		return J::obj().set( "cl", labels( s ) ).set( "rl", J::arr() ).set( "g", grid( s ) ).set( "cf", cf ).set( "rf", rf ).set( "empty", s.empty() );
	}
};

struct Tab : If {
	using Tb = table<int>;
	Tb t;
	const Tb& ct() { return t; }
	J content( const Tb& t, bool plain = false ) {
		// the labels are only visible through the written text
		std::stringstream str( written( t ) );
		string line, w;
		J cl = J::arr(), rl = J::arr(), g = J::arr();
		auto split = []( const string& l ) { std::vector<string> v( 1 ); for ( char x : l ) if ( x == '\t' ) v.emplace_back(); else v.back() += x; return v; };
		std::getline( str, line );
		auto h = split( line );
		for ( size_t i = 1; i < h.size(); ++i ) cl.push( h[i] );
		for ( size_t i = 0; i < t.row_size(); ++i ) {
			std::getline( str, line );
			auto h = split( line );
			rl.push( h[0] );
			J r = J::arr();
			for ( size_t j = 0; j < t.column_size(); ++j ) { r.push( t( i, j ) ); if ( j + 1 >= h.size() || h[j + 1] != std::to_string( t( i, j ) ) ) r.push( "text" ); }
			g.push( r );
		}
		return J::obj().set( "cl", cl ).set( "rl", rl ).set( "g", g );
	}
	J run( const string& op, const J& c ) override {
		int v = c.has( "v" ) ? int( c["v"].i ) : 0;
		size_t i = c.has( "i" ) ? c["i"].i : 0, j = c.has( "j" ) ? c["j"].i : 0;
		if ( op == "make" ) { t = Tb( c["r"].i, c["c"].i ); return ok(); }
		if ( op == "add_col" ) return ok( pos( t.add_column( c["l"].s, v ) ) );
		if ( op == "add_row" ) return ok( pos( t.add_row( c["l"].s, v ) ) );
		if ( op == "goa_col" ) return ok( pos( t.get_or_add_column( c["l"].s, v ) ) );
		if ( op == "goa_row" ) return ok( pos( t.get_or_add_row( c["l"].s, v ) ) );
		if ( op == "resize" ) { t.resize( c["r"].i, c["c"].i, v ); return ok(); }
		if ( op == "set" ) { t( i, j ) = v; return ok( ct()( i, j ) ); }
		if ( op == "set_back" ) { if ( !t.row_size() ) return fail(); t.back_row( j ) = v; return ok( ct().back_row( j ) ); }
		if ( op == "lset" ) { t( c["m"].s, c["l"].s ) = v; return ok( ct()( c["m"].s, c["l"].s ) ); }
		if ( op == "lget" ) return ok( ct()( c["m"].s, c["l"].s ) );
		if ( op == "fget" ) return ok( ct()( i, c["l"].s ) );
		if ( op == "text" ) return ok( written( t ) );
		if ( op == "reread" ) {
			auto k = content( t );
			for ( auto& x : k["cl"].a ) if ( x.s.empty() ) return fail();
			for ( auto& x : k["rl"].a ) if ( x.s.empty() ) return fail();
			std::stringstream str( sep_text( written( t ), c["sep"].s ) );
			auto r = content( read_table<int>( str ) );
			auto n = tmp_file();
			{ std::ofstream f( n ); f << t; }
			auto r2 = content( load_table<int>( path( n ) ) );
			unlink( n.c_str() );
			if ( r.dump() != r2.dump() ) return ok( "file differs" );
			return ok( r );
		}
		exit( 97 );
	}
	J obs() override {
		J o = content( t );
		J cf = J::arr(), rf = J::arr();
		for ( auto n : All ) { cf.push( pos( t.find_column( n ) ) ); rf.push( pos( t.find_row( n ) ) ); }
		return o.set( "cf", cf ).set( "rf", rf ).set( "empty", t.empty() );
	}
};

static std::unique_ptr<If> f;
static const char* ops[] = { "make", "add_col", "add_row", "add_col_data", "goa_col", "goa_row", "find", "set_label", "add_frame", "add_frame_data", "clear", "resize",
	"set", "set_back", "fset", "fget", "lset", "lget", "vec", "channel", "interp", "nearest", "cov", "text", "file", "reread" };
// write_debug writes when the process ends
OP( "debug" ) {
	auto n = tmp_file();
	if ( auto p = fork() ) { int st; waitpid( p, &st, 0 ); if ( st ) return ok( "child failed" ); }
	else {
		close( 0 );
		set_debug_output( path( n ) );
		for ( auto& w : c["w"].a ) write_debug( w["l"].s, float( w["v"].i ) );
		exit( 0 );
	}
	auto none = written( constants<float>::sentinel() );
	std::stringstream str( file_text( n ) );
	unlink( n.c_str() );
	J cl = J::arr(), g = J::arr();
	string line, x;
	std::getline( str, line );
	{ std::stringstream l( line ); while ( std::getline( l, x, '\t' ) ) cl.push( x ); }
	while ( std::getline( str, line ) ) { J r = J::arr(); std::stringstream l( line ); while ( std::getline( l, x, '\t' ) ) r.push( x == none ? -999 : atoi( x.c_str() ) ); g.push( r ); }
	return ok( J::obj().set( "cl", cl ).set( "rl", J::arr() ).set( "g", g ) );
}
int main() {
	vf::on_reset() = []( const J& c ) {
		auto& k = c["kind"].s;
		if ( k == "lv" ) f.reset( new Lv ); else if ( k == "tab" ) f.reset( new Tab );
		else f.reset( new Sto<double> );
	};
	vf::on_obs() = [] { return f->obs(); };
	for ( auto n : ops ) vf::ops()[n] = [n]( const J& c ) { return f->run( n, c ); };
	return vf::main_loop();
}
