#include "vf.h"
#include "xo/system/assert.h"
#include "xo/container/view_if.h"
#include "xo/container/zip.h"
#include "xo/numerical/average.h"
#include "xo/numerical/bounded.h"
#include "xo/numerical/bounds.h"
#include "xo/numerical/delayer.h"
#include "xo/numerical/delta.h"
#include "xo/numerical/function_tools.h"
#include "xo/numerical/piecewise_constant_function.h"
#include "xo/numerical/piecewise_linear_function.h"
#include "xo/numerical/regular_piecewise_linear_function.h"
#include "xo/utility/cached_var.h"
#include "xo/utility/frange.h"
#include "xo/utility/index.h"
#include "xo/utility/irange.h"
#include "xo/utility/optional.h"
#include "xo/utility/result.h"
#include <cmath>
#include <list>
#include <memory>
#include <optional>
using vf::J;
using std::string;
using std::vector;

constexpr int none = -1000;
constexpr double Q = 840;
// only exact results are expected: anything else shows
static J whole( double v ) { return std::isfinite( v ) && std::abs( v ) < 1e9 && std::abs( v - std::round( v ) ) < 1e-4 ? J( (long)std::llround( v ) ) : J( std::isfinite( v ) && std::abs( v ) < 1e9 ? long( std::floor( v ) ) * 1000 + 777 : -777777L ); }

struct tag {};
template< typename T > T cast( int v ) { return T( v ); }
template<> int cast( int v ) { return v == none ? xo::constants<int>::sentinel() : v; }
template<> double cast( int v ) { return v == none ? NAN : v; }
template<> string cast( int v ) { return v == 0 ? "" : "value " + std::to_string( v ); }
template< typename T > int uncast( const T& v ) { return int( v ); }
template<> int uncast( const string& v ) { return v.empty() ? 0 : std::stoi( v.substr( 6 ) ); }

struct any_optional {
	virtual ~any_optional() {}
	virtual J call( const string& f, const J& c ) = 0;
};
template< typename T > struct optionals : any_optional {
	std::unique_ptr< xo::optional< T > > x[2] = { std::make_unique< xo::optional< T > >(), std::make_unique< xo::optional< T > >() };
	J see() {
		J has = J::arr(), v = J::arr(), other = J::arr(), one = J::arr();
		for ( auto& o : x ) {
			auto& a = *o;
			bool h = bool( a );
			has.push( h );
			v.push( h ? uncast( *a ) == uncast( *a.operator->() ) && *std::as_const( a ) == *a ? uncast( a.value() ) : -1 : none );
			other.push( uncast( a.value_or( cast<T>( 1 ) ) ) );
			bool e = a == cast<T>( 1 );
			one.push( ( cast<T>( 1 ) == a ) == e && ( a != cast<T>( 1 ) ) == !e && ( cast<T>( 1 ) != a ) == !e ? J( e ) : J( "differs" ) );
		}
		auto &a = *x[0], &b = *x[1];
		bool e = a == b;
		return ok( J::obj().set( "has", has ).set( "v", v ).set( "orElse", other ).set( "same", ( b == a ) == e && ( a != b ) == !e ? J( e ) : J( "differs" ) ).set( "one", one ) );
	}
	J call( const string& f, const J& c ) override {
		auto &a = x[ c["i"] - 1 ], &b = x[ 2 - c["i"] ];
		if ( f == "new" ) a = std::make_unique< xo::optional< T > >();
		else if ( f == "make" ) { const T v = cast<T>( c["v"] ); a = c["v"] % 2 ? std::make_unique< xo::optional< T > >( v ) : std::make_unique< xo::optional< T > >( cast<T>( c["v"] ) ); }
		else if ( f == "set" ) { const T v = cast<T>( c["v"] ); if ( c["v"] % 2 ) *a = v; else *a = cast<T>( c["v"] ); }
		else if ( f == "reset" ) a->reset();
		else if ( f == "copy" ) a = std::make_unique< xo::optional< T > >( *b );
		else if ( f == "assign" ) *a = *b;
		else if ( f == "value" ) return ok( uncast( a->value() ) );
		else if ( f == "edit" ) { if ( !*a ) return fail(); **a = cast<T>( c["v"] ); }
		return see();
	}
};
struct any_index {
	virtual ~any_index() {}
	virtual J call( const string& f, const J& c ) = 0;
};
template< typename I > struct indices : any_index {
	using ix = xo::index_class< tag, I >;
	std::unique_ptr< ix > x[2] = { std::make_unique< ix >(), std::make_unique< ix >() };
	J see() {
		auto &a = *x[0], &b = *x[1];
		J has = J::arr(), v = J::arr();
		for ( auto& i : x ) { has.push( bool( *i ) ); v.push( *i ? (long)i->value() : (long)none ); }
		bool lt = a < b, gt = a > b, eq = a == b;
		bool fine = ( a <= b ) == !gt && ( a >= b ) == !lt && ( a != b ) == !eq && lt + gt + eq == 1;
		return ok( J::obj().set( "has", has ).set( "v", v ).set( "lt", fine ? J( lt ) : J( "differs" ) ).set( "gt", gt ).set( "eq", eq ) );
	}
	J call( const string& f, const J& c ) override {
		if ( f == "span" ) {
			xo::index_span< tag, I > s( *x[0], *x[1] );
			J v = J::arr();
			for ( auto i : s ) v.push( (long)i.value() );
			return ok( J::obj().set( "v", v ).set( "n", (long)s.size() ).set( "empty", s.empty() ) );
		}
		auto &a = x[ c["i"] - 1 ], &b = x[ 2 - c["i"] ];
		if ( f == "new" ) {
			auto& w = c["f"].s;
			a = w == "none" ? std::make_unique< ix >() : w == "int" ? std::make_unique< ix >( int( c["v"] ) ) : w == "size" ? std::make_unique< ix >( size_t( c["v"].num() ) ) : std::make_unique< ix >( I( c["v"].num() ) );
			if ( w == "none" ) { *a = ix( I( 3 ) ); a->reset(); }
		}
		else if ( f == "copy" ) a = std::make_unique< ix >( *b );
		else if ( f == "assign" ) { const ix& r = *b; *a = r; }
		else if ( f == "move" ) a = std::make_unique< ix >( std::move( *b ) );
		else if ( f == "move_assign" ) *a = std::move( *b );
		else if ( f == "inc" ) { if ( c["post"].b() ) { ix o = *a; if ( ( *a )++ != o ) return fail(); } else if ( &++*a != a.get() ) return fail(); }
		else if ( f == "add" ) { int v = c["v"]; ix r = v < 0 ? *b - I( -v ) : *b + I( v ); *a = r; }
		return see();
	}
};
using small = xo::bounded< int, -2, 3 >;
struct delay_line { virtual ~delay_line() {} virtual double add( int v, int dt, bool call ) = 0; virtual double now() = 0; };
template< typename D > struct delay_of : delay_line {
	delay_of( float d, float v ) : x( d, v ) {}
	D x;
	double add( int v, int dt, bool call ) override { if ( call ) return x( float( v ), dt / 8.0f ); x.add_sample( float( v ), dt / 8.0f ); return x(); }
	double now() override { return x.delayed_value(); }
};
template< int N > delay_line* make_delay( int w, int v, bool smooth ) {
	if ( smooth ) return new delay_of< xo::smooth_delayer< float, N > >( w / 8.0f * ( N - 0.5f ), float( v ) );
	return new delay_of< xo::delayer< float, N > >( w / 8.0f * ( N - 1 ), float( v ) );
}

struct {
	std::unique_ptr< xo::cached_var< int, int > > cv;
	xo::delta< int > dl;
	xo::averaged av;
	std::map< string, std::shared_ptr< any_optional > > op;
	std::unique_ptr< xo::result< int > > rs[2];
	xo::error_message em;
	std::map< string, std::shared_ptr< any_index > > ix;
	std::unique_ptr< small > bd;
	xo::bounds< int > bo;
	xo::piecewise_constant_function< double > pc;
	xo::piecewise_linear_function< double > pl;
	std::unique_ptr< delay_line > dy;
	double dy_scale;
} * S = nullptr;
struct Init { Init() { vf::on_reset() = []( const J& ) {
	delete S; S = new std::remove_reference_t< decltype( *S ) >();
	S->cv = std::make_unique< xo::cached_var< int, int > >( 0, 7 );
	S->op["int"] = std::make_shared< optionals< int > >(); S->op["double"] = std::make_shared< optionals< double > >();
	S->op["bool"] = std::make_shared< optionals< bool > >(); S->op["string"] = std::make_shared< optionals< string > >();
	for ( auto& r : S->rs ) r = std::make_unique< xo::result< int > >();
	S->ix["u8"] = std::make_shared< indices< uint8_t > >(); S->ix["u32"] = std::make_shared< indices< xo::uint32 > >();
	S->bd = std::make_unique< small >();
	S->dy.reset( make_delay< 2 >( 4, 0, false ) ); S->dy_scale = 4;
}; } } init_;

OP( "cv_new" ) { S->cv = std::make_unique< xo::cached_var< int, int > >( c["t"], c["n"] ); return ok(); }
OP( "cv" ) {
	bool called = false;
	int v = ( *S->cv )( c["t"], [&]() { called = true; if ( c["n"] == none ) throw std::runtime_error( "no value" ); return int( c["n"] ); } );
	return ok( J::obj().set( "v", v ).set( "called", called ) );
}
OP( "dl_new" ) { S->dl = c["v"] == 0 ? xo::delta< int >() : xo::delta< int >( c["v"] ); return ok(); }
OP( "dl" ) { return ok( S->dl( c["v"] ) ); }
static J see_av() { return J::obj().set( "empty", S->av.empty() ).set( "mean", whole( S->av.get() * Q ) ); }
OP( "av_add" ) { if ( c["w"] == 1 ) S->av.add( int( c["v"] ) ); else S->av.add( int( c["v"] ), int( c["w"] ) ); return ok( see_av() ); }
OP( "av_reset" ) { S->av.reset(); return ok( see_av() ); }
#define OPT( N ) OP( "op_" N ) { return S->op[ c["k"].s ]->call( N, c ); }
OPT( "new" )
OPT( "make" )
OPT( "set" )
OPT( "reset" )
OPT( "copy" )
OPT( "assign" )
OPT( "value" )
OPT( "edit" )
static J see_rs() {
	J has = J::arr(), v = J::arr(), e = J::arr();
	for ( auto& r : S->rs ) { has.push( bool( *r ) == r->has_value() ? J( bool( *r ) ) : J( "differs" ) ); v.push( *r ? r->value() : none ); e.push( codes( r->error().message() ) ); }
	return ok( J::obj().set( "has", has ).set( "v", v ).set( "e", e ) );
}
#define RS auto& a = S->rs[ c["i"] - 1 ]; auto& b = S->rs[ 2 - c["i"] ]; (void)a; (void)b
using res = xo::result< int >;
OP( "rs_new" ) { RS; a = std::make_unique< res >(); return see_rs(); }
OP( "rs_make" ) { RS; const int v = c["v"]; a = v % 2 ? std::make_unique< res >( v ) : std::make_unique< res >( int( c["v"] ) ); return see_rs(); }
OP( "rs_set" ) { RS; const int v = c["v"]; if ( v % 2 ) *a = v; else *a = int( c["v"] ); return see_rs(); }
OP( "rs_err" ) { RS; const xo::error_message e( c["e"].text() ); a = e.message().size() % 2 ? std::make_unique< res >( e ) : std::make_unique< res >( xo::error_message( c["e"].text() ) ); return see_rs(); }
OP( "rs_seterr" ) { RS; const xo::error_message e( c["e"].text() ); if ( e.message().size() % 2 ) *a = e; else *a = xo::error_message( c["e"].text() ); return see_rs(); }
OP( "rs_copy" ) { RS; a = std::make_unique< res >( *b ); return see_rs(); }
OP( "rs_assign" ) { RS; *a = *b; return see_rs(); }
static J see_em() { return ok( J::obj().set( "good", S->em.good() != S->em.bad() ? J( S->em.good() ) : J( "differs" ) ).set( "e", codes( S->em.message() ) ) ); }
OP( "em_set" ) { auto s = c["e"].text(); if ( s.size() % 3 == 0 ) S->em = xo::error_message( s ); else if ( s.size() % 3 == 1 ) S->em = s.c_str(); else S->em = s; return see_em(); }
OP( "em_append" ) { S->em.append( c["e"].text() ); return see_em(); }
#define IDX( N ) OP( "ix_" N ) { return S->ix[ c["k"].s ]->call( N, c ); }
IDX( "new" )
IDX( "copy" )
IDX( "assign" )
IDX( "move" )
IDX( "move_assign" )
IDX( "inc" )
IDX( "add" )
IDX( "span" )
template< typename F > J change_bd( F f ) {
	bool good = true;
	try { if ( !f() ) return ok( -4242 ); } catch ( std::exception& ) { good = false; }
	return J::obj().set( "ok", good ).set( "v", int( *S->bd ) );
}
OP( "bd_new" ) { return change_bd( [&] { auto n = std::make_unique< small >( int( c["v"] ) ); S->bd = std::move( n ); return true; } ); }
OP( "bd_set" ) { return change_bd( [&] { return &S->bd->set( int( c["v"] ) ) == S->bd.get(); } ); }
OP( "bd_assign" ) { return change_bd( [&] { return &( *S->bd = int( c["v"] ) ) == S->bd.get(); } ); }
static J see_bo() {
	auto& b = S->bo; auto n = -b;
	return ok( J::obj().set( "l", b.lower ).set( "u", b.upper ).set( "len", b.length() ).set( "mid", b.center() ).set( "neg", J::arr().push( n.lower ).push( n.upper ) ).set( "null", b.is_null() ) );
}
OP( "bo_new" ) { S->bo = xo::bounds< int >( int( c["l"] ), int( c["u"] ) ); return see_bo(); }
OP( "bo_extend" ) { if ( c["l"] == c["u"] ) S->bo.extend( int( c["l"] ) ); else S->bo.extend( xo::bounds< int >( int( c["l"] ), int( c["u"] ) ) ); return see_bo(); }
OP( "bo_q" ) {
	auto& b = S->bo; int v = c["v"], w = v;
	auto k = b.check( v );
	bool fine = k.first == b.is_within( v ) && k.second == b.get_violation( v ) && &b.clamp( w ) == &w && w == b.clamped( v );
	return ok( J::obj().set( "within", fine ? J( b.is_within( v ) ) : J( "differs" ) ).set( "off", b.get_violation( v ) ).set( "clamp", w ) );
}
template< typename T > J bo_read( const J& c ) {
	xo::bounds< T > b( S->bo ), r( T( 77 ), T( 78 ) );
	auto& f = c["f"].s;
	if ( f == "str" ) { if ( !from_str( to_str( b ), r ) ) return fail(); }
	else {
		xo::prop_node pn;
		if ( f == "pair" ) pn.add_key_value( "", b.lower ), pn.add_key_value( "", b.upper );
		else if ( f == "names" ) pn.add_key_value( "min", b.lower ), pn.add_key_value( "max", b.upper );
		else if ( f == "other" ) pn.add_key_value( "lower", b.lower ), pn.add_key_value( "upper", b.upper );
		else pn.add_key_value( "max", b.upper ), pn.add_key_value( "min", b.lower );
		if ( !from_prop_node( pn, r ) ) return fail();
	}
	return ok( J::arr().push( whole( r.lower ) ).push( whole( r.upper ) ) );
}
OP( "bo_text" ) { auto i = bo_read< int >( c ), d = bo_read< double >( c ); return i.dump() == d.dump() ? i : ok( J::arr().push( i ).push( d ) ); }
template< typename F > J see_points( F& f, size_t lo, double q ) {
	J p = J::arr(), v = J::arr();
	for ( size_t i = 0; i < f.size(); ++i ) { auto& a = f.point( i ); p.push( J::arr().push( whole( a.first ) ).push( whole( a.second ) ) ); }
	if ( f.size() != f.data().size() ) return fail();
	if ( f.size() >= lo ) for ( int x = -4; x <= 8; ++x ) v.push( whole( f( x / 2.0 ) * q ) );
	return ok( J::obj().set( "n", (long)f.size() ).set( "p", p ).set( "v", v ) );
}
OP( "pc_put" ) { S->pc.insert_point( int( c["x"] ), int( c["y"] ) ); return see_points( S->pc, 1, 1 ); }
OP( "pl_put" ) { S->pl.insert_point( int( c["x"] ), int( c["y"] ) ); return see_points( S->pl, 2, Q ); }
OP( "rp" ) {
	int l = c["l"], s = c["s"];
	auto& f = c["f"].a;
	auto fn = [&]( double x ) { return double( f.at( size_t( std::lround( ( x - l ) / s ) ) ).i ); };
	xo::regular_piecewise_linear_function< double, 4 > r( l, l + 3 * s, fn );
	J v = J::arr();
	for ( int k = 1; k <= 20; ++k ) v.push( whole( r( l + ( k - 4 ) / 4.0 ) * 4 * s ) );
	return ok( v );
}
OP( "dy_new" ) {
	int n = c["n"], w = c["w"], v = c["v"]; bool m = c["smooth"].b();
	S->dy.reset( n == 2 ? make_delay< 2 >( w, v, m ) : n == 3 ? make_delay< 3 >( w, v, m ) : make_delay< 5 >( w, v, m ) );
	S->dy_scale = m ? w * w : w;
	return ok( whole( S->dy->now() * S->dy_scale ) );
}
OP( "dy" ) { double v = S->dy->add( c["v"], c["dt"], c["v"] % 2 ), n = S->dy->now(); return ok( v == n ? whole( v * S->dy_scale ) : J( "differs" ) ); }
template< typename C > J visit( C r, bool post ) {
	J v = J::arr(); int n = 0;
	auto e = r.end();
	for ( auto i = r.begin(); i != e && !( i == e ) && n < 1000; ++n ) {
		v.push( long( *i ) );
		if ( post ) { auto was = *i; if ( i++ != was ) return J( "differs" ); } else if ( ++i != *i ) return J( "differs" );
	}
	return v;
}
template< typename T > vector< J > visits( int b, int e, int s ) {
	vector< J > r;
	for ( bool post : { false, true } ) {
		r.push_back( visit( xo::irange_step< T >( T( b ), T( e ), T( s ) ), post ) );
		if ( s == 1 && b <= e ) {
			r.push_back( visit( xo::irange_step< T >( xo::irange< T >( T( b ), T( e ) ) ), post ) );
			r.push_back( visit( xo::irange< T >( T( b ), T( e ) ), post ) );
			if ( b == 0 ) r.push_back( visit( xo::irange< T >( T( e ) ), post ) );
			if ( b == 0 && e == 0 ) r.push_back( visit( xo::irange< T >(), post ) );
		}
	}
	J v = J::arr(); int n = 0;
	for ( auto i : xo::irange_step< T >( T( b ), T( e ), T( s ) ) ) { v.push( long( i ) ); if ( ++n > 1000 ) break; }
	r.push_back( v );
	return r;
}
OP( "ir" ) {
	int b = c["b"], e = c["e"], s = c["s"];
	auto r = visits< int >( b, e, s );
	for ( auto& x : visits< long >( b, e, s ) ) r.push_back( x );
	for ( auto& x : visits< double >( b, e, s ) ) r.push_back( x );
	for ( bool post : { false, true } ) {
		r.push_back( visit( xo::make_irange( b, e, s ), post ) );
		r.push_back( visit( xo::make_irange( xo::irange< int >( b, e ), s ), post ) );
		if ( s == 1 && b <= e ) {
			r.push_back( visit( xo::make_irange( b, e ), post ) );
			if ( b == 0 ) r.push_back( visit( xo::make_irange( e ), post ) ), r.push_back( visit( xo::size_range( vector< int >( e ) ), post ) );
		}
	}
	if ( b >= 0 && e >= 0 && s > 0 ) for ( auto& x : visits< unsigned >( b, e, s ) ) r.push_back( x );
	for ( auto& x : r ) if ( x.dump() != r[0].dump() ) return ok( J::arr().push( r[0] ).push( x ) );
	return ok( r[0] );
}
template< typename F > J see_fr( F r ) {
	J v = J::arr(), w = J::arr();
	int n = 0;
	for ( auto x : r ) { v.push( whole( x * Q ) ); if ( ++n > 100 ) break; }
	for ( auto i = r.begin(); !( i == r.end() ) && n-- > 0; i++ ) w.push( whole( *i * Q ) );
	using T = typename F::value_type;
	auto ev = xo::evaluate_function< T >( []( T x ) { return x + 1; }, r );
	J y = J::arr();
	for ( auto x : ev ) y.push( whole( ( x - 1 ) * Q ) );
	if ( v.dump() != w.dump() ) v = J::arr().push( v ).push( w );
	else if ( v.dump() != y.dump() ) v = J::arr().push( v ).push( y );
	return J::obj().set( "size", (long)r.size() ).set( "v", v );
}
static J same( J a, J b ) { return a.dump() == b.dump() ? ok( a ) : ok( J::arr().push( a ).push( b ) ); }
OP( "fr" ) { double l = int( c["l"] ), u = int( c["u"] ); int n = c["n"]; return same( see_fr( xo::frange< double >( l, u, n ) ), see_fr( xo::frange< double >( xo::boundsd( l, u ), n ) ) ); }
OP( "fi" ) { double l = int( c["l"] ), u = int( c["u"] ), i = c["inc"] / 4.0; return same( see_fr( xo::frange< double >( l, u, i ) ), see_fr( xo::frange< double >( xo::boundsd( l, u ), i ) ) ); }
template< typename C > vector< J > views( const J& c ) {
	C xs; for ( auto& x : c["xs"].a ) xs.push_back( x.i );
	auto keep = [&]( int v ) { for ( auto& k : c["keep"].a ) if ( k.i == v ) return true; return false; };
	vector< J > r;
	auto v = xo::make_view_if( xs, keep );
	auto w = xo::make_view_if( xs.cbegin(), xs.cend(), keep );
	J a = J::arr(), b = J::arr(), d = J::arr(), e = J::arr();
	for ( auto& x : v ) a.push( x );
	for ( auto i = v.begin(); i != v.end(); i++ ) b.push( *i.operator->() );
	for ( auto i = w.begin(); !( i == w.end() ); ) { auto j = i++; d.push( *j ); }
	for ( auto& x : w ) e.push( x );
	return { a, b, d, e };
}
OP( "vi" ) {
	auto r = views< vector< int > >( c );
	for ( auto& x : views< std::list< int > >( c ) ) r.push_back( x );
	for ( auto& x : r ) if ( x.dump() != r[0].dump() ) return ok( J::arr().push( r[0] ).push( x ) );
	return ok( r[0] );
}
OP( "zp" ) {
	vector< int > xs; std::list< int > ys;
	for ( auto& x : c["xs"].a ) xs.push_back( x.i );
	for ( auto& y : c["ys"].a ) ys.push_back( y.i );
	J p = J::arr(), q = J::arr();
	const auto& cys = ys;
	for ( auto [x, y] : xo::zip( std::as_const( xs ), cys ) ) q.push( J::arr().push( x ).push( y ) );
	for ( auto [x, y] : xo::zip( xs, ys ) ) { p.push( J::arr().push( x ).push( y ) ); x += y; }
	return ok( J::obj().set( "p", p.dump() == q.dump() ? p : q ).set( "xs", J( xs ) ) );
}
int main() { return vf::main_loop(); }
