#include "vf.h"
#include "xo/container/container_algorithms.h"
#include "xo/container/storage.h"
#include "xo/geometry/catmull_rom.h"
#include "xo/geometry/line.h"
#include "xo/geometry/path_alg.h"
#include "xo/geometry/segment.h"
#include "xo/geometry/vec3.h"
#include "xo/numerical/bounds.h"
#include "xo/numerical/compare.h"
#include "xo/numerical/filter.h"
#include "xo/numerical/filter_1st_order.h"
#include "xo/numerical/function_tools.h"
#include "xo/numerical/functions.h"
#include "xo/numerical/interpolation.h"
#include "xo/numerical/math.h"
#include "xo/numerical/polynomial.h"
#include "xo/numerical/random.h"
#include "xo/numerical/regression.h"
#include "xo/utility/data_algorithms.h"
#include "xo/system/debug_storage.h"
#include "xo/system/debug_tools.h"
#include "xo/filesystem/filesystem.h"
#include <cmath>
#include <fstream>
#include <unistd.h>
#include <complex>
#include <map>
#include <memory>
using std::string;
using vf::J;
using namespace xo;

// every call is made for double and for float; the numbers of the float run only have to be close to those of the double run
static std::vector< double > seen;
static size_t next_seen;
static J frac( double x, double tol = 0 ) {
	if ( !( std::abs( x ) < 1e9 ) ) return J( "not a number" );
	if ( tol == 0 ) tol = 1e-12 * ( 1 + std::abs( x ) );
	double r = std::abs( x );
	long p0 = 0, q0 = 1, p1 = 1, q1 = 0;
	for ( int i = 0; i < 40; ++i ) {
		long a = (long)std::floor( r ), p = a * p1 + p0, q = a * q1 + q0;
		if ( q > 2000000000 ) break;
		if ( std::abs( double( p ) / double( q ) - std::abs( x ) ) <= tol ) return J::arr().push( x < 0 ? -p : p ).push( q );
		p0 = p1; q0 = q1; p1 = p; q1 = q;
		if ( r == a ) break;
		r = 1 / ( r - a );
	}
	return J::arr().push( (long)std::floor( x * 1e6 ) ).push( "irrational" );
}
template< typename T > J fr( T v, double tol = 2e-4 ) {
	if ( sizeof( T ) == 8 ) { seen.push_back( double( v ) ); return frac( double( v ) ); }
	if ( next_seen >= seen.size() ) return J( "more numbers for float" );
	double d = seen[ next_seen++ ];
	return std::abs( double( v ) - d ) <= tol * ( 1 + std::abs( d ) ) ? frac( d ) : J::arr().push( "float" ).push( frac( double( v ) ) );
}
static J same( std::initializer_list< J > l ) { string a, b; l.begin()->print( a ); for ( auto& j : l ) { b.clear(); j.print( b ); if ( a != b ) return J::arr().push( *l.begin() ).push( j ).push( "differs" ); } return *l.begin(); }
template< typename F > J both( F f ) {
	seen.clear(); next_seen = 0;
	J d = f( 0.0 ), s = f( 0.0f );
	string a, b; d.print( a ); s.print( b );
	return a == b ? ok( d ) : ok( J::obj().set( "double", d ).set( "float", s ) );
}
#define BOTH( ... ) both( [&]( auto zero ) { using T = decltype( zero ); (void)zero; __VA_ARGS__ } )
template< typename T > T qd( const J& j ) { return T( int( j ) ) / 4; }
template< typename T > std::vector< T > vec( const J& j ) { std::vector< T > r; for ( auto& e : j.a ) r.push_back( T( int( e ) ) ); return r; }
template< typename T > vec3_<T> v3( const J& j ) { return vec3_<T>( T( int( j[0] ) ), T( int( j[1] ) ), T( int( j[2] ) ) ); }
template< typename T > J J3( const vec3_<T>& v ) { return J::arr().push( fr( v.x ) ).push( fr( v.y ) ).push( fr( v.z ) ); }
template< typename C > J list( const C& c ) { J r = J::arr(); for ( auto& e : c ) r.push( fr( e ) ); return r; }
static J flag( bool a, bool b ) { return a == b ? J( a ) : J( "differs" ); }

OP( "scalar" ) { return BOTH(
	const T a = qd<T>( c["a"] ), b = qd<T>( c["b"] ), z = qd<T>( c["c"] ), lo = b < z ? b : z, hi = b < z ? z : b;
	const int i = c["a"];
	auto set = []( T v, auto f ) { f( v ); return fr( v ); };
	J inv = J::arr();
	if ( a != 0 ) { inv.push( same( { fr( xo::inv( a ) ), fr( power<-1>( a ) ) } ) ).push( same( { fr( power<-2>( a ) ), fr( xo::squared( xo::invsqrt( xo::squared( a ) ) ) ) } ) ).push( fr( power<-3>( a ) ) ); }
	T changed = a; bool was = set_if_different( changed, b );
	bounds<T> bd( lo, hi );
	J r = J::obj();
	r.set( "min", same( { fr( xo::min( a, b ) ), fr( xo::min( b, a ) ) } ) ).set( "min3", same( { fr( xo::min( a, b, z ) ), fr( xo::min( z, a, b ) ) } ) )
		.set( "max", same( { fr( xo::max( a, b ) ), fr( xo::max( b, a ) ) } ) ).set( "max3", same( { fr( xo::max( a, b, z ) ), fr( xo::max( z, a, b ) ) } ) )
		.set( "abs", fr( xo::abs( a ) ) ).set( "sq", fr( squared( a ) ) ).set( "cube", fr( cubed( a ) ) ).set( "mid", fr( midpoint( a, b ) ) )
		.set( "sign", int( sign( a ) ) ).set( "signum", same( { J( signum( a ) ), J( signum( i ) ) } ) ).set( "same", same_sign( a, b ) ).set( "whole", is_whole( a ) )
		.set( "clamp", same( { fr( clamped( a, lo, hi ) ), set( a, [&]( T& v ) { xo::clamp( v, lo, hi ); } ), fr( bd.clamped( a ) ), set( a, [&]( T& v ) { bd.clamp( v ); } ) } ) )
		.set( "between", flag( is_between( a, lo, hi ), bd.is_within( a ) ) ).set( "round", frac( round_cast< int >( a ) ) )
		.set( "smaller", set( a, [&]( T& v ) { set_if_smaller( v, b ); } ) ).set( "bigger", set( a, [&]( T& v ) { set_if_bigger( v, b ); } ) ).set( "set", J::arr().push( fr( changed ) ).push( was ) )
		.set( "pow", J::arr().push( fr( power<0>( a ) ) ).push( fr( power<1>( a ) ) ).push( fr( power<2>( a ) ) ).push( fr( power<3>( a ) ) ).push( fr( power<4>( a ) ) ) ).set( "inv", inv )
		.set( "root", fr( signed_sqrt( a < 0 ? -a * a : a * a ) ) ).set( "even", is_even( i ) ).set( "odd", flag( is_odd( i ), is_odd( long( i ) ) ) ).set( "jerk", fr( minimum_jerk( a ) ) );
	return r; );
}
OP( "bits" ) {
	unsigned v = c["v"].num(); size_t b = c["b"].num(); int p = c["p"], q = c["q"];
	J by = J::arr();
	for ( int k = 0; k < 3; ++k ) by.push( get_byte( v, 8 * k ) );
	return ok( J::obj().set( "digits", b == 10 ? same( { J( count_digits( v ) ), J( count_digits( v, 10 ) ) } ) : J( count_digits( v, b ) ) ).set( "pow2", flag( is_power_of_two( v ), is_power_of_two( size_t( v ) ) ) )
		.set( "gcd", same( { J( greatest_common_divisor( p, q ) ), J( greatest_common_divisor( size_t( q ), size_t( p ) ) ) } ) ).set( "byte", by ) );
}
OP( "tobyte" ) { return BOTH( return J::arr().push( float_to_byte( T( int( c["v"] ) ) / 8 ) ).push( 1 ); ); }
OP( "rounded" ) { return BOTH( return fr( round_decimals( T( int( c["v"] ) ) / 8, c["n"] ) ); ); }
OP( "cmp" ) { return BOTH(
	T a = qd<T>( c["a"] ), b = qd<T>( c["b"] ), e = T( int( c["k"] ) ) / 8;
	return J::obj().set( "eq", xo::equal( a, b, e ) ).set( "le", less_than_or_equal( a, b, e ) ).set( "lt", less_than_not_equal( a, b, e ) ).set( "ge", greater_than_or_equal( a, b, e ) ).set( "gt", greater_than_not_equal( a, b, e ) ); );
}
OP( "wave" ) { return BOTH(
	T v = qd<T>( c["v"] ), l = qd<T>( c["l"] ), u = qd<T>( c["u"] );
	T w = v; T& x = wrap( w, l, u );
	return J::obj().set( "wrap", same( { fr( wrapped( v, l, u ) ), fr( w ), fr( x ) } ) ).set( "mod", fr( pos_mod( v, u - l ) ) ).set( "square", int( square_wave( v ) ) ).set( "tri", fr( triangle_wave( v ) ) ).set( "tri3", fr( triangle_wave( v, l, u ) ) ); );
}
OP( "soft" ) { return BOTH(
	T v = qd<T>( c["v"] ), l = qd<T>( c["l"] ), u = qd<T>( c["u"] ), k = T( int( c["k"] ) ) / 8, r = k * ( u - l );
	T w = v; T& x = soft_clamp( w, l, u, k ); bounds<T> b( l, u );
	T y = v; b.soft_clamp( y, k );
	T s = smooth_clamped( v, l, u, l + r, u - r ), n = smooth_clamped( v + T( 0.01 ), l, u, l + r, u - r );
	return J::obj().set( "soft", same( { fr( soft_clamped( v, l, u, k ) ), fr( w ), fr( x ), fr( y ), fr( b.soft_clamped( v, k ) ) } ) ).set( "smooth", fr( l + r <= v && v <= u - r ? s : T( 0 ) ) )
		.set( "inside", l <= s && s <= u && s <= n && n - s <= T( 0.0101 ) && ( v >= l + r || ( s >= v && s <= l + r ) ) && ( v <= u - r || ( s <= v && s >= u - r ) ) ); );
}
template< typename T, size_t D > J poly( const J& c ) {
	polynomial< T, D > p, q; int i = 0;
	for ( auto& e : c["c"].a ) p[ i++ ] = T( int( e ) );
	const T x = qd<T>( c["x"] ); q = p; auto r = q; T y = 0;
	if constexpr ( D == 1 ) {
		linear_function<T> f( p.offset(), p.slope() );
		if ( f.slope() != 0 ) y = intersect_y( f, x );
		r = f;
	}
	auto o = r; o.offset() += 1; o.slope() *= 2;
	return J::obj().set( "at", same( { fr( p( x ) ), fr( r( x ) ), fr( o( x ) - 1 - x * r.slope() ) } ) ).set( "offset", same( { fr( p.offset() ), fr( q[0] ) } ) ).set( "slope", same( { fr( p.slope() ), fr( r[1] ) } ) ).set( "cross", fr( y ) );
}
OP( "poly" ) { return BOTH( switch ( c["c"].size() ) { case 2: return poly< T, 1 >( c ); case 3: return poly< T, 2 >( c ); default: return poly< T, 3 >( c ); } ); }
OP( "eval" ) { return BOTH(
	auto co = vec<T>( c["c"] ); const int n = c["n"]; const T l = qd<T>( c["l"] ), u = qd<T>( c["u"] );
	std::function< T( T ) > f = [&]( T x ) { T r = 0; for ( size_t i = co.size(); i-- > 0; ) r = r * x + co[i]; return r; };
	auto a = evaluate_function( f, frange<T>( l, u, n ) );
	if ( n > 1 ) return same( { list( a ), list( evaluate_function( f, l, u, ( u - l ) / ( n - 1 ) ) ) } );
	return list( a ); );
}
OP( "lerp" ) { return BOTH(
	T a = qd<T>( c["a"] ), b = qd<T>( c["b"] ), t = qd<T>( c["t"] );
	vec3_<T> p( a, 2 * a, -b ), q( b, 2 * b, -b ); auto v = lerp( p, q, t );
	return same( { fr( lerp( a, b, t ) ), fr( lerp_precise( a, b, t ) ), fr( v.x ), fr( v.y / 2 ) } ); );
}
OP( "lerpmap" ) { return BOTH( std::map< T, T > m; for ( auto& e : c["p"].a ) m[ T( int( e[0] ) ) ] = T( int( e[1] ) ); return fr( lerp_map( m, qd<T>( c["k"] ) ) ); ); }
OP( "lerpvec" ) { return BOTH( auto v = vec<T>( c["v"] ); T k = qd<T>( c["k"] ); return same( { fr( lerp_vec( v, k ) ), fr( lerp_span( v.begin(), v.end(), k ) ), fr( lerp_span( v.data(), v.data() + v.size(), k ) ) } ); ); }
template< typename T > vec3_<T> on_line( int x ) { return vec3_<T>( T( x ), T( 2 * x ), T( 7 ) ); }
template< typename T > T off_line( const vec3_<T>& v ) { return std::abs( v.y - 2 * v.x ) < T( 1e-3 ) * ( 1 + std::abs( v.x ) ) && std::abs( v.z - 7 ) < T( 1e-3 ) ? v.x : T( 99999 ); }
OP( "catmull" ) { return BOTH(
	auto& p = c["p"]; const T t = qd<T>( c["t"] );
	auto P = [&]( int i ) { return on_line<T>( p[i] ); };
	auto X = [&]( int i ) { return vec3_<T>( T( int( p[i] ) ), 0, 0 ); };
	T u = off_line( catmull_rom_segment< vec3_<T> >( P( 0 ), P( 1 ), P( 2 ), P( 3 ) )( t ) ), w = 0;
	bool apart = true;
	for ( int i = 0; i < 3; ++i ) apart = apart && int( p[i] ) != int( p[i + 1] );
	J un = same( { fr( u ), fr( catmull_rom_segment< T >( int( p[0] ), int( p[1] ), int( p[2] ), int( p[3] ) )( t ) ) } );
	if ( apart ) {
		w = catmull_rom_segment_alpha< vec3_<T> >( X( 0 ), X( 1 ), X( 2 ), X( 3 ), 1.0f )( float( t ) ).x;
		// all at the same distance of their neighbours, as far as the knots know
		T n = catmull_rom_segment_alpha< vec3_<T> >( X( 0 ), X( 1 ), X( 2 ), X( 3 ), 0.0f )( float( t ) ).x;
		if ( std::abs( n - u ) > T( 1e-3 ) ) return J( "the segment with alpha 0 is not the uniform one" );
	}
	return J::obj().set( "uniform", un ).set( "chordal", int( c["t"] ) % 2 ? J::arr().push( 0 ).push( 1 ) : frac( w, sizeof( T ) == 8 ? 1e-6 : 4e-6 ) ); ); // knots are floats
}
OP( "spline" ) { return BOTH(
	std::vector< vec3_<T> > p; for ( auto& e : c["p"].a ) p.push_back( on_line<T>( e ) );
	catmull_rom< vec3_<T>, T > s( p, vec<T>( c["times"] ) );
	return fr( off_line( s( qd<T>( c["k"] ) ) ) ); );
}
OP( "stats" ) { return BOTH(
	const auto v = vec<T>( c["v"] ); const size_t k = c["k"].num();
	auto sq = []( T s, T x ) { return s + x * x; };
	auto at = [&]( const std::vector< index_t >& i ) { std::vector< T > r; for ( auto e : i ) r.push_back( v.at( e ) ); return list( r ); };
	auto mv = mean_var( v ); auto ms = mean_std( v ); auto m2 = v;
	auto perm = []( std::vector< index_t > i ) { std::sort( i.begin(), i.end() ); for ( size_t j = 0; j < i.size(); ++j ) if ( i[j] != j ) return false; return true; };
	if ( !perm( sorted_indices( v ) ) ) return J( "the sorted indices are not those of the elements" );
	J r = J::obj();
	r.set( "sum", same( { fr( xo::accumulate( v, T( 0 ) ) ), fr( xo::accumulate( v.begin(), v.end(), T( 0 ) ) ), fr( xo::accumulate( v, T( 5 ) ) - 5 ) } ) ).set( "sumsq", same( { fr( xo::accumulate( v, T( 0 ), sq ) ), fr( xo::accumulate( v.begin(), v.end(), T( 0 ), sq ) ) } ) )
		.set( "avg", same( { fr( average( v ) ), fr( average( v.begin(), v.end(), T( 0 ) ) ) } ) ).set( "avgsq", same( { fr( average( v, T( 0 ), sq ) ), fr( average( v.begin(), v.end(), T( 0 ), sq ) ) } ) )
		.set( "mean", same( { fr( mv.first ), fr( ms.first ) } ) ).set( "var", same( { fr( mv.second ), fr( ms.second * ms.second ) } ) ).set( "idx", at( sorted_indices( v ) ) ).set( "desc", at( sorted_indices( v, std::greater< T >() ) ) )
		.set( "min", same( { fr( min_value( v ) ), fr( *xo::min_element( v ) ) } ) ).set( "max", same( { fr( max_value( v ) ), fr( *xo::max_element( v ) ) } ) ).set( "minat", long( xo::min_element( v ) - v.begin() ) ).set( "maxat", long( xo::max_element( v ) - v.begin() ) )
		.set( "sorted", list( sorted_copy( v ) ) ).set( "median", same( { fr( median( v ) ), fr( median_slow( v ) ), fr( median_slow( v.begin(), v.end() ) ), fr( median_non_const( m2 ) ), fr( median_non_const( m2.begin(), m2.end() ) ) } ) ).set( "top", fr( top_average( v, k ) ) );
	if ( sorted_copy( m2 ) != sorted_copy( v ) ) return J( "the median changed the elements" );
	return r; );
}
template< typename T > J line( const linear_function<T>& f ) { return J::arr().push( fr( f.offset() ) ).push( fr( f.slope() ) ); }
OP( "regr" ) { return BOTH(
	const auto x = vec<T>( c["x"] ), y = vec<T>( c["y"] );
	return J::obj().set( "least", same( { line( linear_regression( x, y ) ), line( linear_regression( x.begin(), x.end(), y.begin(), y.end() ) ) } ) ).set( "repeated", line( repeated_median_regression( x.begin(), x.end(), y.begin(), y.end() ) ) ); );
}
OP( "regrstep" ) { return BOTH(
	const auto y = vec<T>( c["y"] ); T x0 = int( c["x0"] ), d = int( c["d"] );
	return J::obj().set( "least", line( linear_regression( y, x0, d ) ) ).set( "median", line( linear_median_regression( y, x0, d ) ) ); );
}
OP( "cov" ) { return BOTH(
	const auto& m = c["m"];
	storage< T, string > s;
	for ( size_t j = 0; j < m[0].size(); ++j ) s.add_channel( string( 1, char( 'a' + j ) ) );
	for ( auto& f : m.a ) { s.add_frame(); for ( size_t j = 0; j < f.size(); ++j ) s( s.frame_size() - 1, j ) = T( int( f[j] ) ); }
	auto cv = compute_covariance( s );
	J r = J::arr();
	for ( size_t j = 0; j < m[0].size(); ++j ) { r.push( J::arr() ); for ( size_t k = 0; k < m[0].size(); ++k ) r.a.back().push( fr( cv( j, k ) ) ); }
	return J::obj().set( "means", list( compute_channel_means( s ) ) ).set( "cov", r ); );
}
OP( "seg" ) { return BOTH( auto p = v3<T>( c["p"] ), a = v3<T>( c["a"] ), b = v3<T>( c["b"] ); return same( { fr( squared( distance( p, segment_<T>( a, b ) ) ) ), fr( squared( distance( p, segment_<T>( b, a ) ) ) ) } ); ); }
OP( "lines" ) { return BOTH(
	line_<T> l( v3<T>( c["p"] ), v3<T>( c["d"] ) ), m( v3<T>( c["q"] ), v3<T>( c["e"] ) );
	auto a = closest_points( l, m ), b = closest_points( m, l );
	bool parallel = length( cross_product( l.dir, m.dir ) ) < T( 0.1 );
	J p = J::arr();
	if ( !parallel ) p.push( same( { J3( a.first ), J3( b.second ) } ) ).push( same( { J3( a.second ), J3( b.first ) } ) );
	return J::obj().set( "points", p ).set( "dist2", same( { fr( squared( distance( l, m ) ) ), fr( squared( distance( m, l ) ) ), fr( squared_length( a.first - a.second ) ) } ) ); );
}
OP( "path" ) { return BOTH(
	vec3_<T> at = vec3_<T>::zero();
	std::vector< vec3_<T> > p{ at };
	for ( auto& e : c["s"].a ) { T x = int( e[1] ); switch ( int( e[0] ) ) { case 1: at.x += x; break; case 2: at.y += x; break; default: at.z += x; } p.push_back( at ); }
	J l = fr( T( path_length( p ) ) );
	auto i = insert_path_point( p, qd<T>( c["k"] ) );
	J r = J::arr(); for ( auto& e : p ) r.push( J3( e ) );
	return J::obj().set( "length", same( { l, fr( T( path_length( p ) ) ) } ) ).set( "at", i ).set( "path", r ); );
}
// a lowpass filter: constants stay, half the power is left at the cutoff frequency, nothing at half the sample rate
OP( "butter" ) { return BOTH(
	T k = T( int( c["k"] ) ) / 20;
	auto f = make_lowpass_butterworth_2nd_order( k );
	auto h = [&]( double w ) { std::complex< double > z = std::polar( 1.0, -w ); return ( double( f.b0_ ) + double( f.b_[0] ) * z + double( f.b_[1] ) * z * z ) / ( 1.0 - double( f.a_[0] ) * z - double( f.a_[1] ) * z * z ); };
	const double pi = 3.14159265358979323846;
	T dc = T( std::norm( h( 0 ) ) ), half = T( std::norm( h( 2 * pi * double( int( c["k"] ) ) / 20 ) ) ), none = T( std::norm( h( pi ) ) );
	T last = 0; for ( int i = 0; i < 2000; ++i ) last = f( T( 3 ) );
	double y = 0, prev = 9; bool falls = true;
	for ( double w = 0.05; w < pi; w += 0.05 ) { y = std::norm( h( w ) ); falls = falls && y <= prev + 1e-6; prev = y; }
	return J::obj().set( "dc", fr( dc ) ).set( "half", fr( half ) ).set( "none", fr( none ) ).set( "stable", std::abs( last - 3 ) < T( 1e-2 ) && std::abs( f.velocity() ) < T( 1e-3 ) && f() == last && falls ); );
}
OP( "acos" ) { return BOTH(
	T x = T( int( c["k"] ) ) / 2, a = fast_acos( x ) * T( 180 ) / constants<T>::pi();
	bool falls = true; for ( int i = -32; i < 32; ++i ) falls = falls && fast_acos( T( i ) / 32 ) > fast_acos( T( i + 1 ) / 32 ) && std::abs( fast_acos( T( i ) / 32 ) - std::acos( T( i ) / 32 ) ) < T( 0.02 ) && std::abs( fast_acos( T( i ) / 32 ) + fast_acos( -T( i ) / 32 ) - constants<T>::pi() ) < T( 1e-5 );
	long r = std::lround( a ); for ( int d : { 0, 60, 90, 120, 180 } ) if ( std::abs( a - d ) < T( 1.1 ) ) r = d;
	return falls ? J( r ) : J( "not falling" ); );
}
OP( "span" ) { return BOTH(
	T v = T( int( c["v"] ) ); auto a = bounds<T>::infinite(), p = bounds<T>::positive(), n = bounds<T>::negative();
	bool known = a.is_within( num<T>::max ) && a.is_within( -num<T>::max ) && p.is_within( num<T>::max ) && n.is_within( -num<T>::max ) && !n.is_within( num<T>::smallest ) && !p.is_within( -num<T>::smallest ) && a.clamped( v ) == v && p.clamped( v ) == std::max( v, T( 0 ) ) && n.clamped( v ) == std::min( v, T( 0 ) );
	auto close = []( T a, double b ) { return std::abs( double( a ) - b ) < ( sizeof( T ) == 8 ? 1e-15 : 3e-7 ); };
	const double pi = std::acos( -1.0 ), e = std::exp( 1.0 );
	known = known && close( num<T>::pi, pi ) && close( constants<T>::pi(), pi ) && close( num<T>::half_pi, pi / 2 ) && close( constants<T>::half_pi(), pi / 2 ) && close( num<T>::two_pi, 2 * pi ) && close( constants<T>::two_pi(), 2 * pi ) && close( num<T>::e, e ) && close( constants<T>::e(), e );
	using L = std::numeric_limits< T >;
	known = known && num<T>::epsilon == L::epsilon() && constants<T>::epsilon() == L::epsilon() && num<T>::ample_epsilon > L::epsilon() && num<T>::ample_epsilon == constants<T>::ample_epsilon() && num<T>::max == L::max() && num<T>::highest == L::max() && constants<T>::max() == L::max()
		&& num<T>::smallest == L::min() && constants<T>::min() == L::min() && num<T>::lowest == -L::max() && constants<T>::lowest() == -L::max() && std::isnan( num<T>::quieNaN ) && std::isnan( constants<T>::NaN() ) && num<T>::infinity > L::max() && constants<T>::infinity() > L::max()
		&& num<T>::is_signed && constants<T>::is_signed() && !num<unsigned>::is_signed && num<T>::sentinel() == constants<T>::sentinel() && num<unsigned>::sentinel() == 4294967295u && constants<int>::sentinel() == -2147483647 - 1;
	return known ? J::obj().set( "all", a.is_within( v ) ).set( "neg", n.is_within( v ) ).set( "pos", p.is_within( v ) ) : J( "constants differ" ); );
}
OP( "arc" ) { return BOTH(
	auto v = vec<T>( c["v"] ); int n = int( v.size() ) - 1;
	auto at = [&]( float t ) { float x = ( t + 1 ) / 2 * n; int i = std::min( n - 1, std::max( 0, int( x ) ) ); T y = v[i] + T( x - i ) * ( v[i + 1] - v[i] ); return vec3_<T>( y, T( 0 ), T( 5 ) ); };
	return same( { frac( compute_spline_length( at, -1.0f, 1.0f, n ), 1e-4 ), frac( compute_spline_length( at, -1.0f, 1.0f, 4 * n ), 1e-4 ), frac( compute_spline_length( at, 1.0f, -1.0f, n ), 1e-4 ) } ); );
}
template< typename T > T plus_none( T x ) { return x; }
template< typename T > T minus_two( T x ) { return x - 2 * x * x; }
OP( "table" ) {
	static const string dir = [] { auto t = getenv( "TMPDIR" ); return string( t ? t : "/tmp" ) + "/num-" + std::to_string( getpid() ); }();
	int lo = c["lo"], n = c["n"], d = c["d"]; bool none = int( c["b"] ) == 0;
	auto go = [&]( auto zero ) {
		using T = decltype( zero ); path f = path( dir ) / path( "deeper" ) / path( "table.txt" );
		const T a = T( lo ) / 4, b = a + T( n ) / T( d ); auto func = none ? &plus_none<T> : &minus_two<T>;
		if ( d == 100 ) write_function<T>( f, a, b, func ); else write_function<T>( f, a, b, func, T( 1 ) / T( d ) );
		std::ifstream in( f.str() ); string l; std::vector< std::pair< double, double > > rows; bool form = true;
		while ( std::getline( in, l ) ) { double x, y; char tab = 0, more; form = form && sscanf( l.c_str(), "%lf%c%lf%c", &x, &tab, &y, &more ) == 3 && tab == '\t'; rows.emplace_back( x, y ); }
		in.close(); remove( f ); ::rmdir( ( dir + "/deeper" ).c_str() ); ::rmdir( dir.c_str() );
		J first = J::arr(); for ( size_t i = 0; i < rows.size() && i < 3; ++i ) first.push( J::arr().push( frac( rows[i].first, 2e-6 ) ).push( frac( rows[i].second, 2e-5 ) ) );
		return form && !rows.empty() ? J::obj().set( "first", first ).set( "last", frac( rows.back().first, 1e-5 * ( 1 + std::abs( rows.back().first ) ) ) ).set( "rows", rows.size() ) : J( "not a table" );
	};
	return ok( same( { go( 0.0 ), go( 0.0f ) } ) );
}
template< typename G > bool good( unsigned seed, int l, int u ) {
	G a( seed ), b( 5 );
	if ( seed == 123 ) b = G(); else b.seed( seed );
	bool r = true; std::vector< double > va, vb; bool first = false, last = false, varied = false;
	for ( int i = 0; i < 50; ++i ) for ( auto* g : { &a, &b } ) {
		auto& v = g == &a ? va : vb;
		double x = g->uniform( double( l ), double( u ) ), x2 = g->uniform( bounds< double >( l, u ) ); float y = g->uniform( float( l ), float( u ) );
		int n = g->uniform_int( l, u ), n2 = g->uniform_int( bounds< int >( l, u ) );
		auto p = g->uniform_vec3( double( l ), double( u ) );
		for ( double e : { x, x2, double( y ), double( n ), double( n2 ), p.x, p.y, p.z } ) { r = r && l <= e && e <= u; v.push_back( e ); }
		v.push_back( g->normal( 0.0, 1.0 ) );
		for ( int e : { n, n2 } ) { first = first || e == l; last = last || e == u; }
		varied = varied || x > l + 0.5 * ( u - l );
		for ( int q = 0; q < 100; ++q ) v.push_back( g->uniform_int( l, u ) ), first = first || v.back() == l, last = last || v.back() == u;
	}
	return r && va == vb && first && last && varied;
}
OP( "rng" ) {
	unsigned s = c["seed"].num(); int l = c["l"], u = c["u"];
	return ok( good< random_number_generator_default >( s, l, u ) && good< random_number_generator_fast >( s, l, u ) && good< random_number_generator_accurate >( s, l, u ) && good< random_number_generator_default_gcc >( s, l, u ) );
}

static std::unique_ptr< filter_1st_order< double, double > > fd; static std::unique_ptr< filter_1st_order< float > > ff;
static iir_filter< double, 2 > rd; static iir_filter< float, 2 > rf;
template< typename F > J first( F f ) { seen.clear(); next_seen = 0; J a = f( *fd, 0.0 ), b = f( *ff, 0.0f ); return same( { a, b } ); }
#define FIRST( ... ) ok( first( [&]( auto& f, auto zero ) { using T = decltype( zero ); J got; (void)got; __VA_ARGS__; return J::obj().set( "v", got.t == J::Nul ? fr( f.value(), 1e-3 ) : same( { got, fr( f.value(), 1e-3 ) } ) ).set( "rate", fr( f.rate() ) ); } ) )
OP( "f_new" ) { fd.reset( new filter_1st_order< double, double >( qd<double>( c["r"] ), int( c["v"] ) ) ); ff.reset( new filter_1st_order< float >( qd<float>( c["r"] ), float( int( c["v"] ) ) ) ); return FIRST( ); }
OP( "f_set" ) { return FIRST( f.set_value( T( int( c["v"] ) ) ) ); }
OP( "f_rate" ) { return FIRST( f.set_rate( qd<T>( c["r"] ) ) ); }
OP( "f_fast" ) { return FIRST( got = fr( f.update_fast( T( int( c["v"] ) ), qd<T>( c["dt"] ) ), 1e-3 ) ); }
OP( "f_acc" ) { int k = c["k"]; return FIRST( T dt = T( k ) * T( 0.69314718055994530942 ) / f.rate(); auto g = f; J x = fr( g( T( int( c["v"] ) ), dt ), 1e-3 ); got = same( { fr( f.update_accurate( T( int( c["v"] ) ), dt ), 1e-3 ), x } ) ); }
template< typename T > iir_filter< T, 2 > coef( const J& c ) { iir_filter< T, 2 > f; auto v = vec<T>( c ); f.b0_ = v[0] / 2; f.b_ = { v[1] / 2, v[2] / 2 }; f.a_ = { v[3] / 2, v[4] / 2 }; return f; }
OP( "r_new" ) { rd = coef< double >( c["c"] ); rf = coef< float >( c["c"] ); return ok(); }
OP( "r_in" ) {
	seen.clear(); next_seen = 0;
	auto go = [&]( auto& f, auto v ) { auto y = f( v ); return J::obj().set( "y", same( { fr( y, 1e-3 ), fr( f(), 1e-3 ) } ) ).set( "d", fr( f.velocity(), 1e-3 ) ); };
	J a = go( rd, double( int( c["v"] ) ) ), b = go( rf, float( int( c["v"] ) ) );
	return ok( same( { a, b } ) );
}
int main() {
	vf::on_reset() = []( const J& ) { fd.reset( new filter_1st_order< double, double >( 0.25, 0 ) ); ff.reset( new filter_1st_order< float >( 0.25f, 0 ) ); rd = coef< double >( vf::parse( "[1,0,0,0,0]" ) ); rf = coef< float >( vf::parse( "[1,0,0,0,0]" ) ); };
	return vf::main_loop();
}
