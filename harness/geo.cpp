#include "vf.h"
#include "xo/geometry/dynmat.h"
#include "xo/geometry/dynvec.h"
#include "xo/geometry/mat33.h"
#include "xo/geometry/mirror_tools.h"
#include "xo/geometry/quat.h"
#include "xo/geometry/scale3.h"
#include "xo/geometry/transform.h"
#include "xo/geometry/vec3.h"
#include "xo/geometry/vec4.h"
#include "xo/string/string_tools.h"
#include <cmath>
#include <limits>
using std::string;
using namespace xo;
using V = std::vector< double >;

template< typename T > J whole( T v ) {
	if ( !( std::abs( v ) < T( 1e9 ) ) ) return J( -777777 );
	T r = std::round( v ), tol = sizeof( T ) == 8 ? T( 1e-6 ) * ( 1 + std::abs( v ) ) : std::min( T( 0.4 ), T( 0.02 ) + T( 1e-5 ) * std::abs( v ) );
	return std::abs( v - r ) <= tol ? J( (long)r ) : J( (long)std::floor( v ) * 1000 + 777 );
}
template< typename T > J J3( const vec3_<T>& v, T s = 1 ) { return J::arr().push( whole<T>( s * v.x ) ).push( whole<T>( s * v.y ) ).push( whole<T>( s * v.z ) ); }
template< typename T > J J4( T a, T b, T c, T d, T s = 1 ) { return J::arr().push( whole<T>( s * a ) ).push( whole<T>( s * b ) ).push( whole<T>( s * c ) ).push( whole<T>( s * d ) ); }
template< typename T > J JQ( const quat_<T>& q, T s ) { return J4<T>( q.w, q.x, q.y, q.z, s ); }
template< typename T > J JPos( const quat_<T>& q, T s ) {
	T f = 0;
	for ( T v : { q.w, q.x, q.y, q.z } ) if ( f == 0 && !( std::abs( v * s ) < T( 0.1 ) ) ) f = v < 0 ? T( -1 ) : T( 1 );
	return J4<T>( q.w, q.x, q.y, q.z, s * f );
}
template< typename T > vec3_<T> v3( const J& j ) { return vec3_<T>( T( int( j[0] ) ), T( int( j[1] ) ), T( int( j[2] ) ) ); }
template< typename T > quat_<T> rawq( const J& j ) { return quat_<T>( T( int( j[0] ) ), T( int( j[1] ) ), T( int( j[2] ) ), T( int( j[3] ) ) ); }
static double n2( const J& j ) { double n = 0; for ( auto& e : j.a ) n += double( e.i ) * e.i; return n; }
static double root( const J& j ) { return std::sqrt( n2( j ) ); }
template< typename T > quat_<T> unitq( const J& j ) { T f = T( 1 / root( j ) ); auto q = rawq<T>( j ); return quat_<T>( q.w * f, q.x * f, q.y * f, q.z * f ); }
static J differs() { return J( "differs" ); }
// several ways to ask for the same thing
static J same( std::initializer_list< J > l ) { string a, b; l.begin()->print( a ); for ( auto& j : l ) { b.clear(); j.print( b ); if ( a != b ) return J::arr().push( *l.begin() ).push( j ).push( "differs" ); } return *l.begin(); }
// the same call for float and double
template< typename F > J both( F f ) {
	J d = f( 0.0 ), s = f( 0.0f );
	string a, b; d.print( a ); s.print( b );
	return a == b ? ok( d ) : ok( J::obj().set( "double", d ).set( "float", s ) );
}
#define BOTH( ... ) both( [&]( auto zero ) { using T = decltype( zero ); (void)zero; __VA_ARGS__ } )

OP( "vec3" ) { return BOTH(
	const auto a = v3<T>( c["a"] ), b = v3<T>( c["b"] ); const T s = T( int( c["s"] ) );
	auto set = []( vec3_<T> v, auto f ) { f( v ); return J3<T>( v ); };
	auto nz = [&]( const vec3_<T>& v ) { return vec3_<T>( v.x == 0 ? s : v.x, v.y == 0 ? s : v.y, v.z == 0 ? s : v.z ); };
	auto bn = nz( b );
	auto inv = T( 1 ) / bn;
	auto len = length( a );
	auto dl = direction_length( a );
	auto cl = set( a, [&]( auto& v ) { xo::clamp( v, -std::abs( s ), std::abs( s ) ); } );
	auto un = a; auto ul = normalize( un );
	J r = J::obj();
	r.set( "add", same( { J3<T>( a + b ), set( a, [&]( auto& v ) { v += b; } ) } ) ).set( "sub", same( { J3<T>( a - b ), set( a, [&]( auto& v ) { v -= b; } ) } ) ).set( "neg", J3<T>( -a ) );
	r.set( "times", same( { J3<T>( s * a ), J3<T>( a * s ), J3<T>( a * int( s ) ), J3<T>( int( s ) * a ), set( a, [&]( auto& v ) { v *= s; } ) } ) );
	r.set( "div", same( { J3<T>( a / s, s ), set( a, [&]( auto& v ) { v /= s; v *= s; } ), J3<T>( a / size_t( 7 ), T( 7 ) ), set( a, [&]( auto& v ) { v /= size_t( 7 ); v *= 7; } ) } ) );
	r.set( "mul", same( { J3<T>( multiply( a, b ) ), J3<T>( scaled( a, b ) ), set( a, [&]( auto& v ) { v *= b; } ), set( a, [&]( auto& v ) { scale( v, b ); } ) } ) );
	r.set( "back", same( { J3<T>( multiply( a, bn ) / bn ), set( multiply( a, bn ), [&]( auto& v ) { v /= bn; } ) } ) ).set( "inv", J3<T>( multiply( inv, bn ) ) );
	r.set( "dot", whole<T>( dot_product( a, b ) ) ).set( "cross", J3<T>( cross_product( a, b ) ) ).set( "len2", same( { whole<T>( squared_length( a ) ), whole<T>( len * len ) } ) );
	r.set( "dist2", same( { whole<T>( squared_distance( a, b ) ), whole<T>( distance( a, b ) * distance( b, a ) ) } ) ).set( "man", whole<T>( manhattan_length( a ) ) ).set( "abs", J3<T>( xo::abs( a ) ) ).set( "clamp", cl );
	r.set( "proj", squared_length( b ) == 0 ? J3<T>( b ) : J3<T>( projection( a, b ), squared_length( b ) ) ).set( "xy", J3<T>( projected_xy( a ) ) ).set( "xz", J3<T>( projected_xz( a ) ) ).set( "yz", J3<T>( projected_yz( a ) ) );
	r.set( "unit", same( { J3<T>( normalized( a ), len ), J3<T>( un, ul ), J3<T>( dl.first, dl.second ) } ) ).set( "isunit", is_normalized( a ) ).set( "null", a.is_null() && !a.is_nan() && a == vec3_<T>::zero() );
	bool e = a == b; r.set( "eq", ( a != b ) == !e && equal( a, b ) == e ? J( e ) : differs() );
	return r; );
}
OP( "vec4" ) { return BOTH(
	auto v4 = [&]( const J& j ) { return vec4_<T>( T( int( j[0] ) ), T( int( j[1] ) ), T( int( j[2] ) ), T( int( j[3] ) ) ); };
	auto j4 = []( const vec4_<T>& v, T f = 1 ) { return J4<T>( v.x, v.y, v.z, v[3], f ); };
	auto set = [&]( vec4_<T> v, auto f ) { f( v ); return j4( v ); };
	const auto a = v4( c["a"] ), b = v4( c["b"] ); const T s = T( int( c["s"] ) );
	return J::obj().set( "add", same( { j4( a + b ), set( a, [&]( auto& v ) { v += b; } ) } ) ).set( "sub", same( { j4( a - b ), set( a, [&]( auto& v ) { v -= b; } ) } ) ).set( "neg", j4( -a ) )
		.set( "times", same( { j4( s * a ), j4( a * s ), set( a, [&]( auto& v ) { v *= s; } ) } ) ).set( "div", same( { j4( a / s, s ), set( a, [&]( auto& v ) { v /= s; v *= s; } ) } ) )
		.set( "len2", same( { whole<T>( a.squared_length() ), whole<T>( a.length() * a.length() ) } ) ).set( "null", a.is_null() ); );
}
template< typename T > dynvec<T> dv( const J& j ) { dynvec<T> v( j.size() ); for ( size_t i = 0; i < j.size(); ++i ) v[i] = T( int( j[i] ) ); return v; }
template< typename T > J jd( const dynvec<T>& v, T s = 1 ) { J r = J::arr(); for ( auto& e : v ) r.push( whole<T>( e * s ) ); return r; }
OP( "vecn" ) { return BOTH(
	const auto a = dv<T>( c["a"] ), b = dv<T>( c["b"] ); const T s = T( int( c["s"] ) );
	auto set = [&]( dynvec<T> v, auto f ) { f( v ); return jd<T>( v ); };
	auto un = a; T ul = normalize( un );
	auto m = a; auto n = std::move( m ); dynvec<T> o; o = n; m = std::move( n ); n = m; auto& self = o; o = self; bool moved = m == a && n == a && o == a;
	bool e = a == b;
	return J::obj().set( "add", same( { jd<T>( a + b ), set( a, [&]( auto& v ) { v += b; } ) } ) ).set( "sub", same( { jd<T>( a - b ), set( a, [&]( auto& v ) { v -= b; } ) } ) ).set( "neg", jd<T>( -a ) )
		.set( "times", same( { jd<T>( s * a ), jd<T>( a * s ), jd<T>( int( s ) * a ), set( a, [&]( auto& v ) { v *= s; } ) } ) ).set( "div", same( { jd<T>( a / s, s ), set( a, [&]( auto& v ) { v /= s; v *= s; } ) } ) )
		.set( "len2", same( { whole<T>( a.squared_length() ), whole<T>( a.length() * a.length() ) } ) ).set( "dist2", same( { whole<T>( distance( a, b ) * distance( b, a ) ) } ) ).set( "dot", whole<T>( dot_product( a, b ) ) )
		.set( "unit", same( { jd<T>( normalized( a ), a.length() ), jd<T>( un, ul ) } ) ).set( "isunit", bool( is_normalized( a ) ) ).set( "null", a.is_null() ).set( "eq", ( a != b ) == !e && moved ? J( e ) : differs() ).set( "size", a.empty() == ( a.size() == 0 ) ? J( long( a.size() ) ) : differs() ); );
}
OP( "matn" ) { return BOTH(
	auto& m = c["m"]; const auto v = dv<T>( c["v"] );
	dynmat<T> x( v.size(), m.size() );
	for ( size_t r = 0; r < m.size(); ++r ) for ( size_t k = 0; k < v.size(); ++k ) x( k, r ) = T( int( m[r][k] ) );
	auto p = x * v; auto y = x; y.resize( int( c["c"] ), int( c["r"] ) );
	J rs = J::arr();
	for ( size_t r = 0; r < y.rows(); ++r ) { J row = J::arr(); for ( size_t k = 0; k < y.cols(); ++k ) row.push( whole<T>( std::as_const( y )( k, r ) ) ); rs.push( row ); }
	return J::obj().set( "prod", jd<T>( p ) ).set( "rows", long( x.rows() ) ).set( "cols", x.empty() ? -1 : long( x.cols() ) ).set( "resized", rs ); );
}
OP( "scale3" ) { return BOTH(
	auto a = v3<T>( c["s"] ); scale3_<T> s( a.x, a.y, a.z ); auto v = v3<T>( c["v"] );
	auto set = [&]( vec3_<T> w, auto f ) { f( w ); return J3<T>( w ); };
	auto sets = [&]( scale3_<T> w, auto f ) { f( w ); return J3<T>( w ); };
	scale3_<T> sv( v.x, v.y, v.z ), one = s; one.reset();
	return J::obj().set( "mul", same( { J3<T>( s * v ), J3<T>( v * s ), set( v, [&]( auto& w ) { w *= s; } ) } ) ).set( "both", same( { J3<T>( s * sv ), sets( s, [&]( auto& w ) { w *= sv; } ) } ) )
		.set( "div", same( { J3<T>( ( s * v ) / s ), set( s * v, [&]( auto& w ) { w /= s; } ), J3<T>( ( s * sv ) / s ), sets( s * sv, [&]( auto& w ) { w /= s; } ) } ) ).set( "one", one.is_one() && scale3_<T>().is_one() ? J( s.is_one() ) : differs() ); );
}
OP( "rot" ) { return BOTH(
	const T n = T( n2( c["q"] ) ), l = T( root( c["q"] ) );
	const auto raw = rawq<T>( c["q"] ); const auto q = normalized( raw ); const auto v = v3<T>( c["v"] );
	auto nq = raw; T nl = normalize( nq ); auto nt = raw; normalize_try_fast( nt ); auto nf = q; normalize_fast( nf ); auto scaled_q = q; scaled_q *= T( 3 );
	auto ax = axes_from_quat( q );
	auto m = mat33_from_axes( ax.x, ax.y, ax.z );
	auto rva = rotation_vector_angle_from_quat( q );
	auto aa = axis_angle_from_quat( q );
	// the angle of a rotation vector is its length
	bool angle_ok = std::abs( length( rva.first ) - rva.second.rad_value() ) < T( 1e-3 ) && std::abs( aa.second.rad_value() - rva.second.rad_value() ) < T( 1e-3 );
	J r = J::obj();
	r.set( "rot", J3<T>( q * v, n ) ).set( "back", same( { J3<T>( conjugate( q ) * v, n ), J3<T>( -q * v, n ), J3<T>( inverse( q ) * v, n ) } ) );
	r.set( "x", same( { J3<T>( local_x_axis( q ), n ), J3<T>( ax.x, n ), J3<T>( q * vec3_<T>::unit_x(), n ) } ) ).set( "y", same( { J3<T>( local_y_axis( q ), n ), J3<T>( ax.y, n ), J3<T>( q * vec3_<T>::unit_y(), n ) } ) ).set( "z", same( { J3<T>( local_z_axis( q ), n ), J3<T>( ax.z, n ), J3<T>( q * vec3_<T>::axis( 2 ), n ) } ) );
	r.set( "mat", JPos<T>( quat_from_mat33( m ), l ) ).set( "vector", angle_ok ? same( { JPos<T>( quat_from_rotation_vector( rotation_vector_from_quat( q ) ), l ), JPos<T>( quat_from_rotation_vector( rva.first ), l ) } ) : differs() );
	r.set( "axis", JPos<T>( quat_from_axis_angle( aa.first, aa.second ), l ) ).set( "inv", same( { JQ<T>( inverse( raw ), n ), JQ<T>( inverse( q ), l ) } ) ).set( "conj", same( { JQ<T>( conjugate( q ), l ), JQ<T>( -q, l ), JQ<T>( conjugate( raw ), T( 1 ) ) } ) );
	r.set( "n", same( { whole<T>( squared_length( raw ) ), whole<T>( length( raw ) * length( raw ) ), whole<T>( nl * nl ), whole<T>( length_xyz( raw ) * length_xyz( raw ) + raw.w * raw.w ) } ) );
	scaled_q *= T( 1 ) / T( 3 );
	r.set( "unit", same( { JQ<T>( q, l ), JQ<T>( nq, l ), JQ<T>( nt, l ), JQ<T>( nf, l ), JQ<T>( normalized_fast( q ), l ), JQ<T>( normalized_try_fast( raw ), l ), JQ<T>( scaled_q, l ) } ) );
	r.set( "isunit", is_normalized( q ) ? J( is_normalized( raw ) ) : differs() ).set( "ident", is_identity( raw ) == raw.is_identity() ? J( is_identity( raw ) ) : differs() ).set( "positive", same( { JQ<T>( positive( q ), l ), JQ<T>( positive( raw ), T( 1 ) ) } ) );
	return r; );
}
OP( "lean" ) { return BOTH(
	const T n = T( n2( c["q"] ) ); const auto q = unitq<T>( c["q"] );
	auto pair = [&]( radian_<T> a, T s, T co ) { T l = n * std::hypot( s, co ); return J::arr().push( whole<T>( l * std::sin( a.rad_value() ) ) ).push( whole<T>( l * std::cos( a.rad_value() ) ) ); };
	const auto x = q * vec3_<T>::unit_x(), y = q * vec3_<T>::unit_y(), z = q * vec3_<T>::unit_z();
	return J::obj().set( "pitch", pair( pitch( q ), y.z, y.y ) ).set( "roll", pair( roll( q ), x.y, x.x ) ).set( "yaw", pair( yaw( q ), z.x, z.z ) ); );
}
OP( "made" ) { return BOTH(
	const auto d = v3<T>( c["d"] ), v = v3<T>( c["v"] ); const auto m = mat33_from_diagonal( d ); auto w = m; J rows = J::arr(); bool eq = true;
	for ( int i = 0; i < 3; ++i ) { rows.push( J::arr().push( whole<T>( m[i][0] ) ).push( whole<T>( w[i][1] ) ).push( whole<T>( m[i][2] ) ) ); for ( int j = 0; j < 3; ++j ) eq = eq && m.ptr()[3 * i + j] == w[i][j]; }
	J p = J::arr(); for ( int i = 0; i < 3; ++i ) p.push( whole<T>( m[i][0] * v.x + m[i][1] * v.y + m[i][2] * v.z ) );
	using X = vec3_<T>; eq = eq && vec4_<T>::unit_w().w == 1 && vec4_<T>::unit_w().x == 0 && m.e00 == d.x && m.e11 == d.y && m.e22 == d.z && m.e12 == 0;
	auto deg = vec3deg_str( vec3deg_<T>( degree_<T>( v.x ), degree_<T>( v.y ), degree_<T>( v.z ) ) );
	auto rad = vec3deg_str( vec3rad_<T>( degree_<T>( v.x ), degree_<T>( v.y ), degree_<T>( v.z ) ) );
	return eq ? J::obj().set( "deg", same( { J( deg ), J( rad ) } ) ).set( "text", vec3_str( v ) ).set( "quat", quat_str( quat_<T>( d.x, v.x, v.y, v.z ) ) ).set( "axes", J::arr().push( J3<T>( X::diagonal( v.x ) ) ).push( J3<T>( X::neg_unit_x() ) ).push( J3<T>( X::neg_unit_y() ) ).push( J3<T>( X::neg_unit_z() ) ) ).set( "diag", p ).set( "rows", rows ) : differs(); );
}
OP( "tan" ) { return BOTH( degree_<T> d( 45 * int( c["k"] ) ); return same( { whole<T>( tan( d ) ), whole<T>( tan( radian_<T>( d ) ) ) } ); ); }
OP( "around" ) { return BOTH(
	const auto q = unitq<T>( c["q"] ); const T la = T( root( c["a"] ) ); const auto a = v3<T>( c["a"] ) / la;
	auto& Q = c["q"]; auto& A = c["a"];
	double d = 0; for ( int i = 0; i < 3; ++i ) d += double( int( Q[i + 1] ) ) * int( A[i] );
	double aa = n2( A ), w = double( int( Q[0] ) ) * aa;
	const T s = T( std::sqrt( w * w + d * d * aa ) );
	auto x = quat_angle_around_axis( q, a ); auto f = quat_angle_around_axis_fast( q, a );
	J r = same( { JPos<T>( x.first, s ), JPos<T>( quat_from_axis_angle( a, x.second ), s ), JPos<T>( f.first, s ), JPos<T>( quat_from_axis_angle( a, f.second ), s ), JPos<T>( quat_from_axis_angle( a, rotation_around_axis( q, a ) ), s ) } );
	auto xyz = rotation_around_xyz( q );
	if ( a == vec3_<T>::unit_x() ) return same( { r, JPos<T>( quat_from_x_angle( rotation_around_x( q ) ), s ), JPos<T>( quat_from_x_angle( xyz.x ), s ) } );
	if ( a == vec3_<T>::unit_y() ) return same( { r, JPos<T>( quat_from_y_angle( rotation_around_y( q ) ), s ), JPos<T>( quat_from_y_angle( xyz.y ), s ) } );
	if ( a == vec3_<T>::unit_z() ) return same( { r, JPos<T>( quat_from_z_angle( rotation_around_z( q ) ), s ), JPos<T>( quat_from_z_angle( xyz.z ), s ) } );
	return r; );
}
OP( "qq" ) { return BOTH(
	const T n = T( n2( c["q"] ) * n2( c["r"] ) ), l = T( root( c["q"] ) * root( c["r"] ) );
	const auto q = unitq<T>( c["q"] ), r = unitq<T>( c["r"] ); const auto v = v3<T>( c["v"] );
	auto p = q; p *= r;
	auto x = rawq<T>( c["q"] ), y = rawq<T>( c["r"] );
	bool e = x == y;
	return J::obj().set( "mul", same( { JQ<T>( q * r, l ), JQ<T>( p, l ), JQ<T>( x * y, T( 1 ) ) } ) ).set( "rot", same( { J3<T>( ( q * r ) * v, n ), J3<T>( q * ( r * v ), n ) } ) ).set( "from", JQ<T>( quat_from_quats( q, r ), l ) )
		.set( "eq", ( x != y ) == !e && equal( x, y ) == e ? J( e ) : differs() ); );
}
OP( "dirs" ) { return BOTH(
	const T l = T( root( c["a"] ) ); const auto a = v3<T>( c["a"] ) / l, b = v3<T>( c["b"] ) / l;
	auto q = quat_from_directions( a, b );
	return J::obj().set( "to", J3<T>( q * a, l ) ).set( "w2", whole<T>( 2 * l * l * q.w * q.w ) ); );
}
template< typename T > euler_order order( const J& c ) { euler_order o; if ( !from_str( c["o"].str(), o ) ) exit( 97 ); return o; }
template< typename T, typename A > quat_<T> by_name( const string& o, const A& e ) {
	return o == "xyz" ? quat_from_euler_xyz( e ) : o == "xzy" ? quat_from_euler_xzy( e ) : o == "yxz" ? quat_from_euler_yxz( e ) : o == "yzx" ? quat_from_euler_yzx( e ) : o == "zxy" ? quat_from_euler_zxy( e ) : quat_from_euler_zyx( e );
}
template< typename T > vec3rad_<T> of_name( const string& o, const quat_<T>& q ) {
	return o == "xyz" ? euler_xyz_from_quat( q ) : o == "xzy" ? euler_xzy_from_quat( q ) : o == "yxz" ? euler_yxz_from_quat( q ) : o == "yzx" ? euler_yzx_from_quat( q ) : o == "zxy" ? euler_zxy_from_quat( q ) : euler_zyx_from_quat( q );
}
OP( "euler" ) { return BOTH(
	auto& k = c["k"]; auto& o = c["o"].str(); auto eo = order<T>( c );
	T s = 1; for ( auto& e : k.a ) if ( e.i % 2 ) s *= std::sqrt( T( 2 ) );
	using D = degree_<T>; using A = radian_<T>;
	vec3_<D> d( D( 90 * int( k[0] ) ), D( 90 * int( k[1] ) ), D( 90 * int( k[2] ) ) ); vec3_<A> a( A( d.x ), A( d.y ), A( d.z ) );
	auto q = quat_from_euler( d, eo );
	prop_node pn, pa; pn.set( "x", 90 * int( k[0] ) ); pn.set( "y", 90 * int( k[1] ) ); pn.set( "z", 90 * int( k[2] ) );
	prop_node po = pn; po.set( "order", o );
	pa.add_value( 90 * int( k[0] ) ); pa.add_value( 90 * int( k[1] ) ); pa.add_value( 90 * int( k[2] ) );
	quat_<T> p1, p2; 
	bool parsed = from_prop_node( pn, p1 ) && from_prop_node( pa, p2 );
	prop_node pw; pw.set( "w", q.w ); pw.set( "x", q.x ); pw.set( "y", q.y ); pw.set( "z", q.z );
	quat_<T> p3, p4, p5; parsed = parsed && from_prop_node( pw, p3 ) && from_prop_node( po, p4 ) && from_prop_node( to_prop_node( q ), p5 );
	auto e = euler_from_quat( q, eo );
	J x = same( { JQ<T>( q, s ), JQ<T>( quat_from_euler( a, eo ), s ), JQ<T>( quat_from_euler( d.x, d.y, d.z, eo ), s ), JQ<T>( by_name<T>( o, a ), s ), JQ<T>( by_name<T>( o, d ), s ) } );
	return J::obj().set( "q", x ).set( "back", JPos<T>( quat_from_euler( e, eo ), s ) ).set( "parsed", parsed ? o == "xyz" ? same( { JQ<T>( p3, s ), JQ<T>( p4, s ), JQ<T>( p5, s ), JQ<T>( p1, s ), JQ<T>( p2, s ), JQ<T>( quat_from_euler( d ), s ) } ) : same( { JQ<T>( p3, s ), JQ<T>( p4, s ), JQ<T>( p5, s ) } ) : differs() ); );
}
OP( "euler_of" ) { return BOTH(
	const auto q = unitq<T>( c["q"] ); auto eo = order<T>( c ); auto& o = c["o"].str(); const T l = T( root( c["q"] ) );
	auto e = euler_from_quat( q, eo ), f = of_name( o, q );
	// the second angle is at most a right angle
	T mid = ( o[1] == 'x' ? e.x : o[1] == 'y' ? e.y : e.z ).rad_value();
	if ( !( std::abs( mid ) <= num<T>::half_pi + T( 1e-5 ) ) ) return differs();
	return same( { JPos<T>( quat_from_euler( e, eo ), l ), JPos<T>( by_name<T>( o, f ), l ) } ); );
}
OP( "tf" ) { return BOTH(
	const T n = T( n2( c["q"] ) ), l = T( root( c["q"] ) ), lr = T( root( c["q"] ) * root( c["r"] ) );
	const auto q = unitq<T>( c["q"] ), r = unitq<T>( c["r"] ); const auto p = v3<T>( c["p"] ), s = v3<T>( c["s"] ), v = v3<T>( c["v"] );
	const transform_<T> t( p, q ), u( s, r );
	auto m = t; m *= u;
	auto x = t * u, y = t.trans( u ), i = t.inv(), d = t.inv_trans( u );
	auto id = t * t.inv();
	prop_node tn( t ); transform_<T> text; bool parsed = from_prop_node( tn, text ) && tn.size() == 2;
	bool unit = std::abs( id.q.w - 1 ) < T( 1e-4 ) && length( id.p ) < T( 1e-3 );
	return J::obj().set( "at", same( { J3<T>( t * v, n ), J3<T>( t.trans( v ), n ) } ) ).set( "inv_at", same( { J3<T>( t.inv_trans( v ), n ), J3<T>( t.inv() * v, n ) } ) )
		.set( "cp", same( { J3<T>( x.p, n ), J3<T>( y.p, n ), J3<T>( m.p, n ), J3<T>( t * s, n ) } ) ).set( "cq", same( { JQ<T>( x.q, lr ), JQ<T>( y.q, lr ), JQ<T>( m.q, lr ), JQ<T>( t * r, lr ), JQ<T>( t.trans( r ), lr ) } ) )
		.set( "ip", J3<T>( i.p, n ) ).set( "iq", JQ<T>( i.q, l ) ).set( "dp", J3<T>( d.p, n ) ).set( "dq", same( { JQ<T>( d.q, lr ), JQ<T>( t.inv_trans( r ), lr ) } ) )
		.set( "text", parsed ? same( { J3<T>( text.p ) } ) : differs() ).set( "textq", JQ<T>( text.q, l ) ).set( "ident", unit && transform_<T>().is_identity() && transform_<T>::identity().is_identity() ? J( t.is_identity() ) : differs() ); );
}
OP( "mirror" ) { return BOTH(
	const T n = T( n2( c["q"] ) ), l = T( root( c["q"] ) );
	const auto q = unitq<T>( c["q"] ); const auto v = v3<T>( c["v"] );
	auto a = v; mirror_axis( a ); auto b = v; mirror_axis_if( b, true ); auto keep = v; mirror_axis_if( keep, false );
	auto t = mirrored( transform_<T>( v, q ) ); auto mi = v; mirror_if( mi, true );
	bool off = mirrored_if( v, false ) == v && keep == v && mirrored_axis_if( v, false ) == v && mirror_if( keep, false ) == v && mirrored( T( 3 ) ) == T( -3 ) && mirrored( 3 ) == -3;
	auto bd = mirrored( xo::bounds<T>( T( -2 ), T( 5 ) ) ); off = off && bd.lower == -5 && bd.upper == 2;
	return J::obj().set( "v", off ? same( { J3<T>( mirrored( v ) ), J3<T>( mirrored_if( v, true ) ), J3<T>( mi ) } ) : differs() ).set( "q", JQ<T>( mirrored( q ), l ) ).set( "a", same( { J3<T>( a ), J3<T>( b ), J3<T>( mirrored_axis_if( v, true ) ) } ) )
		.set( "rot", same( { J3<T>( mirrored( q * v ), n ), J3<T>( mirrored( q ) * mirrored( v ), n ) } ) ).set( "tp", J3<T>( t.p ) ).set( "tq", JQ<T>( t.q, l ) ); );
}
OP( "angle" ) { return BOTH(
	using D = degree_<T>; using A = radian_<T>;
	int a = c["a"], b = c["b"], s = c["s"];
	const D x( a ), y( b ); const A u( x ), v( y );
	auto deg = []( auto e ) { return whole<T>( e.deg_value() ); };
	auto back = []( auto e ) { return whole<T>( T( 180 ) / T( 3.14159265358979323846 ) * e.rad_value() ); };
	auto set = []( auto e, auto f ) { f( e ); return e; };
	auto cmp = []( bool p, bool q ) { return p == q ? J( p ) : differs(); };
	return J::obj().set( "add", same( { deg( x + y ), deg( u + v ), back( x + y ), back( u + v ), deg( set( x, [&]( auto& e ) { e += y; } ) ), deg( set( u, [&]( auto& e ) { e += v; } ) ) } ) )
		.set( "sub", same( { deg( x - y ), deg( u - v ), deg( set( x, [&]( auto& e ) { e -= y; } ) ) } ) ).set( "neg", same( { deg( -x ), deg( -u ) } ) ).set( "abs", same( { deg( xo::abs( x ) ), deg( xo::abs( u ) ) } ) )
		.set( "times", same( { deg( x * T( s ) ), deg( T( s ) * x ), deg( u * T( s ) ), deg( set( x, [&]( auto& e ) { e *= s; } ) ) } ) ).set( "div", same( { deg( ( x * T( s ) ) / T( s ) ), deg( set( u, [&]( auto& e ) { e *= s; e /= s; } ) ) } ) )
		.set( "lt", cmp( x < y, y > x ) ).set( "le", cmp( x <= y, y >= x ) ).set( "eq", cmp( x == y, !( x != y ) ) ).set( "rad", same( { back( x ), back( u ), whole<T>( rad_to_deg( deg_to_rad( T( a ) ) ) ), deg( D( u ) ), back( A( D( u ) ) ), deg( D( degree_<double>( a ) ) ) } ) ); );
}
OP( "trig" ) { return BOTH(
	int k = c["k"]; degree_<T> d( 90 * k ); radian_<T> a( d );
	auto p = vec3_from_polar( T( 2 ), d, degree_<T>( 0 ) );
	return J::obj().set( "sin", same( { whole<T>( sin( d ) ), whole<T>( sin( a ) ), whole<T>( p.z / 2 ) } ) ).set( "cos", same( { whole<T>( cos( d ) ), whole<T>( cos( a ) ), whole<T>( p.y / 2 ) } ) ); );
}

// a transform that is changed step by step
static transform_<double> td; static transform_<float> tf;
template< typename T > J code( T v ) {
	T a = std::abs( v ); int f = -7;
	T v4[] = { T( 0 ), T( 0.5 ), std::sqrt( T( 0.5 ) ), T( 1 ) };
	for ( int i = 0; i < 4; ++i ) if ( std::abs( a - v4[i] ) < T( sizeof( T ) == 8 ? 1e-9 : 1e-3 ) ) f = i;
	return J( v < 0 ? -f : f );
}
template< typename T > J seen( const transform_<T>& t ) { return J::obj().set( "q", J::arr().push( code<T>( t.q.w ) ).push( code<T>( t.q.x ) ).push( code<T>( t.q.y ) ).push( code<T>( t.q.z ) ) ).set( "p", J3<T>( t.p ) ); }
template< typename F > J step( F f ) { f( td ); f( tf ); return ok( same( { seen( td ), seen( tf ) } ) ); }
template< typename T > transform_<T> given( const J& c ) { return transform_<T>( v3<T>( c["p"] ), unitq<T>( c["q"] ) ); }
#define STEP( ... ) step( [&]( auto& t ) { using T = std::decay_t< decltype( t.q.w ) >; (void)sizeof( T ); __VA_ARGS__ } )
OP( "w_mul" ) { return STEP( t *= given<T>( c ); ); }
OP( "w_pre" ) { return STEP( t = given<T>( c ) * t; ); }
OP( "w_inv" ) { return STEP( t = t.inv(); ); }
OP( "w_mir" ) { return STEP( mirror( t ); ); }
OP( "w_rel" ) { return STEP( t = given<T>( c ).inv_trans( t ); ); }
int main() {
	vf::on_reset() = []( const J& ) { td = transform_<double>(); tf = transform_<float>(); };
	return vf::main_loop();
}
