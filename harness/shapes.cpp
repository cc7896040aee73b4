#include "vf.h"
#include "xo/container/prop_node.h"
#include "xo/container/prop_node_tools.h"
#include "xo/geometry/quat.h"
#include "xo/geometry/transform.h"
#include "xo/shape/shape.h"
#include "xo/shape/shape_tools.h"
#include "xo/utility/color.h"
#include "xo/utility/color_gradient.h"
#include <cmath>
using std::string;
using vf::J;
using namespace xo;

static J whole( double v ) {
	if ( !( std::abs( v ) < 1e9 ) ) return J( "not a number" );
	double r = std::round( v ), tol = std::min( 0.4, 0.002 + 3e-6 * std::abs( v ) );
	return std::abs( v - r ) <= tol ? J( (long)r ) : J::arr().push( "not whole" ).push( (long)std::floor( v * 1000 ) );
}
static J same( std::initializer_list< J > l ) { string a, b; l.begin()->print( a ); for ( auto& j : l ) { b.clear(); j.print( b ); if ( a != b ) return J::arr().push( *l.begin() ).push( j ).push( "differs" ); } return *l.begin(); }
static J J3( const vec3f& v, double s = 1 ) { return J::arr().push( whole( s * v.x ) ).push( whole( s * v.y ) ).push( whole( s * v.z ) ); }
static J unknown() { return J::arr().push( -999 ).push( -999 ).push( -999 ); }
static vec3f v3( const J& j, float f = 1.0f ) { return vec3f( f * int( j[0] ), f * int( j[1] ), f * int( j[2] ) ); }
static double len( const J& j ) { double n = 0; for ( auto& e : j.a ) n += double( e.i ) * e.i; return std::sqrt( n ); }
static quatf unitq( const J& j ) { float f = float( 1 / len( j ) ); return quatf( f * int( j[0] ), f * int( j[1] ), f * int( j[2] ), f * int( j[3] ) ); }
static const double pi = 3.14159265358979323846;

// calls on the shape itself, and on the variant
template< typename F > J on( const J& s, F f ) {
	const auto& k = s["k"].str();
	float r = float( int( s["r"] ) ), h = float( int( s["h"] ) );
	if ( k == "sphere" ) return same( { f( sphere( r ) ), f( shape( sphere( r ) ) ) } );
	if ( k == "box" ) return same( { f( box( v3( s["d"], 0.5f ) ) ), f( shape( make_box( float( int( s["d"][0] ) ), float( int( s["d"][1] ) ), float( int( s["d"][2] ) ) ) ) ) } );
	if ( k == "cylinder" ) return same( { f( cylinder( r, h ) ), f( shape( cylinder( r, h ) ) ) } );
	if ( k == "capsule" ) return same( { f( capsule( r, h ) ), f( shape( capsule( r, h ) ) ) } );
	if ( k == "cone" ) return same( { f( cone( r, h ) ), f( shape( cone( r, h ) ) ) } );
	return same( { f( plane( v3( s["d"] ) ) ), f( shape( plane( v3( s["d"] ) ) ) ) } );
}
static J see( const char* k, float r, float h, vec3f d ) { return J::obj().set( "d", J3( d ) ).set( "h", whole( h ) ).set( "k", k ).set( "r", whole( r ) ); }
static J see( const sphere& s ) { return see( "sphere", s.radius_, 0, vec3f::zero() ); }
static J see( const box& s ) { return see( "box", 0, 0, 2.0f * s.half_dim_ ); }
static J see( const cylinder& s ) { return see( "cylinder", s.radius_, s.height_, vec3f::zero() ); }
static J see( const capsule& s ) { return see( "capsule", s.radius_, s.height_, vec3f::zero() ); }
static J see( const cone& s ) { return see( "cone", s.radius_, s.height_, vec3f::zero() ); }
static J see( const plane& s ) { return see( "plane", 0, 0, s.normal_ ); }
static J see( const shape& s ) { return std::visit( []( auto&& a ) { return see( a ); }, s ); }

OP( "shape" ) { return ok( on( c["s"], [&]( auto s ) {
	const auto& k = c["s"]["k"].str();
	double p = k == "box" ? 1 : pi;
	float n = float( int( c["n"] ) ), f = float( int( c["f"] ) );
	vec3f v = v3( c["v"] );
	J r = J::obj();
	r.set( "vol", whole( 3 * volume( s ) / p ) );
	r.set( "dim", k == "plane" ? unknown() : J3( dim( s ) ) );
	r.set( "inertia", k == "cone" ? unknown() : J3( inertia( s, n ), 60 / p ) );
	auto a = s, b = s; scale( a, f ); scale( b, v );
	r.set( "scaled", same( { see( a ), see( scaled( shape( s ), f ) ) } ) ).set( "scaledv", same( { see( b ), see( scaled( shape( s ), v ) ) } ) );
	decltype( s ) again; shape other;
	auto pn = to_prop_node( s );
	bool read = from_prop_node( pn, again ) && from_prop_node( pn, other );
	r.set( "back", read ? same( { see( again ), see( other ) } ) : J( "not read" ) );
	bool odd = k == "box" && ( int( c["s"]["d"][0] ) % 2 || int( c["s"]["d"][1] ) % 2 || int( c["s"]["d"][2] ) % 2 );
	r.set( "text", odd ? J( "odd" ) : J( to_str( s ) ) ).set( "valid", is_valid( shape( s ) ) );
	return r; } ) ); }

OP( "read" ) {
	prop_node pn;
	pn.set( "type", c["k"].str() );
	for ( auto& e : c["e"].a ) {
		string t; for ( auto& x : e[1].a ) t += ( t.empty() ? "" : " " ) + std::to_string( int( x ) );
		pn.add_key_value( e[0].str(), t );
	}
	shape s;
	if ( !from_prop_node( pn, s ) ) return ok( "no" );
	return ok( see( s ) );
}

OP( "far" ) {
	const float l = float( int( c["l"] ) );
	const vec3f dir = v3( c["a"] ) / l;
	return ok( on( c["s"], [&]( auto s ) -> J {
		if constexpr ( std::is_same_v< decltype( s ), cone > ) return J();
		else {
			auto d = distance_from_center( s, dir );
			auto i = intersection_from_center( shape( s ), dir );
			if ( !( std::abs( dot_product( i, dir ) - d ) < 1e-3 ) || !( length( cross_product( i, dir ) ) < 1e-3 ) ) return J( "not on the ray" );
			return whole( d * int( c["m"] ) );
		} } ) ); }

static J JB( const aabbf& b, double s = 1 ) { return J::obj().set( "hi", J3( b.upper_bounds, s ) ).set( "lo", J3( b.lower_bounds, s ) ); }
OP( "bounds" ) {
	aabbf b, d( v3( c["ps"][0] ) ), e;
	for ( auto& p : c["ps"].a ) { b += v3( p ); d += aabbf( v3( p ) ); e += aabbf( v3( p ), v3( p ) ); }
	b += b;
	// the box of the boxes around each two points that follow each other, and of those around all up to each
	aabbf f( v3( c["ps"][0] ) ), g( v3( c["ps"][0] ) ), h;
	for ( size_t i = 0; i + 1 < c["ps"].a.size(); ++i ) { aabbf x( v3( c["ps"][i] ) ); x += v3( c["ps"][i + 1] ); f += x; h += v3( c["ps"][i] ); g += h; }
	g += v3( c["ps"][c["ps"].a.size() - 1] );
	return ok( same( { JB( b ), JB( d ), JB( e ), JB( f ), JB( g ) } ) );
}
OP( "boxat" ) {
	transformf t( v3( c["p"] ), unitq( c["q"] ) );
	box b( v3( c["d"], 0.5f ) );
	aabbf all;
	for ( auto& x : corners( b ) ) all += t * x;
	double n = 2 * len( c["q"] ) * len( c["q"] );
	return ok( same( { JB( aabb( b, t ), n ), JB( aabb( shape( b ), t ), n ), JB( all, n ) } ) );
}
OP( "ballat" ) {
	transformf t( v3( c["p"] ), unitq( c["q"] ) );
	float r = float( int( c["r"] ) ); sphere s( r );
	return ok( same( { JB( aabb( s, t ) ), JB( aabb( shape( s ), t ) ) } ) );
}
OP( "caps" ) {
	auto p = center_positions( capsule( 1, float( int( c["h"] ) ) ), transformf( v3( c["p"] ), unitq( c["q"] ) ) );
	return ok( J::obj().set( "a", J3( p.first ) ).set( "b", J3( p.second, len( c["q"] ) * len( c["q"] ) ) ) );
}
OP( "meet" ) {
	auto p = intersection( linef( v3( c["p"] ), v3( c["d"] ) ), plane( v3( c["n"] ) ), transformf( v3( c["t"] ), unitq( c["q"] ) ) );
	auto d = intersection( lined( vec3d( v3( c["p"] ) ), vec3d( v3( c["d"] ) ) ), plane( v3( c["n"] ) ), transformd( vec3d( v3( c["t"] ) ), quatd( unitq( c["q"] ) ) ) );
	return ok( same( { J3( p, int( c["m"] ) ), J3( vec3f( d ), int( c["m"] ) ) } ) );
}

static color col( const J& j, float m ) { return color( int( j[0] ) / m, int( j[1] ) / m, int( j[2] ) / m, int( j[3] ) / m ); }
static color cold( const J& j, double m ) { return color( int( j[0] ) / m, int( j[1] ) / m, int( j[2] ) / m, int( j[3] ) / m ); }
static J JC( const color& c, double m ) { return J::arr().push( whole( m * c.r ) ).push( whole( m * c.g ) ).push( whole( m * c.b ) ).push( whole( m * c.a ) ); }
static J bytes( uint32 x ) { J r = J::arr(); for ( int i = 24; i >= 0; i -= 8 ) r.push( ( x >> i ) & 255u ); return r; }
OP( "col" ) {
	color a = col( c["a"], 255 ), b = col( c["b"], 255 );
	int s = c["s"];
	auto cl = a; xo::clamp( cl );
	J r = J::obj();
	r.set( "add", JC( a + b, 255 ) ).set( "sub", JC( a - b, 255 ) );
	r.set( "times", same( { JC( s * a, 255 ), JC( a * s, 255 ), JC( float( s ) * a, 255 ), JC( a * float( s ), 255 ), JC( double( s ) * a, 255 ), JC( a * double( s ), 255 ), JC( s * cold( c["a"], 255 ), 255 ) } ) );
	r.set( "eq", same( { a == b, !( a != b ) } ) ).set( "lt", same( { a < b, ( b < a ) == false && a != b } ) ).set( "clamp", JC( cl, 255 ) ).set( "null", same( { a.is_null(), a == color::null() } ) );
	r.set( "rgb", bytes( hex_rgb_from_color( a ) ) ).set( "rgba", bytes( hex_rgba_from_color( a ) ) );
	r.set( "back", JC( color_from_hex_rgba( hex_rgba_from_color( a ) ), 255 ) ).set( "opaque", JC( color_from_hex_rgb( hex_rgb_from_color( a ) ), 255 ) );
	auto mod = [&]( int i ) { return float( ( int( c["b"][i] ) % 4 + 4 ) % 4 ); };
	auto pb = perceived_brightness( color( mod( 0 ), mod( 1 ), mod( 2 ) ) );
	r.set( "light", whole( 1000.0 * pb * pb ) );
	return ok( r );
}
OP( "hsv" ) { return ok( JC( color_from_hsv( 15.0f * int( c["h"] ), int( c["s"] ) / 4.0f, int( c["v"] ) / 4.0f ), 64 ) ); }
OP( "named" ) {
	const auto& k = c["k"].str();
	float s = int( c["s"] ) / 4.0f, v = int( c["v"] ) / 4.0f;
	auto f = [&]( auto fn, color full ) { return same( { JC( fn( v, s ), 64 ), full == fn( 1.0f, 1.0f ) ? JC( fn( v, s ), 64 ) : J( "default" ) } ); };
	return ok( k == "red" ? f( color::red, color::red() ) : k == "orange" ? f( color::orange, color::orange() ) : k == "yellow" ? f( color::yellow, color::yellow() ) : k == "green" ? f( color::green, color::green() )
		: k == "cyan" ? f( color::cyan, color::cyan() ) : k == "blue" ? f( color::blue, color::blue() ) : k == "magenta" ? f( color::magenta, color::magenta() ) : JC( color::white( v ), 64 ) );
}
OP( "unique" ) {
	float br = int( c["b"] ) / 4.0f;
	std::vector< color > cs;
	bool different = true, within = true, bright = true;
	for ( int i = 0; i < int( c["n"] ); ++i ) {
		auto n = make_unique_color( i, br );
		for ( auto& o : cs ) different &= n != o;
		cs.push_back( n );
		auto cl = n; xo::clamp( cl );
		within &= cl == n && n.a == 1.0f;
		auto top = std::max( n.r, std::max( n.g, n.b ) ), pb = perceived_brightness( n );
		bright &= top > 0 && pb <= br + 1e-4f && ( pb >= br - 1e-4f || top > 1 - 1e-4f );   // as bright as asked for, or as bright as it can be
	}
	return ok( J::obj().set( "different", different ).set( "within", within ).set( "bright", bright ) );
}
// a colour in a tree, read in every way
static J reads( const prop_node& pn, double m ) {
	prop_node root; root.add_child( "c", pn );
	color a; bool okay = from_prop_node( pn, a );
	auto t = pn.try_get< color >();
	if ( okay != bool( t ) || okay != bool( root.try_get< color >( "c" ) ) ) return ok( "differs" );
	color d = root.get( "c", color::null() );
	if ( !okay ) return d == color::null() || d == color() ? fail() : ok( "default" );
	return ok( same( { JC( a, m ), JC( *t, m ), JC( pn.get< color >(), m ), JC( root.get< color >( "c" ), m ), JC( d, m ) } ) );
}
OP( "text" ) { return reads( prop_node( c["t"].str() ), 255 ); }
OP( "hsvtext" ) {
	if ( !c["t"].str().empty() ) return reads( prop_node( c["t"].str() ), 64 );
	prop_node pn;
	// left out: hue 0, full saturation, full value
	prop_node full;
	int h = c["h"], s = c["s"], v = c["v"];
	full.set( "h", 15 * h ); full.set( "s", s / 4.0f ); full.set( "v", v / 4.0f );
	if ( h != 0 ) pn.set( "h", 15 * h );
	if ( s != 4 ) pn.set( "s", s / 4.0f );
	if ( v != 4 || pn.empty() ) pn.set( "v", v / 4.0f );
	auto a = reads( pn, 64 ), b = reads( full, 64 );
	return a.dump() == b.dump() ? a : ok( "differs" );
}
OP( "node" ) {
	prop_node pn;
	const char* names[] = { "r", "g", "b", "a" };
	for ( int i = 0; i < ( c["a"].b() ? 4 : 3 ); ++i )
		if ( c["b"].b() ) pn.add_key_value( names[i], int( c["c"][i] ) / 4.0f ); else pn.add_value( int( c["c"][i] ) / 4.0f );
	return reads( pn, 4 );
}
OP( "grad" ) {
	auto& g = c["g"];
	auto e = [&]( int i ) { return pair< float, color >( int( g[i][0] ) / 4.0f, col( g[i][1], 255 ) ); };
	color_gradient cg = g.size() == 1 ? color_gradient( { e( 0 ) } ) : g.size() == 2 ? color_gradient( { e( 1 ), e( 0 ) } ) : color_gradient( { e( 1 ), e( 2 ), e( 0 ) } );
	return ok( JC( cg( int( c["x"] ) / 4.0f ), 255 * int( c["m"] ) ) );
}

int main() { return vf::main_loop(); }
