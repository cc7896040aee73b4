#include "vf.h"
#include "xo/container/flat_map.h"
#include "xo/container/indexed_set.h"
#include "xo/container/prop_node.h"
#include "xo/container/prop_node_tools.h"
#include "xo/filesystem/path.h"
#include "xo/geometry/scale3.h"
#include "xo/geometry/vec3.h"
#include "xo/system/log.h"
#include "xo/system/log_sink.h"
#include "xo/time/time.h"
#include "xo/utility/proxy.h"
#include "xo/utility/smart_enum.h"
#include <array>
#include <cmath>
using std::string;
using vf::J;
using xo::prop_node;

static J same( std::initializer_list< J > l ) { string a, b; l.begin()->print( a ); int n = 0; for ( auto& j : l ) { b.clear(); j.print( b ); if ( a != b ) return J::arr().push( *l.begin() ).push( j ).push( n ).push( "differs" ); ++n; } return *l.begin(); }

namespace xo {
	xo_smart_enum_class( fruit, apple, pear, ripe_pear );
	static indexed_set< string, uint16 >& words() { static indexed_set< string, uint16 > s; return s; }
	template<> struct proxy_data< string, uint16 > {
		static const string& get_value( uint16 i ) { return words()[i]; }
		static uint16 get_index( const string& s ) { return words().get_or_add( s ); }
	};
}
using word = xo::proxy< string, xo::uint16 >;
using strings = std::vector< string >;
using ints = std::vector< int >;
using map_t = xo::flat_map< string, int >;
using arr3 = std::array< int, 3 >;

struct conf {
	static const ints& two() { static ints v{ 7, 8 }; return v; }
	conf() : limit( 0 ), speed( 0 ) {}
	conf( const prop_node& pn ) : INIT_MEMBER( pn, limit, 10 ), INIT_MEMBER_REQUIRED( pn, speed ), INIT_OPTIONAL_MEMBER( pn, name ), INIT_OPTIONAL_MEMBER( pn, size_ ), INIT_MEMBER( pn, items, two() ) {}
	int limit; double speed; xo::optional< string > name; xo::optional< int > size_; ints items;
};
XO_DEFINE_FROM_PROP_NODE_FOR_TYPE( conf )

// trees
static J put( const prop_node& n ) {
	J c = J::arr();
	for ( xo::index_t i = 0; i < n.size(); ++i ) c.push( J::obj().set( "k", codes( n.at( i ).first ) ).set( "n", put( n.at( i ).second ) ) );
	return J::obj().set( "v", codes( n.peek_str() ) ).set( "c", c );
}
static prop_node node( const J& j ) {
	prop_node n; n.set_value( j["v"].text() );
	for ( auto& k : j["c"].a ) n.add_child( k["k"].text(), node( k["n"] ) );
	return n;
}

// a value as it is written in the specification, and back
template< int P > static J num( double d ) { char b[64]; snprintf( b, sizeof b, "%.*g", P, d ); return codes( b ); }
template< typename T > struct as;
template<> struct as< int > { static J to( int v ) { return codes( std::to_string( v ) ); } static int from( const J& j ) { return int( strtoll( j.text().c_str(), 0, 10 ) ); } };
template<> struct as< unsigned > { static J to( unsigned v ) { return codes( std::to_string( v ) ); } static unsigned from( const J& j ) { return unsigned( strtoull( j.text().c_str(), 0, 10 ) ); } };
template<> struct as< long > { static J to( long v ) { return codes( std::to_string( v ) ); } static long from( const J& j ) { return strtol( j.text().c_str(), 0, 10 ); } };
template<> struct as< long long > { static J to( long long v ) { return codes( std::to_string( v ) ); } static long long from( const J& j ) { return strtoll( j.text().c_str(), 0, 10 ); } };
template<> struct as< unsigned long > { static J to( unsigned long v ) { return codes( std::to_string( v ) ); } static unsigned long from( const J& j ) { return strtoul( j.text().c_str(), 0, 10 ); } };
template<> struct as< unsigned long long > { static J to( unsigned long long v ) { return codes( std::to_string( v ) ); } static unsigned long long from( const J& j ) { return strtoull( j.text().c_str(), 0, 10 ); } };
template<> struct as< double > { static J to( double v ) { return num< 15 >( v ); } static double from( const J& j ) { return strtod( j.text().c_str(), 0 ); } };
template<> struct as< float > { static J to( float v ) { return num< 6 >( v ); } static float from( const J& j ) { return strtof( j.text().c_str(), 0 ); } };
template<> struct as< bool > { static J to( bool v ) { return J( v ); } static bool from( const J& j ) { return j.b(); } };
template<> struct as< string > { static J to( const string& v ) { return codes( v ); } static string from( const J& j ) { return j.text(); } };
template<> struct as< xo::path > { static J to( const xo::path& v ) { return codes( v.str() ); } static xo::path from( const J& j ) { return xo::path( j.text() ); } };
template<> struct as< word > { static J to( const word& v ) { return same( { codes( v.get() ), codes( static_cast< const string& >( v ) ), codes( xo::words()[v.index()] ), v == word( v.get() ) ? codes( v.get() ) : J( "unequal" ) } ); }
	static word from( const J& j ) { return word( j.text() ); } };
template<> struct as< xo::time > { static J to( const xo::time& v ) { double ms = v.milliseconds< double >(); return std::fabs( ms - std::llround( ms ) ) < 1e-6 ? J( std::llround( ms ) ) : codes( std::to_string( ms ) ); }
	static xo::time from( const J& j ) { return xo::time_from_milliseconds( double( j.i ) ); } };
template<> struct as< xo::fruit > { static J to( xo::fruit v ) { return J( int( v ) + 1 ); } static xo::fruit from( const J& j ) { return xo::fruit( int( j ) - 1 ); } };
template<> struct as< prop_node > { static J to( const prop_node& v ) { return put( v ); } static prop_node from( const J& j ) { return node( j ); } };
template< typename T > struct as< std::vector< T > > {
	static J to( const std::vector< T >& v ) { J r = J::arr(); for ( auto& e : v ) r.push( as< T >::to( e ) ); return r; }
	static std::vector< T > from( const J& j ) { std::vector< T > v; for ( auto& e : j.a ) v.push_back( as< T >::from( e ) ); return v; }
};
template<> struct as< arr3 > { static J to( const arr3& v ) { J r = J::arr(); for ( auto& e : v ) r.push( as< int >::to( e ) ); return r; } static arr3 from( const J& j ) { return { as< int >::from( j[0] ), as< int >::from( j[1] ), as< int >::from( j[2] ) }; } };
template<> struct as< map_t > {
	static J to( const map_t& v ) { J r = J::arr(); for ( auto& e : v ) r.push( J::obj().set( "k", codes( e.first ) ).set( "v", as< int >::to( e.second ) ) ); return r; }
	static map_t from( const J& j ) { map_t v; for ( auto& e : j.a ) v[e["k"].text()] = as< int >::from( e["v"] ); return v; }
};
template<> struct as< xo::vec3d > { static J to( const xo::vec3d& v ) { return J::arr().push( num< 15 >( v.x ) ).push( num< 15 >( v.y ) ).push( num< 15 >( v.z ) ); } static xo::vec3d from( const J& j ) { auto x = as< double >::from( j[0] ), y = as< double >::from( j[1] ), z = as< double >::from( j[2] ); return xo::vec3d( x, y, z ); } };
template<> struct as< xo::scale3_< double > > { static J to( const xo::scale3_< double >& v ) { return as< xo::vec3d >::to( v ); } static xo::scale3_< double > from( const J& j ) { auto v = as< xo::vec3d >::from( j ); return xo::scale3_< double >( v.x, v.y, v.z ); } };

template< typename F > static J attempt( F f ) { try { return ok( f() ); } catch ( std::exception& ) { return fail(); } }
// an optional whole number has one value that means none, so it cannot hold that one
template< typename T > static bool none_value( const J& r ) {
	if constexpr ( std::is_integral_v< T > && !std::is_same_v< T, bool > ) { string a, b; if ( !r["ok"].b() ) return false; r["v"].print( a ); as< T >::to( xo::constants< T >::sentinel() ).print( b ); return a == b; }
	else return false;
}
template< typename T > static J opt( const xo::optional< T >& o, const J& plain = fail() ) { return o ? ok( as< T >::to( *o ) ) : none_value< T >( plain ) ? plain : fail(); }

struct call {
	std::function< J( const prop_node& ) > read;        // every way to read the value of a node
	std::function< J( const J& ) > write;               // every way to store one
	std::function< J( const J& ) > keep, missing;
	std::function< prop_node( const J& ) > make;
	std::function< J( const prop_node&, const string& ) > get, all;
	std::function< J( const prop_node&, const string&, const J& ) > get_or;
	std::function< J( const prop_node&, int ) > get_at;
	std::function< J( const prop_node&, const string&, const string& ) > any;
	std::function< J( const prop_node&, const string&, const string&, const J& ) > any_or;
};

template< typename T > static T other() { T v = T(); return v; }

template< typename T, bool simple > static call calls_() {
	call c;
	c.read = []( const prop_node& n ) -> J {
		prop_node h; h.add_child( "pre", prop_node( "12" ) ); h.add_child( "k", n ); h.add_child( "k", n ); h.add_child( "", n );
		const prop_node& ch = h;
		J one = attempt( [&] { return as< T >::to( n.get< T >() ); } );
		J both = one["ok"].b() ? ok( J::arr().push( one["v"] ).push( one["v"] ) ) : one;
		T direct = T();
		return same( {
			one,
			attempt( [&] { return as< T >::to( ch.get< T >( "k" ) ); } ),
			attempt( [&] { return as< T >::to( ch["k"].get< T >() ); } ),
			attempt( [&] { return as< T >::to( h.get< T >( 1 ) ); } ),
			attempt( [&] { return as< T >::to( ch.get< T >( xo::index_t( 3 ) ) ); } ),
			attempt( [&] { return as< T >::to( ch.get< T >( "k", other< T >() ) ); } ),
			opt( n.try_get< T >(), one ),
			opt( ch.try_get< T >( "k" ), one ),
			attempt( [&] { T v = other< T >(); if ( !ch.try_get( v, "k" ) ) return J( "not found" ); return as< T >::to( v ); } ),
			attempt( [&] { return as< T >::to( ch.get_any< T >( { "no", "k" } ) ); } ),
			attempt( [&] { return as< T >::to( ch.get_any< T >( { "k", "pre" }, other< T >() ) ); } ),
			attempt( [&] { auto o = ch.try_get_any< T >( { "k" } ); return o ? as< T >::to( *o ) : none_value< T >( one ) ? one["v"] : J( "not found" ); } ),
			xo::from_prop_node( n, direct ) ? ok( as< T >::to( direct ) ) : fail(),
			attempt( [&] { auto v = ch.get_all< T >( "k" ); J l = J::arr(); for ( auto& e : v ) l.push( as< T >::to( e ) ); return same( { ok( l ), both } )["v"][1]; } )
		} );
	};
	c.write = []( const J& j ) -> J {
		const T v = as< T >::from( j );
		prop_node old; old.set_value( "old" ); old.add_child( "x", prop_node( "1" ) );
		prop_node a = old, b = old, h = old, q = old, val;
		a.set( v ); b = v; h["k"] = v; h.set( "x", v ); auto& added = h.add_key_value( "k", v ); J ad = put( added ); h.add_value( v ); q.set_query( "p.q", v );
		if constexpr ( simple ) val.set_value( v ); else val = a;
		prop_node m = xo::make_prop_node( "k", v );
		std::vector< T > two{ v, v }; prop_node range; range.add_values( two.begin(), two.end() );
		return ok( same( { put( xo::to_prop_node( v ) ), put( a ), put( b ), put( h["k"] ), put( h["x"] ), ad, put( h.at( 2 ).second ), put( h.at( 3 ).second ), put( q["p"]["q"] ), put( val ), put( m["k"] ), m.size() == 1 && h.size() == 4 && range.size() == 2 ? put( range[1] ) : J( "size" ), put( range[0] ) } ) );
	};
	c.keep = []( const J& j ) -> J {
		prop_node h; h.set( "k", as< T >::from( j ) ); prop_node cp = h;
		return same( { attempt( [&] { return as< T >::to( h.get< T >( "k" ) ); } ), attempt( [&] { return as< T >::to( cp["k"].get< T >() ); } ) } );
	};
	c.missing = []( const J& j ) -> J {
		const T v = as< T >::from( j ); const J s = as< T >::to( v );
		prop_node h; h.add_child( "pre", prop_node( "12" ) ); const prop_node& ch = h;
		T w = v;
		return ok( same( { s, as< T >::to( ch.get< T >( "k", v ) ), as< T >::to( ch.get_any< T >( { "k", "j" }, v ) ),
			ch.try_get( w, "k" ) ? J( "found" ) : as< T >::to( w ),
			ch.try_get< T >( "k" ) ? J( "found" ) : s, ch.try_get_any< T >( { "k", "no" } ) ? J( "found" ) : s, ch.get_all< T >( "k" ).empty() ? s : J( "found" ),
			attempt( [&] { return as< T >::to( ch.get< T >( "k" ) ); } )["ok"].b() ? J( "found" ) : s,
			attempt( [&] { return as< T >::to( ch.get< T >( 1 ) ); } )["ok"].b() ? J( "found" ) : s,
			attempt( [&] { return as< T >::to( ch.get_any< T >( { "k" } ) ); } )["ok"].b() ? J( "found" ) : s,
			h.size() == 1 ? s : J( "changed" ) } ) );
	};
	c.make = []( const J& j ) { return xo::to_prop_node( as< T >::from( j ) ); };
	c.get = []( const prop_node& n, const string& k ) { J one = attempt( [&] { return as< T >::to( n.get< T >( k ) ); } ); return same( { one, opt( n.try_get< T >( k ), one ) } ); };
	c.get_or = []( const prop_node& n, const string& k, const J& d ) { return attempt( [&] { return as< T >::to( n.get< T >( k, as< T >::from( d ) ) ); } ); };
	c.get_at = []( const prop_node& n, int i ) { return attempt( [&] { return as< T >::to( n.get< T >( xo::index_t( i ) ) ); } ); };
	c.all = []( const prop_node& n, const string& k ) { return attempt( [&] { return as< std::vector< T > >::to( n.get_all< T >( k ) ); } ); };
	c.any = []( const prop_node& n, const string& a, const string& b ) {
		J one = attempt( [&] { return as< T >::to( n.get_any< T >( { a, b } ) ); } );
		return same( { one, attempt( [&] { auto o = n.try_get_any< T >( { a, b } ); if ( !o && !none_value< T >( one ) ) throw std::runtime_error( "none" ); return as< T >::to( *o ); } ) } );
	};
	c.any_or = []( const prop_node& n, const string& a, const string& b, const J& d ) { return attempt( [&] { return as< T >::to( n.get_any< T >( { a, b }, as< T >::from( d ) ) ); } ); };
	return c;
}
template< typename T, typename U > static call calls2() { // two types with the same values
	call a = calls_< T, true >(), b = calls_< U, true >(), c = a;
	c.read = [=]( const prop_node& n ) { return same( { a.read( n ), b.read( n ) } ); };
	c.write = [=]( const J& j ) { return same( { a.write( j ), b.write( j ) } ); };
	c.keep = [=]( const J& j ) { return same( { a.keep( j ), b.keep( j ) } ); };
	c.missing = [=]( const J& j ) { return same( { a.missing( j ), b.missing( j ) } ); };
	return c;
}
static call read_only() {
	call c;
	c.read = []( const prop_node& n ) {
		// also over what was there before
		prop_node h; h.add_child( "k", n );
		return same( { attempt( [&] { return as< arr3 >::to( n.get< arr3 >() ); } ), opt( n.try_get< arr3 >() ), attempt( [&] { return as< arr3 >::to( h.get< arr3 >( "k" ) ); } ), opt( h.try_get< arr3 >( "k" ) ),
			attempt( [&] { return as< arr3 >::to( h.get_all< arr3 >( "k" ).at( 0 ) ); } ) } );
	};
	return c;
}

static const call& type( const J& t ) {
	static std::map< string, call > m{
		{ "int", calls_< int, true >() }, { "uint", calls_< unsigned, true >() }, { "long", calls2< long, long long >() }, { "ulong", calls2< unsigned long, unsigned long long >() },
		{ "double", calls_< double, true >() }, { "float", calls_< float, true >() }, { "str", calls_< string, true >() }, { "path", calls_< xo::path, true >() }, { "proxy", calls_< word, false >() },
		{ "time", calls_< xo::time, true >() }, { "enum", calls_< xo::fruit, true >() }, { "vint", calls_< ints, false >() }, { "vstr", calls_< strings, false >() }, { "vvint", calls_< std::vector< ints >, false >() },
		{ "vtime", calls_< std::vector< xo::time >, false >() }, { "venum", calls_< std::vector< xo::fruit >, false >() }, { "vnode", calls_< std::vector< prop_node >, false >() }, { "vvec3", calls_< std::vector< xo::vec3d >, false >() },
		{ "map", calls_< map_t, false >() }, { "vec3", calls_< xo::vec3d, false >() }, { "scale", calls_< xo::scale3_< double >, false >() }, { "node", calls_< prop_node, false >() }, { "arr3", read_only() } };
	static bool once = [] {
		// a list of bool cannot be taken from a tree, so no get_all
		call c;
		c.read = []( const prop_node& n ) {
			prop_node h; h.add_child( "k", n ); bool v = false, w = true;
			return same( { attempt( [&] { return J( n.get< bool >() ); } ), opt( n.try_get< bool >() ), attempt( [&] { return J( h.get< bool >( "k" ) ); } ), attempt( [&] { return J( h.get< bool >( "k", true ) ); } ), attempt( [&] { return J( h.get< bool >( "k", false ) ); } ),
				xo::from_prop_node( n, v ) ? ok( J( v ) ) : fail(), attempt( [&] { return h.try_get( w, "k" ) ? J( w ) : J( "not found" ); } ), attempt( [&] { return J( h.get_any< bool >( { "k" } ) ); } ) } );
		};
		c.write = []( const J& j ) { bool v = j.b(); prop_node a, h, t; a.set( v ); h["k"] = v; h.add_value( v ); t.set_value( v ); return ok( same( { put( a ), put( h["k"] ), put( h[1] ), put( t ) } ) ); };
		c.keep = []( const J& j ) { prop_node h; h.set( "k", j.b() ); return ok( J( h.get< bool >( "k" ) ) ); };
		c.missing = []( const J& j ) { prop_node h; bool w = j.b(); return ok( same( { J( h.get< bool >( "k", j.b() ) ), h.try_get( w, "k" ) ? J( "found" ) : J( w ), h.try_get< bool >( "k" ) ? J( "found" ) : J( w ) } ) ); };
		c.make = []( const J& j ) { return xo::to_prop_node( j.b() ); };
		m["bool"] = c;
		return true;
	}();
	(void)once;
	return m.at( t.s );
}

static prop_node root;

OP( "read" ) { return type( c["t"] ).read( node( c["n"] ) ); }
OP( "write" ) { return type( c["t"] ).write( c["v"] ); }
OP( "keep" ) { return type( c["t"] ).keep( c["v"] ); }
OP( "missing" ) { return type( c["t"] ).missing( c["v"] ); }
OP( "set" ) { root.set( c["k"].text(), type( c["t"] ).make( c["v"] ) ); return ok(); }
OP( "add" ) { root.add_key_value( c["k"].text(), type( c["t"] ).make( c["v"] ) ); return ok(); }
OP( "value" ) { root.set_value( c["v"].text() ); return ok(); }
OP( "values" ) { auto v = as< ints >::from( c["v"] ); root.add_values( v.begin(), v.end() ); return ok(); }
OP( "children" ) { root.add_children( size_t( int( c["n"] ) ), c["k"].text(), c["v"].text() ); return ok(); }
OP( "get" ) { return type( c["t"] ).get( root, c["k"].text() ); }
OP( "get_or" ) { return type( c["t"] ).get_or( root, c["k"].text(), c["v"] ); }
OP( "get_at" ) { return type( c["t"] ).get_at( root, c["i"] ); }
OP( "get_all" ) { return type( c["t"] ).all( root, c["k"].text() ); }
OP( "get_any" ) { auto& k = c["ks"]; return type( c["t"] ).any( root, k[0].text(), k[int( k.size() ) - 1].text() ); }
OP( "get_any_or" ) { auto& k = c["ks"]; return type( c["t"] ).any_or( root, k[0].text(), k[int( k.size() ) - 1].text(), c["v"] ); }

static J see( const conf& v ) {
	J name = J::arr(), size = J::arr(); if ( v.name ) name.push( codes( *v.name ) ); if ( v.size_ ) size.push( as< int >::to( *v.size_ ) );
	return J::obj().set( "limit", as< int >::to( v.limit ) ).set( "speed", as< double >::to( v.speed ) ).set( "name", name ).set( "size", size ).set( "items", as< ints >::to( v.items ) );
}
OP( "conf" ) {
	prop_node h; h.set( "c", root );
	return same( { attempt( [&] { return see( root.get< conf >() ); } ), attempt( [&] { return see( conf( root ) ); } ), attempt( [&] { return see( h.get< conf >( "c" ) ); } ) } );
}
OP( "confs" ) { return attempt( [&] { J r = J::arr(); for ( auto& v : root.get< std::vector< conf > >() ) r.push( see( v ) ); return r; } ); }
OP( "props" ) {
	J r = J::obj(); prop_node& n = root;
	r.set( "limit", attempt( [&] { int limit_ = 0; INIT_PROP( n, limit_, as< int >::from( c["v"] ) ); return as< int >::to( limit_ ); } ) );
	r.set( "need", attempt( [&] { int limit = 0; INIT_PROP_REQUIRED( n, limit ); return as< int >::to( limit ); } ) );
	r.set( "keep", same( { attempt( [&] { int limit_ = -1; TRY_INIT_PROP( n, limit_ ); return as< int >::to( limit_ ); } ), attempt( [&] { int limit_ = -1; TRY_GET_PROP( n, limit_ ); return as< int >::to( limit_ ); } ) } ) );
	J had; try { int limit = 0; had = J( TRY_GET_PROP( n, limit ) ); } catch ( std::exception& ) { had = J( true ); }
	r.set( "had", had );
	r.set( "named", attempt( [&] { double v = 0; INIT_PROP_NAMED( n, v, "speed", 2.0 ); return as< double >::to( v ); } ) );
	r.set( "must", attempt( [&] { double v = 0; INIT_PROP_NAMED_REQUIRED( n, v, "speed" ); return as< double >::to( v ); } ) );
	return ok( r );
}
OP( "setprop" ) { int limit_ = as< int >::from( c["v"] ); SET_PROP( root, limit_ ); return ok(); }
OP( "str" ) { return ok( codes( xo::make_str_from_prop_node( root ) ) ); }

struct rec_sink : xo::log::sink {
	J lines = J::arr();
	rec_sink() : sink( xo::log::level::trace, xo::log::format_flags() ) {}
	void hande_log_message( xo::log::level l, const string& msg ) override { lines.push( J::obj().set( "l", int( l ) ).set( "s", codes( msg ) ) ); }
};
OP( "log" ) { rec_sink s; xo::log_prop_node( root ); return ok( J::obj().set( "w", xo::prop_node_align_width( root ) ).set( "l", s.lines ) ); }

int main() {
	vf::on_reset() = []( const J& ) { root = prop_node(); };
	vf::on_obs() = [] { return put( root ); };
	return vf::main_loop();
}
