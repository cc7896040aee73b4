#include "vf.h"
#include "xo/xo_types.h"
#include "xo/utility/factory.h"
#include <set>
#include <array>
using namespace xo;

struct base { virtual ~base() {} int x, y; virtual int type() const = 0; base( int a, int b ) : x( a ), y( b ) { live().insert( this ); }
	static std::set<base*>& live() { static std::set<base*> s; return s; } };
struct fcircle : base { using base::base; int type() const override { return 1; } };
struct fsquare : base { using base::base; int type() const override { return 2; } };
struct fthrow : base { fthrow( int a, int b ) : base( a, b ) { live().erase( this ); throw std::runtime_error( "cannot be made" ); } int type() const override { return 3; } };
namespace sub { struct gnested : base { using base::base; int type() const override { return 4; } }; }
using F = factory< base, int, int >;
static F* f;
namespace xo { template<> F& get_factory() { return *f; } }

// names in text order; 4..7 are the clean names of the types
static const std::vector<std::string> names = { "", "*", "A b", "fcircle", "fsquare", "fthrow", "gnested", "z", "\xc3\xa9" };
static std::string nm( int i ) { return names.at( i - 1 ); }
static int no( const std::string& s ) { for ( size_t i = 0; i < names.size(); ++i ) if ( names[i] == s ) return int( i + 1 ); return 0; }

template< typename R > static void with_type( int t, R r ) {
	switch ( t ) { case 1: r( (fcircle*)0 ); break; case 2: r( (fsquare*)0 ); break; case 3: r( (fthrow*)0 ); break; case 4: r( (sub::gnested*)0 ); break; default: exit( 97 ); }
}
struct Any { virtual ~Any() {} };
template< typename T > struct Reg_ : Any { factory_registrant<F, T> r; Reg_( const std::string& n ) : r( *f, n ) {} };
template< typename T > struct Reg2_ : Any { factory_registrant<F, T> r; Reg2_( const std::string& n ) : r( n ) {} };
template< typename T > struct Reg3_ : Any { factory_registrant<F, T> r; Reg3_( const std::string& n ) : r( make_factory_registrant<T>( *f, n ) ) {} };
static auto& reg = *new std::array< std::unique_ptr<Any>, 2 >; static std::string own[2];
static std::vector< u_ptr<base> > keep;

static J made( u_ptr<base> p ) {
	J a = J::arr();
	if ( !p ) return ok( a );
	for ( auto& k : keep ) if ( k.get() == p.get() ) return ok( "shared object" );
	a.push( p->type() ).push( p->x ).push( p->y );
	keep.push_back( std::move( p ) );
	return ok( a );
}

OP( "register" ) { with_type( c["t"].i, [&]( auto* p ) { auto& r = f->template register_type< std::remove_pointer_t<decltype( p )> >( nm( c["n"].i ) ); if ( &r != f ) throw 1; } ); return ok(); }
OP( "register_default" ) { with_type( c["t"].i, [&]( auto* p ) { f->template register_type< std::remove_pointer_t<decltype( p )> >(); } ); return ok(); }
OP( "unregister" ) { f->unregister_type( nm( c["n"].i ) ); return ok(); }
OP( "create" ) { return made( f->create( nm( c["n"].i ), c["x"].i, c["y"].i ) ); }
OP( "try_create" ) { return made( f->try_create( nm( c["n"].i ), c["x"].i, c["y"].i ) ); }
OP( "has" ) { return ok( f->has_type( nm( c["n"].i ) ) ); }
OP( "find_node" ) {
	prop_node pn;
	for ( auto& k : c["ks"].a ) pn.add_child( nm( k.i ) ).add_child( "a" );
	auto it = find_factory_prop_node( *f, pn );
	auto it2 = find_factory_prop_node<F>( pn );
	if ( it != it2 ) return ok( "differ" );
	return ok( it == pn.end() ? -1 : int( it - pn.begin() ) );
}
OP( "registrant" ) {
	int r = c["r"].i - 1;
	if ( reg[r] ) return fail();
	auto n = nm( c["n"].i );
	static int alt = 0;
	with_type( c["t"].i, [&]( auto* p ) {
		using T = std::remove_pointer_t<decltype( p )>;
		switch ( ++alt % 3 ) { case 0: reg[r].reset( new Reg_<T>( n ) ); break; case 1: reg[r].reset( new Reg2_<T>( n ) ); break; default: reg[r].reset( new Reg3_<T>( n ) ); }
	} );
	own[r] = n;
	return ok();
}
// the destructor of a registrant may not throw: a user keeps its name registered until then
OP( "registrant_end" ) { int r = c["r"].i - 1; if ( !reg[r] || !f->has_type( own[r] ) ) return fail(); reg[r].reset(); return ok(); }
OP( "copy" ) { F g = *f; *f = F(); *f = g; return ok(); }

int main() {
	vf::on_reset() = []( const J& c ) {
		keep.clear();
		for ( int r = 0; r < 2; ++r ) if ( reg[r] ) { if ( !f->has_type( own[r] ) ) f->register_type<fcircle>( own[r] ); reg[r].reset(); }
		delete f; f = new F;
	};
	vf::on_obs() = [] {
		J n = J::arr(), m = J::arr();
		const F& cf = *f;
		for ( auto& [name, create] : cf ) {
			n.push( no( name ) );
			try { m.push( create( 1, 2 )->type() ); } catch ( std::runtime_error& ) { m.push( 3 ); }
		}
		return J::obj().set( "names", n ).set( "empty", cf.empty() ).set( "makes", m );
	};
	return vf::main_loop();
}
