#include "vf.h"
#include "xo/xo_types.h"
#include "xo/container/handle_vector.h"
#include "xo/container/collection.h"
#include "xo/container/collection_ic.h"
#include <memory>
using namespace xo;
struct B { int v; };
using H = handle<int>; using X = index_class<int>; using X8 = index_class<int, unsigned char>;

// one interface over the three containers; positions as long, -1: invalid
struct If {
	virtual ~If() {}
	virtual J run( const std::string& op, const J& c ) = 0;
	virtual J obs() = 0;
};
static long pos( const H& h ) { return h ? long( h.value() ) : -1; }
static long pos( const X& h ) { return h ? long( h.value() ) : -1; }

template< typename HT > struct Base : If {
	HT h[3];
	bool handle_op( const std::string& op, const J& c, J& r ) {
		auto& k = h[c["k"].i - 1];
		if ( op == "reset_h" ) { k.reset(); r = ok(); return true; }
		if ( op != "copy" && op != "move" && op != "move_assign" ) return false;
		auto& t = h[c["t"].i - 1];
		if ( &t == &k ) r = fail();
		else if ( op == "copy" ) { HT x( k ); t = x; r = ok(); }
		else if ( op == "move" ) { HT x( std::move( k ) ); t = x; r = ok(); }
		else { t = std::move( k ); k.reset(); r = ok(); }
		return true;
	}
	J hobs( J o ) {
		J hv = J::arr(), val = J::arr();
		for ( auto& x : h ) { hv.push( pos( x ) ); val.push( bool( x ) ); }
		bool eq = h[0] == h[1];
		if ( eq == ( h[0] != h[1] ) ) hv.push( "== and != agree" );
		return o.set( "h", hv ).set( "val", val ).set( "eq", eq ).set( "lt", h[0] < h[1] );
	}
};

template< typename C > struct HBase : Base<H> {
	using Base<H>::h;
	C c_;
	handle_vector<int>& vec();
	const handle_vector<int>& cvec() { return vec(); }
	bool erase_op( const std::string& op, const J& c, J& r ) {
		auto& v = vec();
		if ( op != "erase" && op != "erase_span" && op != "erase_update" ) return false;
		if ( op == "erase" ) {
			auto& k = h[c["k"].i - 1];
			if ( !v.contains( k ) ) r = fail(); else r = ok( pos( c_.erase( k ) ) );
			return true;
		}
		size_t i = c["i"].i, j = c["j"].i;
		if ( i > j || j > v.size() ) { r = fail(); return true; }
		handle_span<int> erased{ H( i ), H( j ) }, moved{ H( j ), v.end_handle() };
		long p = pos( c_.erase( erased ) );
		if ( op == "erase_update" )
			for ( auto& x : h ) {
				if ( erased.contains( x ) ) x.reset();
				else update_moved_handle( x, moved, erased.begin() );
			}
		r = ok( p );
		return true;
	}
	J hvobs() {
		auto& v = vec();
		J a = J::arr(), it = J::arr(), sp = J::arr(), in = J::arr(), be = J::arr();
		for ( size_t i = 0; i < v.size(); ++i ) a.push( v[H( i )] );
		for ( auto& x : v ) it.push( x );
		auto s = cvec().span();
		size_t guard = 0;
		for ( auto i = s.begin(); i != s.end() && guard < 500; i++, ++guard ) sp.push( c_[*i] );
		if ( s.size() != v.size() || s.empty() != v.empty() ) sp.push( "span size" );
		if ( s.begin() != v.span( v.span_begin() ).begin() || v.span( v.span_begin() ).end() != v.span_end() ) sp.push( "span ends" );
		for ( auto& x : h ) {
			if ( s.contains( x ) != v.contains( x ) ) in.push( "span and container disagree" );
			in.push( v.contains( x ) ); be.push( s.is_beyond( x ) );
			if ( v.contains( x ) && ( &*v.iter( x ) != &v[x] || &*cvec().iter( x ) != &v[x] || &*x.iter( v ) != &v[x] || &*x.iter( cvec() ) != &v[x] ) ) in.push( "iter" );
		}
		if ( H::end( v ) != v.end_handle() || ( v.size() && H::back( v ) != v.back_handle() ) ) in.push( "end/back" );
		return hobs( J::obj().set( "a", a ).set( "it", it ).set( "span", sp ).set( "in", in ).set( "beyond", be )
			.set( "n", v.size() ).set( "empty", v.empty() ).set( "endh", long( v.end_handle().value() ) ) );
	}
};
using Col = collection<uint32, int, B>;
template<> handle_vector<int>& HBase< handle_vector<int> >::vec() { return c_; }
template<> handle_vector<int>& HBase< Col >::vec() { return c_.get_vec<int>(); }

struct Vec : HBase< handle_vector<int> > {
	J run( const std::string& op, const J& c ) override {
		J r;
		if ( erase_op( op, c, r ) ) return r;
		if ( op == "pop_back" ) { if ( c_.empty() ) return fail(); c_.pop_back(); return ok(); }
		if ( op == "clear" ) { c_.clear(); return ok(); }
		if ( handle_op( op, c, r ) ) return r;
		auto& k = h[c["k"].i - 1];
		if ( op == "push" ) { int v = c["v"].i; k = c_.push_back( v ); return ok( pos( k ) ); }
		if ( op == "push_move" ) { k = c_.push_back( int( c["v"].i ) ); return ok( pos( k ) ); }
		if ( op == "emplace" ) { k = c_.emplace_back( c["v"].i ); return ok( pos( k ) ); }
		if ( op == "get" ) { if ( !c_.contains( k ) ) return fail(); return ok( c_[k] ); }
		if ( op == "cget" ) { if ( !c_.contains( k ) ) return fail(); return ok( cvec()[k] ); }
		if ( op == "set" ) { if ( !c_.contains( k ) ) return fail(); c_[k] = c["v"].i; return ok(); }
		if ( op == "find" ) { k = c_.find( c["v"].i ); return ok( pos( k ) ); }
		if ( op == "find_from" ) { if ( size_t( c["i"].i ) > c_.size() ) return fail(); k = c_.find( c_.span( H( c["i"].i ) ), c["v"].i ); return ok( pos( k ) ); }
		if ( op == "at" ) { if ( size_t( c["i"].i ) > c_.size() ) return fail(); k = c_.handle_from_iterator( c_.begin() + c["i"].i ); return ok(); }
		if ( op == "handle_of" ) { if ( size_t( c["i"].i ) >= c_.size() ) return fail(); k = H( c["i"].i ); return ok( pos( k ) ); }
		if ( op == "back_handle" ) { k = c_.back_handle(); return ok( pos( k ) ); }
		return fail();
	}
	J obs() override { return hvobs().set( "b", J::arr() ); }
};

struct Coll : HBase< Col > {
	J run( const std::string& op, const J& c ) override {
		J r;
		auto& v = vec(); auto& b = c_.get_vec<B>();
		if ( erase_op( op, c, r ) ) return r;
		if ( op == "pop_back" ) { if ( v.empty() ) return fail(); v.pop_back(); return ok(); }
		if ( op == "clear" ) { c_.clear(); return ok(); }
		if ( op == "push_b" ) { auto x = c_.push_back( B{ int( c["v"].i ) } ); return ok( long( x.value() ) ); }
		if ( op == "pop_b" ) { if ( b.empty() ) return fail(); c_.erase( b.back_handle() ); return ok(); }
		if ( handle_op( op, c, r ) ) return r;
		auto& k = h[c["k"].i - 1];
		if ( op == "push" ) { const int x = c["v"].i; k = c_.push_back<int>( x ); return ok( pos( k ) ); }
		if ( op == "push_move" ) { k = c_.push_back( int( c["v"].i ) ); return ok( pos( k ) ); }
		if ( op == "get" ) { if ( !v.contains( k ) ) return fail(); return ok( c_[k] ); }
		if ( op == "cget" ) { if ( !v.contains( k ) ) return fail(); const Col& cc = c_; return ok( cc[k] ); }
		if ( op == "set" ) { if ( !v.contains( k ) ) return fail(); c_[k] = c["v"].i; return ok(); }
		if ( op == "handle_of" ) { if ( size_t( c["i"].i ) >= v.size() ) return fail(); k = c_.get_handle( v[H( c["i"].i )] ); return ok( pos( k ) ); }
		if ( op == "back_handle" ) { k = v.back_handle(); return ok( pos( k ) ); }
		return fail();
	}
	J obs() override { J b = J::arr(); for ( auto& x : c_.get_vec<B>() ) b.push( x.v ); return hvobs().set( "b", b ); }
};

struct Ic : Base<X> {
	collection_ic<uint32, int, B> c_;
	const collection_ic<uint32, int, B>& cc() { return c_; }
	bool in( X x ) { return x && x < c_.end_index<int>(); }
	J run( const std::string& op, const J& c ) override {
		J r;
		auto& v = c_.get_vec<int>();
		if ( op == "idx8" ) {
			auto& f = c["f"].s; long n = c["n"].i, m = c.has( "m" ) ? c["m"].i : 0;
			X8 x = f == "size" ? X8( size_t( n ) ) : f == "int" ? X8( int( n ) ) : f == "plus" ? X8( int( n ) ) + m : f == "minus" ? X8( int( n ) ) - m
				: f == "inc" ? [&] { X8 y{ int( n ) }; X8 z = y++; if ( z != X8( int( n ) ) ) return X8( 77 ); X8 w{ int( n ) }; ++w; return w == y ? y : X8( 78 ); }()
				: f == "back" ? X8::back( std::vector<int>( n ) ) : X8::end( std::vector<int>( n ) );
			return ok( x ? long( x.value() ) : -1 );
		}
		if ( op == "pop_back" ) { if ( v.empty() ) return fail(); c_.pop_back<int>(); return ok(); }
		if ( op == "clear" ) { c_.clear(); return ok(); }
		if ( op == "push_b" ) { auto x = c_.push_back( B{ int( c["v"].i ) } ); return ok( long( x.value() ) ); }
		if ( op == "pop_b" ) { auto& b = c_.get_vec<B>(); if ( b.empty() ) return fail(); c_.pop_back<B>(); return ok(); }
		if ( handle_op( op, c, r ) ) return r;
		auto& k = h[c["k"].i - 1];
		if ( op == "push" ) { const int x = c["v"].i; k = c_.push_back<int>( x ); return ok( pos( k ) ); }
		if ( op == "push_move" ) { k = c_.push_back( int( c["v"].i ) ); return ok( pos( k ) ); }
		if ( op == "get" ) { if ( !in( k ) ) return fail(); return ok( c_[k] ); }
		if ( op == "cget" ) { if ( !in( k ) ) return fail(); return ok( cc()[k] ); }
		if ( op == "set" ) { if ( !in( k ) ) return fail(); c_[k] = c["v"].i; return ok(); }
		if ( op == "erase" ) { if ( !in( k ) ) return fail(); return ok( pos( c_.erase( k ) ) ); }
		if ( op == "handle_of" ) { if ( size_t( c["i"].i ) >= v.size() ) return fail(); k = c_.get_index( v[c["i"].i] ); return ok( pos( k ) ); }
		if ( op == "back_handle" ) { k = c_.back_index<int>(); return ok( pos( k ) ); }
		return fail();
	}
	J obs() override {
		auto& v = c_.get_vec<int>();
		J a = J::arr(), it = J::arr(), sp = J::arr(), ci = J::arr(), be = J::arr(), b = J::arr();
		for ( size_t i = 0; i < v.size(); ++i ) a.push( c_[X( uint32( i ) )] );
		for ( auto i = c_.begin<int>(); i != c_.end<int>(); ++i ) it.push( *i );
		if ( size_t( cc().end<int>() - cc().begin<int>() ) != v.size() ) it.push( "const range" );
		auto s = c_.get_index_span<int>();
		size_t guard = 0;
		for ( auto x = s.begin(); x != s.end() && guard < 500; ++x, ++guard ) sp.push( c_[*x] );
		if ( s.size() != v.size() || s.empty() != v.empty() || s.begin() != X::zero() ) sp.push( "span size" );
		for ( auto& x : h ) {
			bool b1 = in( x ), b2 = x >= s.begin() && x < s.end(), b3 = !( x < s.begin() ) && !( x >= s.end() ), b4 = x <= c_.back_index<int>() && !v.empty() && x;
			if ( b1 != b2 || b2 != b3 || b3 != b4 || b3 == ( x > s.end() || x == s.end() ) ) ci.push( "comparisons disagree" );
			ci.push( b1 ); be.push( !b2 );
			if ( b1 && ( &*x.iter( v ) != &c_[x] || &*x.iter( cc().get_vec<int>() ) != &c_[x] ) ) ci.push( "iter" );
		}
		for ( auto& x : c_.get_vec<B>() ) b.push( x.v );
		return hobs( J::obj().set( "a", a ).set( "it", it ).set( "span", sp ).set( "in", ci ).set( "beyond", be ).set( "b", b )
			.set( "n", v.size() ).set( "empty", v.empty() ).set( "endh", pos( c_.end_index<int>() ) ) );
	}
};

static std::unique_ptr<If> f;
int main() {
	vf::on_reset() = []( const J& c ) {
		auto& k = c["kind"].s;
		if ( k == "vec" ) f.reset( new Vec ); else if ( k == "col" ) f.reset( new Coll ); else f.reset( new Ic );
	};
	vf::on_obs() = [] { return f->obs(); };
	for ( auto n : { "push", "push_move", "emplace", "push_b", "pop_b", "get", "cget", "set", "erase", "erase_span", "erase_update", "pop_back", "clear",
		"find", "find_from", "at", "handle_of", "back_handle", "copy", "move", "move_assign", "reset_h", "idx8" } )
		vf::ops()[n] = [n]( const J& c ) { return f->run( n, c ); };
	return vf::main_loop();
}
