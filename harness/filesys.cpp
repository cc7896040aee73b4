// The file-system helpers, in a scratch folder of their own and as an unprivileged user.
#include "vf.h"
#include "xo/filesystem/filesystem.h"
#include <filesystem>
#include <fstream>
#include <grp.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <atomic>
#include <thread>
#include <unistd.h>
#include <utime.h>
namespace fs = std::filesystem;
using std::string;
using xo::path;
static string root;

static string text_of( const J& p ) {
	string s = p["abs"].b() ? root : "";
	bool first = !p["abs"].b();
	for ( auto& c : p["c"].a ) { if ( !first ) s += '/'; first = false; s += c.s; }
	if ( p["slash"].b() ) s += '/';
	return s;
}
static path pth( const J& p ) { return path( text_of( p ) ); }
static string shown( const string& s ) { return s.compare( 0, root.size(), root ) == 0 ? "R" + s.substr( root.size() ) : s; }
static string shown( const path& p ) { return shown( p.str() ); }
static J shown( const xo::optional<path>& p ) { return p ? J( shown( *p ) ) : J( "" ); }
static std::vector<path> paths( const J& a ) { std::vector<path> v; for ( auto& x : a.a ) v.push_back( pth( x ) ); return v; }
static J bag( const std::vector<string>& v ) {
	std::map<string, int> m{ { "", 1 } };
	for ( auto& x : v ) m[x]++;
	J r = J::obj(); for ( auto& x : m ) r.set( x.first, x.second );
	return r;
}
static string content( const fs::path& p ) { std::ifstream f( p ); return string( std::istreambuf_iterator<char>( f ), {} ); }

static void clean() {
	if ( chdir( root.c_str() ) ) exit( 97 );
	for ( auto& e : fs::directory_iterator( root ) ) fs::remove_all( e.path() );
	xo::current_find_file_path( path() );
}
OP( "probe" ) { auto p = pth( c["p"] ); return ok( J::arr().push( xo::exists( p ) ).push( xo::file_exists( p ) ).push( xo::directory_exists( p ) ) ); }
OP( "mkdirs" ) { return ok( xo::create_directories( pth( c["p"] ) ) ); }
OP( "save" ) {
	xo::error_code ec;
	auto f = c["app"].b() ? xo::append_string : xo::save_string;
	f( pth( c["p"] ), c["txt"].s, c["ec"].b() ? &ec : nullptr );
	return ec.good() ? ok() : fail();
}
OP( "save_full" ) { // writing fails: the disk is full
	auto l = root + "/full";
	if ( symlink( "/dev/full", l.c_str() ) ) exit( 97 );
	xo::error_code ec; bool thrown = false;
	auto f = c["app"].b() ? xo::append_string : xo::save_string;
	f( path( l ), "some text", &ec );
	try { f( path( l ), "some text", nullptr ); } catch ( std::exception& ) { thrown = true; }
	unlink( l.c_str() );
	return ok( J::arr().push( ec.bad() ).push( thrown ) );
}
OP( "load" ) {
	xo::error_code ec;
	auto s = xo::load_string( pth( c["p"] ), c["ec"].b() ? &ec : nullptr );
	if ( ec.bad() ) return fail();
	return ok( ":" + s );
}
OP( "copy" ) {
	xo::error_code ec;
	bool r = xo::copy_file( pth( c["p"] ), pth( c["d"] ), c["over"].b(), c["ec"].b() ? &ec : nullptr );
	if ( c["ec"].b() && r != ec.good() ) return ok( "error code and result disagree" );
	return ok( r );
}
OP( "remove" ) {
	auto t = text_of( c["p"] );
	std::error_code e;
	auto q = fs::weakly_canonical( t, e );
	// the scratch folder and the current folder stay
	if ( q == fs::path( root ) || q == fs::current_path() ) return ok( false );
	return ok( xo::remove( path( t ) ) );
}
OP( "find_unique" ) { return ok( shown( xo::find_unique_directory( pth( c["p"] ), c["max"].i ) ) ); }
OP( "create_unique" ) { return ok( shown( xo::create_unique_directory( pth( c["p"] ), c["max"].i ) ) ); }
OP( "race" ) {
	size_t n = c["n"].i;
	std::vector<string> r( n );
	std::vector<std::thread> t;
	std::atomic<size_t> ready{ 0 };
	for ( size_t i = 0; i < n; ++i )
		t.emplace_back( [&, i] {
			++ready; while ( ready < n );
			try { r[i] = shown( xo::create_unique_directory( pth( c["p"] ), 50 ) ); } catch ( std::exception& ) { r[i] = ""; }
		} );
	for ( auto& x : t ) x.join();
	auto b = bag( r );
	// no folder could be made by any: shown as nothing
	bool none = true; for ( auto& x : r ) none &= x.empty();
	return ok( none ? bag( {} ) : b );
}
OP( "ff" ) { xo::current_find_file_path( pth( c["p"] ) ); return ok( shown( xo::current_find_file_path() ) ); }
OP( "ff_other" ) { string s; std::thread( [&] { s = shown( xo::current_find_file_path() ); xo::current_find_file_path( pth( c["p"] ) ); } ).join(); return ok( s ); }
OP( "find" ) { auto v = paths( c["ps"] ); return ok( shown( v.size() == 1 ? xo::find_file( { v[0] } ) : xo::find_file( { v[0], v[1] } ) ) ); }
OP( "try_find" ) { auto v = paths( c["ps"] ); return ok( shown( v.size() == 1 ? xo::try_find_file( { v[0] } ) : xo::try_find_file( { v[0], v[1] } ) ) ); }
OP( "find_abs" ) {
	auto old = xo::current_find_file_path();
	auto d = root + "/shadow";
	fs::create_directories( d + "/vf-nowhere" );
	std::ofstream( d + "/vf-nowhere/x" ) << 1;
	xo::current_find_file_path( path( d ) );
	bool f = true, r;
	try { xo::find_file( { path( "/vf-nowhere/x" ) } ); } catch ( std::exception& ) { f = false; }
	bool t = bool( xo::try_find_file( { path( "/vf-nowhere/x" ) } ) );
	try { r = xo::find_file( { path( "/vf-nowhere/x" ), path( "vf-nowhere/x" ) } ).str() == d + "/vf-nowhere/x"; } catch ( std::exception& ) { r = false; }
	xo::current_find_file_path( old );
	std::ofstream( d + "/x" ) << 1;
	// the name of the file is looked for in the folders to search, however many these are
	bool n = true;
	for ( auto& ds : { std::vector<path>{ path( d ) }, { path( d + "/none" ), path( d ) }, { path( d ), path( d + "/vf-nowhere" ) } } ) {
		auto p = xo::try_find_file( path( "/vf-nowhere/x" ), ds );
		n &= p && p->str() == d + "/x";
	}
	n &= !xo::try_find_file( path( "/vf-nowhere/x" ), std::vector<path>{} ) && !xo::try_find_file( path( "/vf-nowhere/y" ), std::vector<path>{ path( d ) } );
	fs::remove_all( d );
	return ok( J::arr().push( f ).push( t ).push( r ).push( n ) );
}
OP( "try_dirs" ) { return ok( shown( xo::try_find_file( pth( c["p"] ), paths( c["ds"] ) ) ) ); }
OP( "list" ) {
	auto& x = c["excs"].s;
	auto v = x.empty() ? xo::find_files( pth( c["p"] ), c["incs"].s, c["rec"].b(), c["lv"].i ) : xo::find_files( pth( c["p"] ), c["incs"].s, xo::pattern_matcher( x ), c["rec"].b(), c["lv"].i );
	std::vector<string> s; for ( auto& p : v ) s.push_back( shown( p ) );
	return ok( bag( s ) );
}
OP( "cd" ) { return ok( xo::current_path( pth( c["p"] ) ) ); }
OP( "mtime" ) { auto t = text_of( c["p"] ); utimbuf b{ 1234, time_t( c["m"].i ) }; utime( t.c_str(), &b ); return ok( xo::last_write_time( path( t ) ) ); }
OP( "sock" ) {
	auto t = text_of( c["p"] );
	int s = socket( AF_UNIX, SOCK_STREAM, 0 );
	sockaddr_un a{}; a.sun_family = AF_UNIX; strncpy( a.sun_path, t.c_str(), sizeof( a.sun_path ) - 1 );
	int r = bind( s, (sockaddr*)&a, sizeof( a ) );
	close( s );
	return r ? fail() : ok();
}
OP( "env" ) {
	setenv( "HOME", c["home"].s.c_str(), 1 );
	if ( c["tmp"].s.empty() ) unsetenv( "TMP" ); else setenv( "TMP", c["tmp"].s.c_str(), 1 );
	char b[4096]; auto n = readlink( "/proc/self/exe", b, sizeof( b ) - 1 ); b[n < 0 ? 0 : n] = 0;
	return ok( J::arr().push( xo::get_config_dir().str() ).push( xo::get_documents_dir().str() ).push( xo::temp_directory_path().str() )
		.push( xo::get_application_dir().str() == fs::path( b ).parent_path().string() ) );
}
int main() {
	char n[] = "/tmp/vffsXXXXXX";
	if ( !mkdtemp( n ) ) return 97;
	root = n;
	umask( 022 );
	// the tree belongs to an unprivileged user, and the helpers run as that user
	if ( geteuid() == 0 && chown( n, 65534, 65534 ) == 0 ) {
		if ( setgroups( 0, nullptr ) || setgid( 65534 ) || setuid( 65534 ) ) fprintf( stderr, "note: running as root\n" );
		prctl( PR_SET_DUMPABLE, 1 );
	}
	if ( chdir( n ) ) return 97;
	vf::on_reset() = []( const J& ) { clean(); };
	vf::on_obs() = [] {
		std::map<string, string> m{ { "", "dir" } };
		for ( auto& e : fs::recursive_directory_iterator( root ) ) {
			auto s = e.symlink_status();
			m[e.path().string().substr( root.size() + 1 )] = fs::is_directory( s ) ? "dir" : fs::is_regular_file( s ) ? ":" + content( e.path() ) : fs::is_socket( s ) ? "sock" : "other";
		}
		J t = J::obj(); for ( auto& x : m ) t.set( x.first, x.second );
		return J::obj().set( "t", t ).set( "cwd", shown( xo::current_path() ) );
	};
	int r = vf::main_loop();
	clean();
	if ( chdir( "/" ) == 0 ) rmdir( root.c_str() );
	return r;
}
