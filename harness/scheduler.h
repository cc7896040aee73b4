// Deterministic scheduler for real threads.  The pthread lock functions that std::mutex, std::shared_mutex and
// std::condition_variable call are defined here, in the executable, and so replace those of the C library: every lock and
// unlock (and every sched::yield() in a callback) is a point where the scheduler chooses which thread continues.  One thread runs
// at a time; explore() repeats a scenario under every schedule with at most `bound` preemptions (or under random schedules).
#pragma once
#include "vf.h"
#include <pthread.h>
#include <semaphore.h>
#include <errno.h>
#include <unistd.h>
#include <map>
#include <memory>
#include <set>
#include <thread>
#include <vector>

namespace sched
{
	using vf::J;
	struct Lock { int writer = 0; std::vector< int > readers; };   // thread numbers from 1; -1: not a scheduled thread
	struct Thr { sem_t go; bool ready = true, done = false; const void* waits = nullptr; };
	struct State {
		std::map< const void*, Lock > locks;
		std::vector< std::unique_ptr< Thr > > thr;
		bool active = false;
		int current = 0;
		sem_t finished;
		std::vector< J > events;
		// schedule
		std::vector< int > prefix, chosen, options;
		int bound = 2, preemptions = 0; bool random = false; unsigned long long rnd = 1; long steps = 0;
		std::string deadlock;
	};
	inline State& S() { static State* s = new State; return *s; }
	inline thread_local int me = 0;      // 0: not scheduled
	inline int self() { return me; }

	inline void event( J e ) { S().events.push_back( std::move( e ) ); }

	inline int choose( int n ) {
		auto& s = S();
		int c = 0;
		if ( n > 1 ) {
			if ( s.chosen.size() < s.prefix.size() ) c = s.prefix[s.chosen.size()];
			else if ( s.random ) { s.rnd = s.rnd * 6364136223846793005ull + 1442695040888963407ull; c = int( ( s.rnd >> 33 ) % n ); }
			if ( c >= n ) { fprintf( stderr, "HARNESS: schedule does not repeat\n" ); _exit( 97 ); }
			s.chosen.push_back( c ); s.options.push_back( n );
		}
		return c;
	}
	inline void stuck() {
		std::string d;
		for ( size_t i = 0; i < S().thr.size(); ++i ) if ( !S().thr[i]->done ) d += " thread " + std::to_string( i + 1 );
		fflush( stdout );
		fprintf( stderr, "ERROR: AddressSanitizer: (deadlock) waiting for each other:%s\n", d.c_str() );
		_exit( 96 );
	}
	inline void hand_to( int t ) {       // t continues; the caller sleeps until it is chosen again
		auto& s = S(); int m = me;
		if ( t == m ) return;
		s.current = t;
		sem_post( &s.thr[t - 1]->go );
		if ( m > 0 && !s.thr[m - 1]->done ) while ( sem_wait( &s.thr[m - 1]->go ) ) {}
	}
	inline std::vector< int > others() {
		std::vector< int > r;
		for ( size_t i = 0; i < S().thr.size(); ++i ) if ( int( i + 1 ) != me && S().thr[i]->ready && !S().thr[i]->done ) r.push_back( int( i + 1 ) );
		return r;
	}
	inline void yield() {
		auto& s = S();
		if ( !s.active || me <= 0 ) return;
		if ( ++s.steps > 200000 ) { fprintf( stderr, "ERROR: AddressSanitizer: (livelock) the threads do not finish\n" ); _exit( 96 ); }
		auto o = others();
		if ( o.empty() || ( !s.random && s.preemptions >= s.bound ) ) return;
		int c = choose( int( o.size() ) + 1 );
		if ( c > 0 ) { ++s.preemptions; hand_to( o[c - 1] ); }
	}
	inline void block( const void* on ) {
		auto& s = S();
		s.thr[me - 1]->ready = false; s.thr[me - 1]->waits = on;
		auto o = others();
		if ( o.empty() ) stuck();
		hand_to( o[choose( int( o.size() ) )] );
	}
	inline void wake( const void* on, bool all = true ) {
		for ( auto& t : S().thr ) if ( t->waits == on && !t->ready ) { t->ready = true; t->waits = nullptr; if ( !all ) break; }
	}
	inline bool held_by( const Lock& l, int t ) { if ( l.writer == t ) return true; for ( int r : l.readers ) if ( r == t ) return true; return false; }
	inline int acquire( const void* m, bool write, bool try_only ) {
		int t = S().active && me > 0 ? me : -1;
		if ( t > 0 ) yield();
		for ( ;; ) {
			auto& l = S().locks[m];
			bool free = l.writer == 0 && ( !write || l.readers.empty() );
			if ( free ) { if ( write ) l.writer = t; else l.readers.push_back( t ); return 0; }
			if ( try_only ) return EBUSY;
			if ( t < 0 ) { fprintf( stderr, "ERROR: AddressSanitizer: (deadlock) a lock was never released\n" ); _exit( 96 ); }
			block( m );
		}
	}
	inline int release( const void* m ) {
		int t = S().active && me > 0 ? me : -1;
		auto& l = S().locks[m];
		if ( l.writer == t ) l.writer = 0;
		else for ( size_t i = 0; i < l.readers.size(); ++i ) if ( l.readers[i] == t ) { l.readers.erase( l.readers.begin() + i ); break; }
		if ( l.writer == 0 && l.readers.empty() ) S().locks.erase( m );
		if ( t > 0 ) { wake( m ); yield(); }
		return 0;
	}

	using Bodies = std::vector< std::function< void() > >;
	inline void run_once( const Bodies& b ) {
		auto& s = S();
		s.thr.clear(); s.events.clear(); s.chosen.clear(); s.options.clear(); s.preemptions = 0; s.steps = 0;
		sem_init( &s.finished, 0, 0 );
		for ( size_t i = 0; i < b.size(); ++i ) { s.thr.emplace_back( new Thr ); sem_init( &s.thr.back()->go, 0, 0 ); }
		std::vector< std::thread > ts;
		for ( size_t i = 0; i < b.size(); ++i )
			ts.emplace_back( [&s, &b, i] {
				while ( sem_wait( &s.thr[i]->go ) ) {}
				me = int( i + 1 );
				try { b[i](); }
				catch ( ... ) { event( J::obj().set( "op", "escaped" ).set( "t", me ) ); }
				s.thr[i]->done = true;
				auto o = others();
				bool all = true;
				for ( auto& t : s.thr ) all = all && t->done;
				if ( all ) sem_post( &s.finished );
				else if ( o.empty() ) stuck();
				else hand_to( o[choose( int( o.size() ) )] );
			} );
		s.active = true;
		int first = choose( int( b.size() ) ) + 1;
		s.current = first;
		sem_post( &s.thr[first - 1]->go );
		while ( sem_wait( &s.finished ) ) {}
		for ( auto& t : ts ) t.join();
		s.active = false;
	}

	// every distinct history of events; make() prepares a fresh scenario, done() may add final events
	inline J explore( const std::function< Bodies() >& make, const std::function< void() >& done, int bound, long max_runs, unsigned seed, long& runs ) {
		auto& s = S();
		std::set< std::string > seen; J all = J::arr();
		s.prefix.clear(); s.bound = bound; s.random = false;
		bool exhausted = false;
		for ( runs = 0; runs < max_runs; ) {
			auto b = make();
			run_once( b );
			if ( done ) done();
			++runs;
			J h = J::arr();
			for ( auto& e : s.events ) h.push( e );
			std::string txt; h.print( txt );
			if ( seen.insert( txt ).second ) all.push( std::move( h ) );
			if ( s.random ) { s.rnd = s.rnd * 6364136223846793005ull + runs; continue; }
			int i = int( s.chosen.size() ) - 1;
			while ( i >= 0 && s.chosen[i] + 1 >= s.options[i] ) --i;
			if ( i < 0 ) { exhausted = true; break; }
			s.prefix.assign( s.chosen.begin(), s.chosen.begin() + i );
			s.prefix.push_back( s.chosen[i] + 1 );
			if ( runs == max_runs / 2 ) { s.random = true; s.rnd = seed * 7919ull + 1; s.prefix.clear(); }   // too many: sample the rest
		}
		s.random = false;
		(void)exhausted;
		return all;
	}
}

extern "C" {
	int pthread_mutex_lock( pthread_mutex_t* m ) noexcept { return sched::acquire( m, true, false ); }
	int pthread_mutex_trylock( pthread_mutex_t* m ) noexcept { return sched::acquire( m, true, true ); }
	int pthread_mutex_unlock( pthread_mutex_t* m ) noexcept { return sched::release( m ); }
	int pthread_rwlock_rdlock( pthread_rwlock_t* m ) noexcept { return sched::acquire( m, false, false ); }
	int pthread_rwlock_tryrdlock( pthread_rwlock_t* m ) noexcept { return sched::acquire( m, false, true ); }
	int pthread_rwlock_wrlock( pthread_rwlock_t* m ) noexcept { return sched::acquire( m, true, false ); }
	int pthread_rwlock_trywrlock( pthread_rwlock_t* m ) noexcept { return sched::acquire( m, true, true ); }
	int pthread_rwlock_unlock( pthread_rwlock_t* m ) noexcept { return sched::release( m ); }
	int pthread_cond_wait( pthread_cond_t* c, pthread_mutex_t* m ) {
		sched::release( m ); sched::block( c ); return sched::acquire( m, true, false );
	}
	int pthread_cond_signal( pthread_cond_t* c ) noexcept { sched::wake( c, false ); sched::yield(); return 0; }
	int pthread_cond_broadcast( pthread_cond_t* c ) noexcept { sched::wake( c ); sched::yield(); return 0; }
}
