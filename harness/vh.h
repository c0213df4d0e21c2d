// Workload and monitor framework: deterministic case generation, oracles that record what they
// observed, and a trace of the running case so that crashes and hangs can be replayed.
#pragma once
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <limits>
#include <map>
#include <mutex>
#include <set>
#include <csignal>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vh {

struct Rng
{
    uint64_t s, trace;
    explicit Rng( uint64_t seed = 1 ) : s( seed * 0x9E3779B97F4A7C15ull + 0x1234567ull ), trace( 1469598103934665603ull ) { u64(); u64(); }
    uint64_t raw() { uint64_t z = ( s += 0x9E3779B97F4A7C15ull ); z = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ull; z = ( z ^ ( z >> 27 ) ) * 0x94D049BB133111EBull; return z ^ ( z >> 31 ); }
    uint64_t u64() { uint64_t v = raw(); trace = ( trace ^ v ) * 1099511628211ull; return v; }
    double u01() { return ( u64() >> 11 ) * ( 1.0 / 9007199254740992.0 ); }
    double uni( double a, double b ) { return a + ( b - a ) * u01(); }
    /// integer in [a,b]
    int in( int a, int b ) { return a + int( u64() % uint64_t( int64_t( b ) - a + 1 ) ); }
    bool coin( double p = 0.5 ) { return u01() < p; }
    double sgn() { return coin() ? 1.0 : -1.0; }
    /// log-uniform magnitude
    double logu( double lo, double hi ) { return std::exp( uni( std::log( lo ), std::log( hi ) ) ); }
    double gauss() { double a = u01(), b = u01(); if ( a < 1e-300 ) a = 1e-300; return std::sqrt( -2 * std::log( a ) ) * std::cos( 6.283185307179586 * b ); }
    template< class T > const T& pick( const std::vector< T >& v ) { return v[ u64() % v.size() ]; }
    template< class T > void shuffle( std::vector< T >& v ) { for ( std::size_t i = v.size(); i > 1; --i ) std::swap( v[ i - 1 ], v[ u64() % i ] ); }
};

struct Stat { uint64_t n = 0; double worst = 0; };

struct Section { std::string name; uint64_t quick, thorough; std::function< void( Rng&, uint64_t ) > fn; };

inline std::vector< Section >& sections() { static std::vector< Section > s; return s; }
struct Reg { Reg( const char* n, uint64_t q, uint64_t t, std::function< void( Rng&, uint64_t ) > f ) { sections().push_back( Section{ n, q, t, f } ); } };

struct State
{
    std::mutex m;
    std::string section; uint64_t caseIdx = 0, seed = 1;
    bool thorough = false;
    std::map< std::string, Stat > stats;
    std::map< std::string, uint64_t > events;   // free-form counters: what the monitors saw
    std::unordered_set< uint64_t > distinct;
    std::map< std::string, int > failCount;
    std::vector< std::string > samples;
    uint64_t evals = 0, checksInCase = 0, checks = 0, vacuous = 0;
    std::string sample;
    FILE* out = 0;
    char* progress = 0;
    bool verbose = false;
};
inline State& st() { static State s; return s; }
inline bool thorough() { return st().thorough; }

inline std::string esc( const std::string& s )
{
    std::string o;
    for ( unsigned char c : s )
    {
        if ( c == '"' || c == '\\' ) { o += '\\'; o += char( c ); }
        else if ( c < 32 || c >= 127 ) { char b[ 8 ]; snprintf( b, 8, "\\u%04x", c ); o += b; }
        else o += char( c );
    }
    return o;
}
inline std::string fmt( const char* f, ... )
{
    char b[ 4096 ]; va_list a; va_start( a, f ); vsnprintf( b, sizeof b, f, a ); va_end( a ); return b;
}

/// records a violation of the named monitor
inline void fail( const std::string& key, const std::string& msg )
{
    std::lock_guard< std::mutex > l( st().m );
    if ( st().failCount[ key ]++ < 3 && st().out )
    {
        fprintf( st().out, "{\"type\":\"violation\",\"key\":\"%s\",\"section\":\"%s\",\"case\":%llu,\"seed\":%llu,\"msg\":\"%s\"}\n",
            esc( key ).c_str(), esc( st().section ).c_str(), (unsigned long long)st().caseIdx, (unsigned long long)st().seed, esc( msg.substr( 0, 1500 ) ).c_str() );
        fflush( st().out );
    }
    if ( st().verbose ) fprintf( stderr, "FAIL %s: %s (case %llu)\n", key.c_str(), msg.c_str(), (unsigned long long)st().caseIdx );
}
/// counts one evaluation of an oracle; ratio = observed deviation / tolerance
inline void seen( const std::string& key, double ratio = 0 )
{
    std::lock_guard< std::mutex > l( st().m );
    Stat& s = st().stats[ key ]; s.n++; if ( ratio > s.worst ) s.worst = ratio;
    st().checksInCase++; st().checks++;
}
inline void event( const std::string& name, uint64_t n = 1 ) { std::lock_guard< std::mutex > l( st().m ); st().events[ name ] += n; }
inline void sample( const std::string& s ) { std::lock_guard< std::mutex > l( st().m ); if ( st().sample.size() < 600 ) st().sample += ( st().sample.empty() ? "" : "; " ) + s; }

inline bool ok( const std::string& key, bool c, const std::string& msg = "" )
{
    seen( key ); if ( !c ) fail( key, msg ); return c;
}
/// |err| <= tol, NaN fails
inline bool small( const std::string& key, double err, double tol, const std::string& msg = "" )
{
    double a = std::fabs( err );
    seen( key, a / tol );
    if ( !( a <= tol ) ) { fail( key, fmt( "deviation %.6g exceeds %.3g ", err, tol ) + msg ); return false; }
    return true;
}
inline bool near_( const std::string& key, double got, double want, double tol, const std::string& msg = "" )
{
    double a = std::fabs( got - want );
    seen( key, a / tol );
    if ( !( a <= tol ) ) { fail( key, fmt( "got %.17g want %.17g tolerance %.3g ", got, want, tol ) + msg ); return false; }
    return true;
}
inline bool finite( const std::string& key, double v, const std::string& msg = "" ) { return ok( key, std::isfinite( v ), msg ); }

/// the call must throw something derived from std::exception (true), or not throw (false)
template< class F > bool throws( F f, std::string* what = 0 )
{
    try { f(); } catch ( const std::exception& e ) { if ( what ) *what = e.what(); return true; } catch ( const char* s ) { if ( what ) *what = s; return true; }
    return false;
}

inline void progress( uint64_t i )
{
    if ( st().progress ) snprintf( st().progress, 256, "%s %llu\n", st().section.c_str(), (unsigned long long)i );
}

inline std::string& watchKey() { static std::string s; return s; }
extern "C" inline void vh_watch_fired( int )
{
    char b[ 1024 ]; int n = snprintf( b, sizeof b, "{\"type\":\"violation\",\"key\":\"%s\",\"section\":\"%s\",\"case\":%llu,\"seed\":%llu,\"msg\":\"the threads of the case make no progress\"}\n",
        watchKey().c_str(), st().section.c_str(), (unsigned long long)st().caseIdx, (unsigned long long)st().seed );
    if ( st().out ) fflush( st().out );
    if ( write( st().out ? fileno( st().out ) : 2, b, n ) < 0 ) {}
    _exit( 79 );
}
/// a case with threads that does not end within the time is a deadlock (or a lost wakeup)
struct Watch
{
    Watch( const char* key, int seconds = 120 ) { watchKey() = key; signal( SIGALRM, vh_watch_fired ); alarm( seconds ); }
    ~Watch() { alarm( 0 ); }
};

inline int run( int argc, char** argv )
{
    std::string sec, out, prog; uint64_t n = 0, from = 0, seed = 1; long long only = -1; bool list = false;
    for ( int i = 1; i < argc; i++ )
    {
        std::string a = argv[ i ];
        auto next = [ & ]() { return std::string( ++i < argc ? argv[ i ] : "" ); };
        if ( a == "--list" ) list = true;
        else if ( a == "--run" ) sec = next();
        else if ( a == "--seed" ) seed = strtoull( next().c_str(), 0, 10 );
        else if ( a == "--n" ) n = strtoull( next().c_str(), 0, 10 );
        else if ( a == "--from" ) from = strtoull( next().c_str(), 0, 10 );
        else if ( a == "--case" ) only = atoll( next().c_str() );
        else if ( a == "--out" ) out = next();
        else if ( a == "--progress" ) prog = next();
        else if ( a == "--thorough" ) st().thorough = true;
        else if ( a == "-v" ) st().verbose = true;
    }
    if ( list ) { for ( auto& s : sections() ) printf( "%s %llu %llu\n", s.name.c_str(), (unsigned long long)s.quick, (unsigned long long)s.thorough ); return 0; }
    if ( !prog.empty() )
    {
        int fd = open( prog.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644 );
        if ( fd >= 0 && ftruncate( fd, 256 ) == 0 ) { void* p = mmap( 0, 256, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0 ); if ( p != MAP_FAILED ) st().progress = (char*)p; }
        if ( fd >= 0 ) close( fd );
    }
    st().out = out.empty() ? stdout : fopen( out.c_str(), "a" );
    if ( !st().out ) return 3;
    st().seed = seed;
    bool any = false;
    for ( auto& s : sections() )
    {
        if ( !sec.empty() && s.name != sec ) continue;
        any = true;
        uint64_t N = n ? n : ( st().thorough ? s.thorough : s.quick );
        st().section = s.name;
        uint64_t b = only >= 0 ? only : from, e = only >= 0 ? only + 1 : N;
        for ( uint64_t i = b; i < e; i++ )
        {
            st().caseIdx = i; st().checksInCase = 0; st().sample.clear();
            progress( i );
            uint64_t h = 1469598103934665603ull; for ( char c : s.name ) h = ( h ^ (unsigned char)c ) * 1099511628211ull;
            Rng r( seed * 1000003ull + i * 7919ull + h );
            try { s.fn( r, i ); }
            catch ( const std::exception& ex ) { fail( "exception:" + s.name, std::string( "unexpected exception: " ) + ex.what() ); }
            catch ( const char* ex ) { fail( "exception:" + s.name, std::string( "unexpected exception: " ) + ex ); }
            catch ( ... ) { fail( "exception:" + s.name, "unexpected exception of unknown type" ); }
            st().evals++;
            if ( st().checksInCase ) st().distinct.insert( r.trace ^ ( h * 31 ) ); else st().vacuous++;
            if ( !st().sample.empty() && st().samples.size() < 3 ) st().samples.push_back( s.name + "#" + std::to_string( i ) + ": " + st().sample );
        }
    }
    if ( !any ) { fprintf( stderr, "no such section %s\n", sec.c_str() ); return 3; }
    std::ostringstream o;
    o << "{\"type\":\"summary\",\"section\":\"" << esc( sec ) << "\",\"evals\":" << st().evals << ",\"distinct\":" << st().distinct.size() << ",\"vacuous\":" << st().vacuous << ",\"checks\":" << st().checks << ",\"stats\":{";
    bool first = true;
    for ( auto& k : st().stats ) { o << ( first ? "" : "," ) << "\"" << esc( k.first ) << "\":[" << k.second.n << "," << ( std::isfinite( k.second.worst ) ? fmt( "%.4g", k.second.worst ) : "1e308" ) << "]"; first = false; }
    o << "},\"events\":{"; first = true;
    for ( auto& k : st().events ) { o << ( first ? "" : "," ) << "\"" << esc( k.first ) << "\":" << k.second; first = false; }
    o << "},\"samples\":["; first = true;
    for ( auto& k : st().samples ) { o << ( first ? "" : "," ) << "\"" << esc( k ) << "\""; first = false; }
    o << "]}\n";
    fputs( o.str().c_str(), st().out ); fflush( st().out );
    return 0;
}
} // namespace vh

#define VH_CAT2( a, b ) a##b
#define VH_CAT( a, b ) VH_CAT2( a, b )
#define SECTION( name, quick, thorough ) \
    static void VH_CAT( vh_sec_, __LINE__ )( vh::Rng&, uint64_t ); \
    static vh::Reg VH_CAT( vh_reg_, __LINE__ )( name, quick, thorough, VH_CAT( vh_sec_, __LINE__ ) ); \
    static void VH_CAT( vh_sec_, __LINE__ )( vh::Rng& r, uint64_t idx )
#define VH_MAIN int main( int argc, char** argv ) { return vh::run( argc, argv ); }
