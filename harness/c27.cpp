// C27: histories of measurement handles against a model of payload identity, value and time; payload
// lifetimes are counted; time stamps are printed by an independent formatter.
#include "ser.h"
#include "vh.h"
#include <algorithm>
#include <atomic>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <ctime>
#include <list>
#include <sys/time.h>
using namespace vh;
using namespace ser;
namespace UMe = Ubitrack::Measurement;
typedef unsigned long long Time;

/// payload whose life is counted
struct Counted
{
    static std::map< const Counted*, int >& live() { static std::map< const Counted*, int > m; return m; }
    static long& made() { static long n = 0; return n; }
    static long& copies() { static long n = 0; return n; }
    static bool& bad() { static bool b = false; return b; }
    int v; 
    Counted() : v( 0 ) { reg(); }
    explicit Counted( int x ) : v( x ) { reg(); }
    Counted( const Counted& o ) : v( o.v ) { if ( !live().count( &o ) ) bad() = true; reg(); copies()++; }
    Counted& operator=( const Counted& o ) { if ( !live().count( this ) || !live().count( &o ) ) bad() = true; v = o.v; return *this; }
    ~Counted() { if ( !live().erase( this ) ) bad() = true; }
    void reg() { if ( !live().insert( std::make_pair( this, v ) ).second ) bad() = true; made()++; }
    template< class A > void serialize( A& a, const unsigned ) { a & v; }
};
std::ostream& operator<<( std::ostream& s, const Counted& c ) { return s << "counted " << c.v; }
namespace ser {
template<> struct G< Counted > { static Counted gen( Rng& r ) { return Counted( r.in( 0, 1000000 ) ); } };
inline bool same( const Counted& a, const Counted& b ) { return a.v == b.v; }
}
static const long long offsets[] = { 0, 3600, -5 * 3600, 5 * 3600 + 1800, -( 9 * 3600 + 1800 ), 13 * 3600, 14 * 3600, -12 * 3600, 45 * 60 };
static const char* zones[] = { "UTC0", "AAA-1", "BBB5", "CCC-5:30", "DDD9:30", "EEE-13", "FFF-14", "GGG12", "HHH-0:45" };
static int zone = 0;
static void setZone( int k ) { zone = k; setenv( "TZ", zones[ k ], 1 ); tzset(); }
static std::string shortTime( Time t )
{
    long long s = (long long)( t / 1000000000ull ) + offsets[ zone ]; long long d = ( ( s % 86400 ) + 86400 ) % 86400;
    return fmt( "%02lld:%02lld:%02lld.%06llu", d / 3600, d / 60 % 60, d % 60, ( t % 1000000000ull ) / 1000 );
}
/// calendar date from a day count
static void civil( long long z, long long& y, unsigned& m, unsigned& d )
{
    y = 1970; auto leap = []( long long q ) { return ( q % 4 == 0 && q % 100 != 0 ) || q % 400 == 0; };
    while ( z >= ( leap( y ) ? 366 : 365 ) ) { z -= leap( y ) ? 366 : 365; y++; }
    static const int len[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
    for ( m = 0; ; m++ ) { int L = len[ m ] + ( m == 1 && leap( y ) ); if ( z < L ) break; z -= L; }
    d = unsigned( z + 1 );
}
static std::string longTime( Time t )
{
    static const char* wd[] = { "Thu", "Fri", "Sat", "Sun", "Mon", "Tue", "Wed" }; static const char* mn[] = { "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec" };
    long long s = (long long)( t / 1000000000ull ), day = s / 86400, q = s % 86400, y; unsigned m, d; civil( day, y, m, d );
    return fmt( "%s %s %2u %02lld:%02lld:%02lld %lld UTC", wd[ day % 7 ], mn[ m ], d, q / 3600, q / 60 % 60, q % 60, y );
}
static Time anyTime( Rng& r )
{
    switch ( r.in( 0, 7 ) )
    {
    case 0: return 0;
    case 1: return 1 + r.u64() % 2000000000ull;
    case 2: return ~0ull - r.u64() % 3;
    case 3: return r.u64();
    case 4: return ( r.u64() % 400000 ) * 86400000000000ull % ( ~0ull ) + r.in( 0, 1 ) * 999999999ull;
    default: return 1000000000ull * ( 1000000000ull + r.u64() % 1500000000ull ) + r.u64() % 1000000000ull;
    }
}

template< class T > struct Val { static T gen( Rng& r ) { return G< T >::gen( r ); } };

/// a history of operations over some handles
template< class T > void history( Rng& r, const std::string& tn )
{
    typedef UMe::Measurement< T > M;
    struct H { std::unique_ptr< M > m; int pay; Time t; };                       // handle and what it should be
    std::vector< T > vals; std::vector< int > refs; std::vector< H > hs; std::string hist;
    std::vector< boost::shared_ptr< T > > direct; std::vector< int > directPay;    // plain shared pointers to payloads
    auto newPay = [ & ]( const T& v ) { vals.push_back( v ); return int( vals.size() ) - 1; };
    auto any = [ & ]() -> H& { return hs[ r.in( 0, int( hs.size() ) - 1 ) ]; };
    setZone( r.in( 0, 8 ) );
    int ops = r.in( 5, 40 );
    for ( int i = 0; i < ops; i++ )
    {
        int op = hs.empty() ? r.in( 0, 5 ) : r.in( 0, 24 ); hist += char( 'a' + op );
        Time t = anyTime( r );
        if ( op <= 5 && hs.size() < 9 )
        {
            H h; h.pay = -1; h.t = 0;
            switch ( op )
            {
            case 0: h.m.reset( new M() ); break;
            case 1: h.m.reset( new M( t ) ); h.t = t; break;
            case 2: { boost::shared_ptr< T > p( new T( Val< T >::gen( r ) ) ); h.pay = newPay( *p ); h.m.reset( new M( p ) ); if ( r.coin() && direct.size() < 4 ) { direct.push_back( p ); directPay.push_back( h.pay ); } break; }
            case 3: { T v = Val< T >::gen( r ); h.m.reset( new M( v ) ); h.pay = newPay( v ); break; }
            case 4: { boost::shared_ptr< T > p; if ( r.coin( 0.9 ) ) { p.reset( new T( Val< T >::gen( r ) ) ); h.pay = newPay( *p ); } h.m.reset( new M( t, p ) ); h.t = t; break; }
            default: { T v = Val< T >::gen( r ); h.m.reset( new M( t, v ) ); h.pay = newPay( v ); h.t = t; }
            }
            hs.push_back( std::move( h ) );
        }
        else if ( hs.empty() ) continue;
        else if ( op <= 7 && hs.size() < 9 ) { H& s = any(); H h; h.pay = s.pay; h.t = s.t; h.m.reset( new M( *s.m ) ); hs.push_back( std::move( h ) ); }
        else if ( op == 8 && hs.size() < 9 ) { H& s = any(); H h; h.t = s.t; h.pay = s.pay < 0 ? -1 : newPay( vals[ s.pay ] ); h.m.reset( new M( s.m->clone() ) ); hs.push_back( std::move( h ) ); }
        else if ( op <= 11 ) { H& a = any(); H& b = any(); *a.m = *b.m; a.pay = b.pay; a.t = b.t; } // may be self-assignment
        else if ( op == 12 ) { H& a = any(); a.m->time( t ); a.t = t; }
        else if ( op == 13 ) { H& a = any(); a.m->invalidate(); a.t = 0; }
        else if ( op == 14 ) { H& a = any(); a.m->reset(); a.pay = -1; }
        else if ( op == 15 ) { H& a = any(); T v = Val< T >::gen( r ); a.m->reset( new T( v ) ); a.pay = newPay( v ); }
        else if ( op <= 17 ) { H& a = any(); if ( a.pay >= 0 ) { T v = Val< T >::gen( r ); **a.m = v; vals[ a.pay ] = v; } }
        else if ( op == 18 ) { H& a = any(); *a.m = M( t, T( Val< T >::gen( r ) ) ); a.pay = newPay( **a.m ); a.t = t; }
        else if ( op == 19 ) { size_t k = r.in( 0, int( hs.size() ) - 1 ); hs.erase( hs.begin() + k ); }
        else if ( op == 20 ) { H& a = any(); H h; h.t = a.t; h.pay = a.pay; UMe::Measurement< const T > c = a.m->template constCast< const T >(); ok( "const-view-" + tn, c.time() == a.t && c.get() == a.m->get(), hist ); if ( r.coin() ) { c.time( t ); c.reset(); } }
        else if ( op == 21 ) { std::vector< M > l; for ( auto& h : hs ) l.push_back( *h.m ); std::reverse( l.begin(), l.end() ); std::list< M > k( l.begin(), l.end() ); l.clear(); size_t j = hs.size(); bool good = true; for ( auto& m : k ) { --j; good = good && m.get() == hs[ j ].m->get() && m.time() == hs[ j ].t; } ok( "containers-" + tn, good, hist ); }
        else if ( op == 22 ) { H& a = any(); H& b = any(); std::swap( *a.m, *b.m ); std::swap( a.pay, b.pay ); std::swap( a.t, b.t ); }
        else if ( op == 23 ) { if ( !direct.empty() ) { direct.pop_back(); directPay.pop_back(); } }
        else
        {
            // pass by value and return by value
            H& a = any(); auto pass = []( M m, Time x ) { m.time( x ); return m; }; Time keep = a.t; M b = pass( *a.m, t ); ok( "retimed-copy-" + tn, b.time() == t && a.m->time() == keep && b.get() == a.m->get(), hist );
        }
        // the handles agree with the model
        std::map< int, const T* > at; std::map< int, long > holders; bool ident = true, value = true, time = true, valid = true;
        for ( auto& h : hs ) if ( h.pay >= 0 ) { holders[ h.pay ]++; }
        for ( size_t d = 0; d < direct.size(); d++ ) { holders[ directPay[ d ] ]++; at[ directPay[ d ] ] = direct[ d ].get(); }
        for ( auto& h : hs )
        {
            time = time && h.m->time() == h.t; valid = valid && h.m->invalid() == ( h.t == 0 );
            if ( ( h.pay < 0 ) != ( h.m->get() == 0 ) || bool( *h.m ) != ( h.pay >= 0 ) ) { ident = false; continue; }
            if ( h.pay < 0 ) continue;
            auto p = at.insert( std::make_pair( h.pay, h.m->get() ) ); if ( p.first->second != h.m->get() ) ident = false;
            value = value && same( **h.m, vals[ h.pay ] ); if ( h.m->use_count() != holders[ h.pay ] ) ident = false;
        }
        std::set< const T* > distinct; for ( auto& p : at ) distinct.insert( p.second ); if ( distinct.size() != at.size() ) ident = false;
        ok( "payload-shared-" + tn, ident, "history " + hist ); ok( "value-kept-" + tn, value, "history " + hist );
        ok( "time-kept-" + tn, time, "history " + hist ); ok( "validity-" + tn, valid, "history " + hist );
    }
    // printing
    for ( auto& h : hs )
    {
        std::ostringstream o, want; o << *h.m; if ( h.t == 0 || h.pay < 0 ) want << "INVALID"; else want << vals[ h.pay ] << " " << shortTime( h.t );
        ok( "printed-" + tn, o.str() == want.str(), "got " + o.str().substr( 0, 300 ) + " want " + want.str().substr( 0, 300 ) );
        o << *h.m; // leaves the stream usable
        ok( "printed-twice-" + tn, o.str() == want.str() + want.str() );
    }
    event( "operations", hist.size() ); sample( tn + " " + hist );
}
template< class T > void printable( Rng& r, const std::string& tn ) { history< T >( r, tn ); }

SECTION( "history-basic", 700, 15000 ) { switch ( idx % 5 ) { case 0: history< UM::Pose >( r, "pose" ); break; case 1: history< UM::Vector< double, 3 > >( r, "position" ); break; case 2: history< UM::Quaternion >( r, "rotation" ); break; case 3: history< UM::Scalar< int > >( r, "button" ); break; default: history< UM::Matrix< double, 3, 3 > >( r, "matrix" ); } }
SECTION( "history-error", 600, 12000 ) { switch ( idx % 5 ) { case 0: history< UM::ErrorPose >( r, "errorpose" ); break; case 1: history< UM::ErrorVector< double, 3 > >( r, "errorposition" ); break; case 2: history< UM::ErrorVector< double, 2 > >( r, "errorposition2" ); break; case 3: history< UM::Scalar< double > >( r, "distance" ); break; default: history< UM::Matrix< double, 3, 4 > >( r, "matrix34" ); } }
SECTION( "history-list", 500, 10000 ) { switch ( idx % 5 ) { case 0: history< UM::RotationVelocity >( r, "velocity" ); break; case 1: history< UM::CameraIntrinsics< double > >( r, "intrinsics" ); break; case 2: history< UM::Vector< double, 8 > >( r, "vector8" ); break; case 3: history< UM::Matrix< double, 4, 4 > >( r, "matrix44" ); break; default: history< UM::Vector< double, 2 > >( r, "position2" ); } }

SECTION( "lifetime", 1500, 40000 )
{
    // balance before, history, balance after
    size_t before = Counted::live().size(); long made = Counted::made(); (void)made; Counted::bad() = false;
    history< Counted >( r, "counted" );
    ok( "destroyed-once", !Counted::bad(), "a payload was destroyed twice or used after its end" );
    ok( "destroyed-at-end", Counted::live().size() == before, fmt( "%zu payloads left", Counted::live().size() - before ) );
    // at the last holder, not later and not earlier; copies of the payload are made only where documented
    typedef UMe::Measurement< Counted > M;
    {
        boost::shared_ptr< Counted > p( new Counted( 5 ) ); long c0 = Counted::copies(); const Counted* raw = p.get();
        std::vector< M > v; int n = r.in( 1, 6 ); v.push_back( M( 1, p ) ); p.reset(); for ( int i = 1; i < n; i++ ) v.push_back( v[ r.in( 0, i - 1 ) ] );
        ok( "sharing-copies-nothing", Counted::copies() == c0, "copying a measurement copied the payload" );
        r.shuffle( v ); M cl; if ( r.coin() ) { cl = v[ 0 ].clone(); ok( "clone-copies-once", Counted::copies() == c0 + 1 && cl.get() != raw ); }
        while ( v.size() > 1 ) { v.pop_back(); ok( "alive-with-holders", Counted::live().count( raw ) == 1, "payload destroyed while held" ); }
        int how = r.in( 0, 3 ); if ( how == 0 ) v.clear(); else if ( how == 1 ) v[ 0 ] = M(); else if ( how == 2 ) v[ 0 ].reset(); else v[ 0 ] = M( 3, Counted( 9 ) );
        ok( "destroyed-with-last-holder", Counted::live().size() == before + ( how == 3 ) + ( cl ? 1 : 0 ), "payload outlives its last holder" );
        if ( cl ) ok( "clone-survives", cl->v == 5 && Counted::live().count( cl.get() ) );
    }
    ok( "destroyed-at-end", Counted::live().size() == before );
}

template< class IA, class OA, class T > void throughArchive( Rng& r, const std::string& tn )
{
    typedef UMe::Measurement< T > M; std::stringstream s; int n = r.in( 1, 6 ); std::vector< M > in;
    { OA o( s ); for ( int i = 0; i < n; i++ ) { M m( anyTime( r ), G< T >::gen( r ) ); in.push_back( m ); const M& c = m; o << c; } }
    // one variable reads all of them, each is kept
    IA a( s ); M var; int start = r.in( 0, 2 ); if ( start == 1 ) var = M( 77, G< T >::gen( r ) ); else if ( start == 2 ) var = M( 0, boost::shared_ptr< T >( new T() ) );
    M first = var; T firstVal = var ? *var : T(); Time firstTime = var.time(); std::vector< M > kept;
    for ( int i = 0; i < n; i++ ) { a >> var; kept.push_back( var ); }
    bool good = true, times = true; for ( int i = 0; i < n; i++ ) { good = good && kept[ i ] && same( *kept[ i ], *in[ i ] ); times = times && kept[ i ].time() == in[ i ].time(); }
    ok( "read-values-" + tn, good, fmt( "%d measurements read one after the other", n ) ); ok( "read-times-" + tn, times );
    ok( "read-leaves-others-" + tn, first.time() == firstTime && bool( first ) == ( start != 0 ) && ( !first || !same( firstVal, firstVal ) || same( *first, firstVal ) ), "a measurement that shared the old value changed" );
    // no representation of an empty one
    std::stringstream e; OA o( e ); M none( 5 ); ok( "write-empty-reported-" + tn, throws( [ & ] { const M& c = none; o << c; } ) );
}
SECTION( "archive", 800, 15000 )
{
    using boost::archive::binary_iarchive; using boost::archive::binary_oarchive; using boost::archive::text_iarchive; using boost::archive::text_oarchive;
    switch ( idx % 8 )
    {
    case 0: throughArchive< binary_iarchive, binary_oarchive, UM::Pose >( r, "pose" ); break;
    case 1: throughArchive< text_iarchive, text_oarchive, UM::Scalar< int > >( r, "button" ); break;
    case 2: throughArchive< binary_iarchive, binary_oarchive, std::vector< UM::Vector< double, 3 > > >( r, "positions" ); break;
    case 3: throughArchive< binary_iarchive, binary_oarchive, UM::ErrorPose >( r, "errorpose" ); break;
    case 4: throughArchive< text_iarchive, text_oarchive, Counted >( r, "counted" ); break;
    case 5: throughArchive< binary_iarchive, binary_oarchive, UM::CameraIntrinsics< double > >( r, "intrinsics" ); break;
    case 6: throughArchive< binary_iarchive, binary_oarchive, UM::Matrix< double, 3, 4 > >( r, "matrix34" ); break;
    default: throughArchive< binary_iarchive, binary_oarchive, UM::Quaternion >( r, "rotation" );
    }
}
template< class T > void throughMsgpack( Rng& r, const std::string& tn )
{
    typedef UMe::Measurement< T > M; M in( genTime( r ), G< T >::gen( r ) ); msgpack::sbuffer b; msgpack::pack( b, in ); 
    M var( 5, G< T >::gen( r ) ), first = var; T firstVal = *var;
    msgpack::object_handle oh = msgpack::unpack( b.data(), b.size() ); oh.get().convert( var );
    ok( "message-value-" + tn, var && same( *var, *in ) && var.time() == in.time() && var.get() != in.get() );
    ok( "message-leaves-others-" + tn, first.time() == 5 && same( *first, firstVal ) && first.get() != var.get(), "a measurement that shared the old value changed" );
}
SECTION( "message", 500, 10000 )
{
    switch ( idx % 4 ) { case 0: throughMsgpack< UM::Pose >( r, "pose" ); break; case 1: throughMsgpack< UM::Vector< double, 3 > >( r, "position" ); break; case 2: throughMsgpack< UM::Scalar< double > >( r, "distance" ); break; default: throughMsgpack< UM::Quaternion >( r, "rotation" ); }
}

SECTION( "timestamps", 4000, 200000 )
{
    if ( idx % 50 == 0 ) setZone( r.in( 0, 8 ) );
    Time t = anyTime( r ); std::string l = UMe::timestampToString( t ), s = UMe::timestampToShortString( t );
    ok( "timestamp-long", l == longTime( t ), fmt( "%llu: ", t ) + l + " instead of " + longTime( t ) );
    ok( "timestamp-short", s == shortTime( t ), fmt( "%llu: ", t ) + s + " instead of " + shortTime( t ) );
    auto clk = []() { struct timeval v; gettimeofday( &v, 0 ); return Time( v.tv_sec ) * 1000000000ull + Time( v.tv_usec ) * 1000ull; };
    if ( idx % 10 == 0 ) { Time a = clk(), n = UMe::now(), b = clk(); if ( a <= b ) ok( "now-is-now", n >= a && n <= b + 1000, fmt( "%llu not between %llu and %llu", n, a, b ) ); }
}
VH_MAIN
