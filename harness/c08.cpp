// C08: calibration files round-trip and faults are reported as errors
#include "ser.h"
#include "limitnew.h"
#include <utUtil/CalibFile.h>
#include <utUtil/SimpleStringIArchive.h>
#include <utUtil/SimpleStringOArchive.h>
#include <fstream>
#include <unistd.h>
#include <sys/stat.h>
#include <boost/serialization/nvp.hpp>
using namespace ser;
namespace UU = Ubitrack::Util;
static std::string slurp( const std::string& f ) { std::ifstream s( f.c_str(), std::ios::binary ); std::stringstream b; b << s.rdbuf(); return b.str(); }
static void spit( const std::string& f, const std::string& c ) { std::ofstream s( f.c_str(), std::ios::binary ); s << c; }
/// runs f, which must report through the library's exception type and leave v alone
template< class T, class F > static void faulty( const std::string& key, const T& v, const T& before, F f, const std::string& what )
{
    bool lib = false, other = false; try { f(); } catch ( const UU::Exception& ) { lib = true; } catch ( ... ) { other = true; }
    vh::ok( key, lib, what + ( other ? ": another exception type" : ": no error" ) ); vh::ok( key + ".kept", same( v, before ), what + ": previous value changed" );
}
template< class T > struct Deep { static T copy( const T& t ) { return t; } };
template< class T > struct Deep< UMe::Measurement< T > > { static UMe::Measurement< T > copy( const UMe::Measurement< T >& t ) { return t.clone(); } };
enum Kind { TEXT, BINARY };
template< class T > static void doWrite( Kind k, const std::string& f, const T& v ) { if ( k == TEXT ) UU::writeCalibFile( f, v ); else UU::writeBinaryCalibFile( f, v ); }
template< class T > static void doRead( Kind k, const std::string& f, T& v ) { if ( k == TEXT ) UU::readCalibFile( f, v ); else UU::readBinaryCalibFile( f, v ); }
template< class T > static void trip( const std::string& name, Rng& r, uint64_t idx )
{
    Kind k = r.coin() ? TEXT : BINARY; std::string key = k == TEXT ? "text" : "binary", f = vh::fmt( "calib_%llu", (unsigned long long)( idx % 7 ) ); vh::sample( name + " " + key );
    if ( r.coin( 0.3 ) ) spit( f, std::string( r.in( 0, 5000 ), 'x' ) );
    T v = G< T >::gen( r ), w = Target< T >::make( r ); doWrite( k, f, v ); doRead( k, f, w ); vh::ok( key + ".roundtrip", same( v, w ), name + " read back differs" );
    T v2 = G< T >::gen( r ); doWrite( k, f, v2 ); doRead( k, f, w ); vh::ok( key + ".rewritten", same( v2, w ), name + " second content read back differs" );
    // writing again what was read gives the same file
    std::string good = slurp( f ); doWrite( k, "copy", w ); vh::ok( key + ".stable", slurp( "copy" ) == good, name );
    T t = G< T >::gen( r ), before = Deep< T >::copy( t ), share = t;
    faulty( key + ".missing", t, before, [ & ] { doRead( k, "no_such_file", t ); }, name ); faulty( key + ".missingDir", t, before, [ & ] { doRead( k, "no_such_dir/file", t ); }, name );
    ::mkdir( "a_directory", 0755 ); faulty( key + ".directory", t, before, [ & ] { doRead( k, "a_directory", t ); }, name );
    std::string cut; if ( k == BINARY ) cut = good.substr( 0, r.u64() % good.size() ); else { while ( !good.empty() && isspace( good.back() ) ) good.pop_back(); std::size_t last = good.find_last_of( ' ' ); cut = good.substr( 0, r.u64() % last ); }
    spit( "cut", cut ); faulty( key + ".truncated", t, before, [ & ] { doRead( k, "cut", t ); }, name + vh::fmt( " cut at %d of %d", int( cut.size() ), int( good.size() ) ) );
    spit( "cut", "" ); faulty( key + ".empty", t, before, [ & ] { doRead( k, "cut", t ); }, name );
    std::string junk; int n = r.in( 1, 300 ); for ( int i = 0; i < n; i++ ) junk += char( r.coin() ? 'a' + r.in( 0, 25 ) : r.in( 0, 255 ) ); spit( "cut", junk ); faulty( key + ".junk", t, before, [ & ] { doRead( k, "cut", t ); }, name );
    vh::ok( key + ".sharedKept", same( share, before ), name + ": a holder sharing the previous value sees a change" );
    faulty( key + ".unwritable", v, v2 = v, [ & ] { doWrite( k, "no_such_dir/file", v ); }, name ); faulty( key + ".notAFile", v, v2, [ & ] { doWrite( k, "a_directory", v ); }, name );
    if ( ::access( "/dev/full", W_OK ) == 0 ) faulty( key + ".deviceFull", v, v2, [ & ] { doWrite( k, "/dev/full", v ); }, name );
    // a reader that already holds a value, or shares it with others, gets the new one for itself
    doRead( k, f, t );
}
template< class T > static void dropTrip( const std::string& name, Rng& r )
{
    UMe::Measurement< T > m = G< UMe::Measurement< T > >::gen( r ); UU::writeCalibFile( "drop", m ); T v = G< T >::gen( r ); UU::readCalibFileDropMeasurement( "drop", v ); vh::ok( "drop.roundtrip", same( v, *m ), name );
    T before = v; faulty( "drop.missing", v, before, [ & ] { UU::readCalibFileDropMeasurement( "no_such_file", v ); }, name ); spit( "cut", "junk" ); faulty( "drop.junk", v, before, [ & ] { UU::readCalibFileDropMeasurement( "cut", v ); }, name ); spit( "cut", "" ); faulty( "drop.empty", v, before, [ & ] { UU::readCalibFileDropMeasurement( "cut", v ); }, name );
    std::string good = slurp( "drop" ); while ( !good.empty() && isspace( good.back() ) ) good.pop_back(); spit( "cut", good.substr( 0, r.u64() % good.find_last_of( ' ' ) ) ); faulty( "drop.truncated", v, before, [ & ] { UU::readCalibFileDropMeasurement( "cut", v ); }, name );
}
#define TYPES( X ) X( Scalar< double >, "Scalar<double>" ) X( V3, "Vector3" ) X( M33, "Matrix3x3" ) X( M34, "Matrix3x4" ) X( Quaternion, "Quaternion" ) X( Pose, "Pose" ) X( ErrorPose, "ErrorPose" ) X( CameraIntrinsics< double >, "CameraIntrinsics" ) X( std::vector< Pose >, "PoseList" ) X( std::vector< V2 >, "PositionList2" ) X( UM::Vector< double COMMA 8 >, "Vector8" )
SECTION( "values", 700, 20000 )
{
    int k = r.in( 0, 10 );
#define X( T, N ) if ( k-- == 0 ) trip< T >( N, r, idx );
    TYPES( X )
#undef X
}
SECTION( "measurements", 700, 20000 )
{
    int k = r.in( 0, 10 );
#define X( T, N ) if ( k-- == 0 ) trip< UMe::Measurement< T > >( "Measurement." N, r, idx );
    TYPES( X )
#undef X
}
SECTION( "dropMeasurement", 600, 10000 )
{
    int k = r.in( 0, 10 );
#define X( T, N ) if ( k-- == 0 ) dropTrip< T >( N, r );
    TYPES( X )
#undef X
}
// plain string archives: the printed form has six significant digits
SECTION( "simpleString", 4000, 100000 )
{
    UU::SimpleStringOArchive o; std::vector< std::pair< int, double > > w; int n = r.in( 1, 20 ); std::string sep;
    for ( int i = 0; i < n; i++ ) switch ( r.in( 0, 5 ) )
    {
    case 0: { int v = G< int >::gen( r ); o << v; w.push_back( { 0, double( v ) } ); break; }
    case 1: { unsigned v = unsigned( r.u64() ); o << v; w.push_back( { 1, double( v ) } ); break; }
    case 2: { double v = r.coin() ? r.in( -99999, 99999 ) / 8.0 : r.sgn() * r.logu( 1e-30, 1e30 ); o << v; w.push_back( { 2, v } ); break; }
    case 3: { float v = float( r.in( -9999, 9999 ) ) / 4; o << v; w.push_back( { 3, v } ); break; }
    case 4: { char v = char( 'a' + r.in( 0, 25 ) ); o << v; w.push_back( { 4, double( v ) } ); break; }
    default: { unsigned long long v = r.u64() >> r.in( 11, 63 ); o << v; w.push_back( { 5, double( v ) } ); }
    }
    std::string s = o.str(); vh::sample( s ); UU::SimpleStringIArchive a( s );
    for ( auto& x : w ) { double got = 0; switch ( x.first ) { case 0: { int v = 0; a >> v; got = v; break; } case 1: { unsigned v = 0; a >> v; got = v; break; } case 2: { double v = 0; a >> v; got = v; break; } case 3: { float v = 0; a >> v; got = v; break; } case 4: { char v = 0; a >> v; got = v; break; } default: { unsigned long long v = 0; a >> v; got = double( v ); } }
        if ( x.first == 2 || x.first == 3 ) vh::small( "simple.real", got - x.second, 5.0001e-6 * std::fabs( x.second ) + 1e-300, s ); else vh::ok( "simple.exact", got == x.second, s ); }
    bool thrown = false; try { int v; a >> v; } catch ( const UU::Exception& ) { thrown = true; } vh::ok( "simple.end", thrown, "reading past the end is not reported: " + s );
}
SECTION( "simpleStringTypes", 2000, 50000 )
{
    UU::SimpleStringOArchive o; Pose p = uniPose( r, r.logu( 1e-3, 1e3 ) ); V3 v = uniVec( r ); M34 m; for ( int i = 0; i < 3; i++ ) for ( int j = 0; j < 4; j++ ) m( i, j ) = r.uni( -9, 9 ); Scalar< int > b( G< int >::gen( r ) ); o << p << v << m << b; UU::SimpleStringIArchive a( o.str() ); Pose q; V3 x; M34 y; Scalar< int > c; a >> q >> x >> y >> c;
    double d = 0; for ( int i = 0; i < 3; i++ ) { d = std::max( d, std::fabs( x( i ) - v( i ) ) ); d = std::max( d, std::fabs( q.translation()( i ) - p.translation()( i ) ) / ( 1e-300 + std::fabs( p.translation()( i ) ) ) ); for ( int j = 0; j < 4; j++ ) d = std::max( d, std::fabs( m( i, j ) - y( i, j ) ) / 9 ); }
    d = std::max( d, std::fabs( q.rotation().x() - p.rotation().x() ) ); d = std::max( d, std::fabs( q.rotation().y() - p.rotation().y() ) ); d = std::max( d, std::fabs( q.rotation().z() - p.rotation().z() ) ); d = std::max( d, std::fabs( q.rotation().w() - p.rotation().w() ) );
    vh::small( "simple.types", d, 6e-6, o.str() ); vh::ok( "simple.button", c.m_value == b.m_value, o.str() );
}
VH_MAIN
