// C07: damaged or truncated serialised data never corrupts memory
#include "ser.h"
#include "limitnew.h"
#include <utUtil/SimpleStringIArchive.h>
#include <utUtil/SimpleStringOArchive.h>
#include <sstream>
#include <new>
#include <cstdlib>
using namespace ser;
namespace BA = Ubitrack::Serialization::BoostArchive; namespace MA = Ubitrack::Serialization::MsgpackArchive;

/// uses a value the way a client does after a read that reported no error
template< class T > static void use( const T& v ) { std::ostringstream o; o << v; std::ostringstream b; boost::archive::binary_oarchive a( b ); a << v; vh::event( "value" ); }
template< class T > static void use( const std::vector< T >& v ) { std::ostringstream b; boost::archive::binary_oarchive a( b ); a << v; for ( auto& x : v ) { std::ostringstream o; o << x; } vh::event( "list" ); }
template< class T > static void use( const UMe::Measurement< T >& v ) { (void)v.time(); if ( v ) use( *v ); else vh::event( "empty measurement" ); }
template<> void use( const UM::Vector< double >& v ) { std::ostringstream o; o << v; vh::event( "value" ); }

static std::string mutate( Rng& r, std::string s, bool text )
{
    int n = r.coin( 0.6 ) ? 1 : r.in( 2, 6 );
    for ( int k = 0; k < n; k++ )
    {
        if ( s.empty() ) break; std::size_t p = r.u64() % s.size();
        switch ( r.in( 0, 8 ) )
        {
        case 0: s.resize( p ); break; // truncated
        case 1: s[ p ] ^= char( 1 << r.in( 0, 7 ) ); break;
        case 2: s[ p ] = char( r.u64() ); break;
        case 3: s.insert( p, std::string( r.in( 1, 8 ), char( r.u64() ) ) ); break;
        case 4: s.erase( p, 1 + r.u64() % 8 ); break;
        case 5: { std::size_t q = r.u64() % s.size(), l = 1 + r.u64() % 16; s.insert( p, s.substr( q, l ) ); break; }
        case 6: { static const unsigned char b[] = { 0, 1, 0x7f, 0x80, 0xff, 0xfe, 0xc0, 0xdc, 0xdd, 0xcf, 0xd3, 0xcb }; s[ p ] = char( b[ r.in( 0, 11 ) ] ); break; }
        case 7: if ( text ) { static const char* t[] = { "-1", "99999999999999999999", "18446744073709551615", "4294967295", "nan", "inf", "1e999", "7", "100000", "-", " ", "abc" }; std::size_t e = s.find( ' ', p ); std::size_t b = s.rfind( ' ', p ); b = b == std::string::npos ? 0 : b + 1; s = s.substr( 0, b ) + t[ r.in( 0, 11 ) ] + ( e == std::string::npos ? "" : s.substr( e ) ); }
                else { uint64_t v = r.coin() ? ~0ull : 1ull << r.in( 0, 63 ); for ( std::size_t i = 0; i < 8 && p + i < s.size(); i++ ) s[ p + i ] = char( v >> ( 8 * i ) ); } break;
        default: { std::size_t l = std::min< std::size_t >( s.size() - p, 1 + r.u64() % 16 ); for ( std::size_t i = 0; i < l; i++ ) s[ p + i ] = char( r.u64() ); }
        }
    }
    return s;
}
struct Buf { char* p; std::size_t n; Buf( const std::string& s ) : p( (char*)std::malloc( s.size() ? s.size() : 1 ) ), n( s.size() ) { std::memcpy( p, s.data(), n ); } ~Buf() { std::free( p ); } };
template< class F > static void guarded( const std::string& key, F f )
{
    try { f(); vh::event( key + ": value" ); }
    catch ( const std::exception& ) { vh::event( key + ": error" ); }
    vh::seen( key );
}
typedef boost::iostreams::basic_array_source< char > Device;
template< class T > static void damaged( const std::string& name, Rng& r, int how )
{
    T v = G< T >::gen( r );
    if ( how == 0 )
    {
        std::ostringstream o; { boost::archive::text_oarchive a( o ); BA::serialize( a, v ); } std::string s = mutate( r, o.str(), true ); vh::sample( name + " text " + s.substr( 0, 120 ) ); Buf b( s );
        guarded( "text", [ & ] { T w = Target< T >::make( r ); try { boost::iostreams::stream< Device > sb( b.p, b.n ); boost::archive::text_iarchive a( sb ); BA::deserialize( a, w ); } catch ( ... ) { use( w ); throw; } use( w ); } );
        // an independent read of the intact text afterwards
        std::istringstream i( o.str() ); boost::archive::text_iarchive a( i ); T w = Target< T >::make( r ); BA::deserialize( a, w ); vh::ok( "text.after", same( v, w ), name );
    }
    else if ( how == 1 )
    {
        std::ostringstream o; { boost::archive::binary_oarchive a( o ); BA::serialize( a, v ); } std::string s = mutate( r, o.str(), false ); vh::sample( name + vh::fmt( " binary %d bytes", int( s.size() ) ) ); Buf b( s );
        guarded( "binary", [ & ] { T w = Target< T >::make( r ); try { boost::iostreams::stream_buffer< Device > sb( b.p, b.n ); boost::archive::binary_iarchive a( sb ); BA::deserialize( a, w ); } catch ( ... ) { use( w ); throw; } use( w ); } );
        std::istringstream i( o.str() ); boost::archive::binary_iarchive a( i ); T w = Target< T >::make( r ); BA::deserialize( a, w ); vh::ok( "binary.after", same( v, w ), name );
    }
    else
    {
        msgpack::sbuffer sb; MA::serialize( sb, v ); std::string good( sb.data(), sb.size() ), s = how == 2 ? mutate( r, good, false ) : std::string(); vh::sample( name + vh::fmt( " msgpack %d bytes", int( s.size() ) ) );
        if ( how == 3 ) { int n = r.in( 0, 60 ); for ( int i = 0; i < n; i++ ) s += char( r.coin( 0.4 ) ? 0x90 + r.in( 0, 15 ) : r.u64() ); }
        if ( how == 4 ) { // well-formed messages of another type
            msgpack::sbuffer x; msgpack::packer< msgpack::sbuffer > p( &x ); std::function< void( int ) > any = [ & ]( int d ) { switch ( r.in( 0, d > 0 ? 8 : 5 ) ) { case 0: p.pack_nil(); break; case 1: p.pack( r.coin() ); break; case 2: p.pack( int64_t( r.u64() ) ); break; case 3: p.pack( gd( r ) ); break; case 4: p.pack( std::string( r.in( 0, 5 ), 'x' ) ); break; case 5: p.pack( uint64_t( r.u64() >> r.in( 0, 63 ) ) ); break; case 6: { int n = r.in( 0, 3 ); p.pack_map( n ); for ( int i = 0; i < n; i++ ) { any( d - 1 ); any( d - 1 ); } break; } default: { int n = r.in( 0, 7 ); p.pack_array( n ); for ( int i = 0; i < n; i++ ) any( d - 1 ); } } };
            any( 4 ); s.assign( x.data(), x.size() ); }
        Buf b( s );
        guarded( "msgpack", [ & ] { T w = Target< T >::make( r ); msgpack::unpacker u; u.reserve_buffer( b.n ); std::memcpy( u.buffer(), b.p, b.n ); u.buffer_consumed( b.n ); for ( int k = 0; k < 3; k++ ) { try { MA::deserialize( u, w ); } catch ( ... ) { use( w ); throw; } use( w ); } } );
        guarded( "msgpack.object", [ & ] { msgpack::object_handle oh = msgpack::unpack( b.p, b.n ); T w = oh.get().template as< T >(); use( w ); } );
        msgpack::unpacker u; u.reserve_buffer( good.size() ); std::memcpy( u.buffer(), good.data(), good.size() ); u.buffer_consumed( good.size() ); T w = Target< T >::make( r ); MA::deserialize( u, w ); vh::ok( "msgpack.after", same( v, w ), name );
    }
}
static void pick( Rng& r, int how )
{
#define X( T, N ) if ( k-- == 0 ) return damaged< T >( N, r, how );
#define XM( T, N ) if ( k-- == 0 ) return damaged< UMe::Measurement< T > >( "Measurement." N, r, how );
#define YT( X ) X( Scalar< int >, "Scalar<int>" ) X( Scalar< double >, "Scalar<double>" ) X( V3, "Vector3" ) X( M34, "Matrix3x4" ) X( Quaternion, "Quaternion" ) X( Pose, "Pose" ) X( ErrorPose, "ErrorPose" ) X( ErrorVector< double COMMA 3 >, "ErrorVector3" ) X( UM::RotationVelocity, "RotationVelocity" ) X( CameraIntrinsics< double >, "CameraIntrinsics" ) X( std::vector< Pose >, "PoseList" ) X( std::vector< V2 >, "PositionList2" ) X( std::vector< Scalar< unsigned long > >, "IDList" )
    int k = r.in( 0, 23 ); YT( X ) YT( XM )
    return r.coin() ? damaged< CameraIntrinsics< double > >( "CameraIntrinsics", r, how ) : damaged< std::vector< ErrorPose > >( "ErrorPoseList", r, how );
#undef X
#undef XM
}
SECTION( "text", 12000, 400000 ) { pick( r, 0 ); }
SECTION( "binary", 12000, 400000 ) { pick( r, 1 ); }
SECTION( "msgpack", 12000, 400000 ) { pick( r, 2 ); }
SECTION( "msgpackBytes", 6000, 200000 ) { pick( r, r.coin() ? 3 : 4 ); }
SECTION( "msgpackDynamicVector", 2000, 40000 )
{
    UM::Vector< double > v = G< UM::Vector< double > >::gen( r ); msgpack::sbuffer sb; MA::serialize( sb, v ); Buf b( mutate( r, std::string( sb.data(), sb.size() ), false ) );
    guarded( "msgpack.dynamic", [ & ] { UM::Vector< double > w( r.in( 0, 5 ) ); msgpack::unpacker u; u.reserve_buffer( b.n ); std::memcpy( u.buffer(), b.p, b.n ); u.buffer_consumed( b.n ); MA::deserialize( u, w ); use( w ); } );
}
// every prefix of a valid stream
SECTION( "prefixes", 40, 2000 )
{
    typedef UMe::CameraIntrinsics::value_type CI; UMe::Measurement< CI > m = G< UMe::Measurement< CI > >::gen( r ); std::vector< Pose > l = G< std::vector< Pose > >::gen( r );
    std::ostringstream t, bb; { boost::archive::text_oarchive a( t ); BA::serialize( a, m ); BA::serialize( a, l ); } { boost::archive::binary_oarchive a( bb ); BA::serialize( a, m ); BA::serialize( a, l ); } msgpack::sbuffer sb; MA::serialize( sb, m ); MA::serialize( sb, l );
    auto each = [ & ]( const std::string& s, int how ) { for ( std::size_t n = 0; n < s.size(); n += 1 + r.u64() % 5 ) { Buf b( s.substr( 0, n ) ); bool err = false;
        UMe::Measurement< CI > x( 0, CI() ); std::vector< Pose > y;
        try { if ( how == 0 ) { boost::iostreams::stream< Device > q( b.p, b.n ); boost::archive::text_iarchive a( q ); BA::deserialize( a, x ); BA::deserialize( a, y ); } else if ( how == 1 ) { boost::iostreams::stream_buffer< Device > q( b.p, b.n ); boost::archive::binary_iarchive a( q ); BA::deserialize( a, x ); BA::deserialize( a, y ); } else { msgpack::unpacker u; u.reserve_buffer( b.n ); std::memcpy( u.buffer(), b.p, b.n ); u.buffer_consumed( b.n ); MA::deserialize( u, x ); MA::deserialize( u, y ); } } catch ( const std::exception& ) { err = true; }
        use( x ); use( y ); vh::event( err ? "prefix error" : "prefix value" ); vh::seen( how == 0 ? "prefix.text" : how == 1 ? "prefix.binary" : "prefix.msgpack" );
        // a binary stream that ends early cannot yield a value without an error
        if ( how == 1 ) vh::ok( "prefix.binary.reported", err, vh::fmt( "%d of %d bytes read without error", int( n ), int( s.size() ) ) ); } };
    each( t.str(), 0 ); each( bb.str(), 1 ); each( std::string( sb.data(), sb.size() ), 2 );
}
SECTION( "simpleString", 6000, 100000 )
{
    std::string s; Ubitrack::Util::SimpleStringOArchive o; Pose p = uniPose( r ); o << p; s = r.coin( 0.8 ) ? mutate( r, o.str(), true ) : std::string(); vh::sample( s );
    guarded( "simpleString", [ & ] { Ubitrack::Util::SimpleStringIArchive a( s ); Pose q; a >> q; use( q ); } );
    guarded( "simpleString.scalars", [ & ] { Ubitrack::Util::SimpleStringIArchive a( s ); for ( int k = 0; k < 10; k++ ) { int i = 0; double d = 0; unsigned u = 0; char c = 0; unsigned long long l = 0; switch ( r.in( 0, 4 ) ) { case 0: a >> i; break; case 1: a >> d; break; case 2: a >> u; break; case 3: a >> c; break; default: a >> l; } } } );
    guarded( "simpleString.list", [ & ] { Ubitrack::Util::SimpleStringIArchive a( s ); ErrorPose c; a >> c; use( c ); } );
}
VH_MAIN
