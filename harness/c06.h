#pragma once
// C06: serialising and reading back a value reproduces it exactly
#include "ser.h"
#include <sstream>
#include <functional>
using namespace ser;
namespace BA = Ubitrack::Serialization::BoostArchive; namespace MA = Ubitrack::Serialization::MsgpackArchive;

template< class OA, class IA, class T > static void boostTrip( const std::string& key, Rng& r )
{
    T v = G< T >::gen( r ), w = Target< T >::make( r ); T keep = v; int mark = int( r.u64() & 0xffff );
    std::stringstream s; { OA oa( s ); BA::serialize( oa, v ); oa << mark; }
    vh::ok( key + ".source", same( v, keep ), "the written value changed" );
    std::stringstream s2( s.str() ); IA ia( s2 ); BA::deserialize( ia, w ); int m2 = -1; ia >> m2;
    vh::ok( key, same( v, w ), "value read back differs" ); vh::ok( key + ".consumed", m2 == mark, "following value misread" );
}
template< class T > static void packTrip( const std::string& key, Rng& r, bool zone = true )
{
    T v = G< T >::gen( r ), w = Target< T >::make( r ); unsigned mark = unsigned( r.u64() & 0xffff );
    msgpack::sbuffer b; msgpack::packer< msgpack::sbuffer > pk( &b );
    if ( r.coin() ) { MA::serialize( pk, v ); pk.pack( mark ); } else { MA::serialize( b, v ); msgpack::pack( b, mark ); }
    // delivered in arbitrary pieces
    msgpack::unpacker u; std::size_t pos = 0; bool whole = r.coin();
    while ( pos < b.size() ) { std::size_t n = whole ? b.size() : std::min< std::size_t >( b.size() - pos, 1 + r.u64() % 40 ); u.reserve_buffer( n ); std::memcpy( u.buffer(), b.data() + pos, n ); u.buffer_consumed( n ); pos += n; }
    MA::deserialize( u, w ); msgpack::object_handle oh; bool got = u.next( oh );
    vh::ok( key, same( v, w ), "value read back differs" ); vh::ok( key + ".consumed", got && oh.get().template as< unsigned >() == mark && !u.next( oh ), "following value misread" );
    if ( zone )
    {
        msgpack::zone z; msgpack::object o( v, z ); T w2 = Target< T >::make( r ); o.convert( w2 ); vh::ok( key + ".object", same( v, w2 ), "value converted through a message object differs" );
        T w3 = o.template as< T >(); vh::ok( key + ".as", same( v, w3 ), "value extracted with as<> differs" );
    }
}
