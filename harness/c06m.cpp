// C06, message pack
#include "c06.h"
SECTION( "msgpack", 4000, 100000 )
{
#define X( T, N ) packTrip< T >( std::string( "msgpack." ) + N, r );
#define XM( T, N ) packTrip< UMe::Measurement< T > >( std::string( "msgpack.Measurement." ) + N, r );
    switch ( idx % 4 ) { case 0: SER_MATH_TYPES( X ) packTrip< UM::Vector< double > >( "msgpack.VectorDynamic", r ); packTrip< UM::Vector< float > >( "msgpack.VectorDynamicF", r ); break; case 1: SER_LIST_TYPES( X ) break; case 2: SER_MATH_TYPES( XM ) break; default: SER_LIST_TYPES( XM ) }
#undef X
#undef XM
}
// an empty measurement travels as such
SECTION( "msgpack.empty", 200, 2000 )
{
    UMe::Pose e; if ( r.coin() ) e.time( genTime( r ) ); UMe::Pose t = Target< UMe::Pose >::make( r ); msgpack::sbuffer b; MA::serialize( b, e ); msgpack::unpacker u; u.reserve_buffer( b.size() ); std::memcpy( u.buffer(), b.data(), b.size() ); u.buffer_consumed( b.size() );
    MA::deserialize( u, t ); vh::ok( "msgpack.empty", !t && t.invalid(), "an empty measurement is read back as a value" );
}
