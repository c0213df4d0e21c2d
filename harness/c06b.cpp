// C06, binary archives
#include "c06.h"
SECTION( "boost.binary", 4000, 100000 )
{
#define X( T, N ) boostTrip< boost::archive::binary_oarchive, boost::archive::binary_iarchive, T >( std::string( "binary." ) + N, r );
#define XM( T, N ) boostTrip< boost::archive::binary_oarchive, boost::archive::binary_iarchive, UMe::Measurement< T > >( std::string( "binary.Measurement." ) + N, r );
    switch ( idx % 4 ) { case 0: SER_MATH_TYPES( X ) break; case 1: SER_LIST_TYPES( X ) break; case 2: SER_MATH_TYPES( XM ) break; default: SER_LIST_TYPES( XM ) }
#undef X
#undef XM
}
