// C06, text archives
#include "c06.h"
SECTION( "boost.text", 4000, 100000 )
{
#define X( T, N ) boostTrip< boost::archive::text_oarchive, boost::archive::text_iarchive, T >( std::string( "text." ) + N, r );
#define XM( T, N ) boostTrip< boost::archive::text_oarchive, boost::archive::text_iarchive, UMe::Measurement< T > >( std::string( "text.Measurement." ) + N, r );
    switch ( idx % 4 ) { case 0: SER_MATH_TYPES( X ) break; case 1: SER_LIST_TYPES( X ) break; case 2: SER_MATH_TYPES( XM ) break; default: SER_LIST_TYPES( XM ) }
#undef X
#undef XM
}
VH_MAIN
