// Value generators and bit-exact comparison for every serialisable type (C06-C08, C27).
#pragma once
#include "um.h"
#include <utMeasurement/Measurement.h>
#include <utSerialization/BoostArchiveSerializer.h>
#include <utSerialization/MsgpackSerializer.h>
#include <boost/serialization/vector.hpp>
#include <cstring>
#include <cfloat>
#include <climits>
namespace ser {
using namespace um;
namespace UMe = Ubitrack::Measurement;
using UM::Quaternion; using UM::Pose; using UM::ErrorPose; using UM::ErrorVector; using UM::Scalar; using UM::CameraIntrinsics;

inline double gd( Rng& r )
{
    switch ( r.in( 0, 9 ) )
    {
    case 0: { static const double s[] = { 0, -0.0, 1, -1, DBL_MAX, -DBL_MAX, DBL_MIN, -DBL_MIN, 4.9406564584124654e-324, 0.1, 1.0 / 3, 1e22, 1e23, 9007199254740993.0, 2.2250738585072011e-308, 123456789.123456789, 1e-5, 65536, 4294967296.0, 18446744073709551616.0 }; return s[ r.in( 0, 19 ) ]; }
    case 1: return r.in( -1000, 1000 );
    case 2: case 3: { double d; do { uint64_t u = r.u64(); std::memcpy( &d, &u, 8 ); } while ( !std::isfinite( d ) ); return d; }
    default: return r.sgn() * r.logu( 1e-9, 1e9 );
    }
}
template< class T > struct G;
template<> struct G< double > { static double gen( Rng& r ) { return gd( r ); } };
template<> struct G< float > { static float gen( Rng& r ) { float d; do { uint32_t u = uint32_t( r.u64() ); std::memcpy( &d, &u, 4 ); } while ( !std::isfinite( d ) ); return d; } };
template<> struct G< int > { static int gen( Rng& r ) { switch ( r.in( 0, 5 ) ) { case 0: return INT_MIN; case 1: return INT_MAX; case 2: return 1 << r.in( 0, 30 ); case 3: return r.in( -200, 200 ); case 4: return 0; default: return int( r.u64() ); } } };
template<> struct G< unsigned long > { static unsigned long gen( Rng& r ) { switch ( r.in( 0, 4 ) ) { case 0: return ULONG_MAX; case 1: return 0; case 2: return 1ul << r.in( 0, 63 ); default: return r.u64() >> r.in( 0, 63 ); } } };
template<> struct G< unsigned long long > { static unsigned long long gen( Rng& r ) { return G< unsigned long >::gen( r ); } };
template< class T > struct G< Scalar< T > > { static Scalar< T > gen( Rng& r ) { return Scalar< T >( G< T >::gen( r ) ); } };
template< class T, std::size_t N > struct G< UM::Vector< T, N > > { static UM::Vector< T, N > gen( Rng& r ) { UM::Vector< T, N > v; for ( std::size_t i = 0; i < N; i++ ) v( i ) = G< T >::gen( r ); return v; } };
template< class T > struct G< UM::Vector< T, 0 > > { static UM::Vector< T, 0 > gen( Rng& r ) { int n = r.coin( 0.2 ) ? 0 : r.in( 1, 20 ); UM::Vector< T, 0 > v( n ); for ( int i = 0; i < n; i++ ) v( i ) = G< T >::gen( r ); return v; } };
template< class T, std::size_t M, std::size_t N > struct G< UM::Matrix< T, M, N > > { static UM::Matrix< T, M, N > gen( Rng& r ) { UM::Matrix< T, M, N > v; for ( std::size_t i = 0; i < M; i++ ) for ( std::size_t j = 0; j < N; j++ ) v( i, j ) = G< T >::gen( r ); return v; } };
template<> struct G< Quaternion > { static Quaternion gen( Rng& r ) { return r.coin() ? genQuat( r ) : Quaternion( gd( r ), gd( r ), gd( r ), gd( r ) ); } };
template<> struct G< Pose > { static Pose gen( Rng& r ) { return Pose( uniQuat( r ), G< V3 >::gen( r ) ); } };
template<> struct G< ErrorPose > { static ErrorPose gen( Rng& r ) { return ErrorPose( uniQuat( r ), G< V3 >::gen( r ), G< UM::Matrix< double, 6, 6 > >::gen( r ) ); } };
template< class T, std::size_t N > struct G< ErrorVector< T, N > > { static ErrorVector< T, N > gen( Rng& r ) { return ErrorVector< T, N >( G< UM::Vector< T, N > >::gen( r ), G< UM::Matrix< T, N, N > >::gen( r ) ); } };
template<> struct G< UM::RotationVelocity > { static UM::RotationVelocity gen( Rng& r ) { V3 v = G< V3 >::gen( r ); return UM::RotationVelocity( v ); } };
template< class T > struct G< CameraIntrinsics< T > >
{
    static CameraIntrinsics< T > gen( Rng& r )
    {
        UM::Matrix< T, 3, 3 > k = G< UM::Matrix< T, 3, 3 > >::gen( r ); UM::Vector< T, 2 > t = G< UM::Vector< T, 2 > >::gen( r ); std::size_t w = r.in( 0, 5000 ), h = r.in( 0, 5000 );
        switch ( r.in( 0, 4 ) )
        {
        case 0: { CameraIntrinsics< T > c; c.matrix = k; c.dimension = UM::Vector< std::size_t, 2 >( w, h ); c.tangential_params = t; return c; }
        case 1: return CameraIntrinsics< T >( k, G< UM::Vector< T, 2 > >::gen( r ), t, w, h );
        case 2: return CameraIntrinsics< T >( k, G< UM::Vector< T, 3 > >::gen( r ), t, w, h );
        case 3: return CameraIntrinsics< T >( k, G< UM::Vector< T, 4 > >::gen( r ), w, h );
        default: return CameraIntrinsics< T >( k, G< UM::Vector< T, 6 > >::gen( r ), t, w, h );
        }
    }
};
template< class T > struct G< std::vector< T > > { static std::vector< T > gen( Rng& r ) { std::vector< T > v; int n = r.coin( 0.25 ) ? 0 : r.coin( 0.1 ) ? r.in( 14, 70 ) : r.in( 1, 9 ); for ( int i = 0; i < n; i++ ) v.push_back( G< T >::gen( r ) ); return v; } };
inline unsigned long long genTime( Rng& r ) { return r.coin( 0.3 ) ? 1 + r.u64() % 1000 : std::max( 1ull, G< unsigned long long >::gen( r ) ); }
template< class T > struct G< UMe::Measurement< T > > { static UMe::Measurement< T > gen( Rng& r ) { return UMe::Measurement< T >( genTime( r ), G< T >::gen( r ) ); } };

// (message pack stores integral values as integers, so the sign of zero is not part of the value)
inline bool same( double a, double b ) { return a == b; }
inline bool same( float a, float b ) { return a == b; }
inline bool same( int a, int b ) { return a == b; }
inline bool same( unsigned long a, unsigned long b ) { return a == b; }
template< class T > bool same( const Scalar< T >& a, const Scalar< T >& b ) { return same( a.m_value, b.m_value ); }
template< class T, std::size_t N > bool same( const UM::Vector< T, N >& a, const UM::Vector< T, N >& b ) { if ( a.size() != b.size() ) return false; for ( std::size_t i = 0; i < a.size(); i++ ) if ( !same( a( i ), b( i ) ) ) return false; return true; }
template< class T, std::size_t M, std::size_t N > bool same( const UM::Matrix< T, M, N >& a, const UM::Matrix< T, M, N >& b ) { for ( std::size_t i = 0; i < M; i++ ) for ( std::size_t j = 0; j < N; j++ ) if ( !same( a( i, j ), b( i, j ) ) ) return false; return true; }
inline bool same( const Quaternion& a, const Quaternion& b ) { return same( a.x(), b.x() ) && same( a.y(), b.y() ) && same( a.z(), b.z() ) && same( a.w(), b.w() ); }
inline bool same( const Pose& a, const Pose& b ) { return same( a.rotation(), b.rotation() ) && same( a.translation(), b.translation() ); }
inline bool same( const ErrorPose& a, const ErrorPose& b ) { return same( static_cast< const Pose& >( a ), static_cast< const Pose& >( b ) ) && same( a.covariance(), b.covariance() ); }
template< class T, std::size_t N > bool same( const ErrorVector< T, N >& a, const ErrorVector< T, N >& b ) { return same( a.value, b.value ) && same( a.covariance, b.covariance ); }
inline bool same( const UM::RotationVelocity& a, const UM::RotationVelocity& b ) { for ( int i = 0; i < 3; i++ ) if ( !same( a( i ), b( i ) ) ) return false; return true; }
template< class T > bool same( const CameraIntrinsics< T >& a, const CameraIntrinsics< T >& b ) { return a.calib_type == b.calib_type && a.dimension( 0 ) == b.dimension( 0 ) && a.dimension( 1 ) == b.dimension( 1 ) && same( a.matrix, b.matrix ) && a.radial_size == b.radial_size && same( a.radial_params, b.radial_params ) && same( a.tangential_params, b.tangential_params ); }
template< class T > bool same( const std::vector< T >& a, const std::vector< T >& b ) { if ( a.size() != b.size() ) return false; for ( std::size_t i = 0; i < a.size(); i++ ) if ( !same( a[ i ], b[ i ] ) ) return false; return true; }
template< class T > bool same( const UMe::Measurement< T >& a, const UMe::Measurement< T >& b ) { return a.time() == b.time() && bool( a ) == bool( b ) && ( !a || same( *a, *b ) ); }

/// what a reader passes in: a fresh value, or one that still holds other content
template< class T > struct Target { static T make( Rng& r ) { return r.coin() ? T() : G< T >::gen( r ); } };
template< class T > struct Target< UMe::Measurement< T > > { static UMe::Measurement< T > make( Rng& r ) { switch ( r.in( 0, 2 ) ) { case 0: return UMe::Measurement< T >( 0, boost::shared_ptr< T >( new T() ) ); case 1: return UMe::Measurement< T >(); default: return G< UMe::Measurement< T > >::gen( r ); } } };

/// calls f.template operator()< T >( name ) for every math type
#define SER_MATH_TYPES( X ) \
    X( Scalar< int >, "Scalar<int>" ) X( Scalar< double >, "Scalar<double>" ) X( Scalar< unsigned long >, "Scalar<unsigned long>" ) \
    X( V2, "Vector2" ) X( V3, "Vector3" ) X( V4, "Vector4" ) X( UM::Vector< double COMMA 8 >, "Vector8" ) X( UM::Vector< float COMMA 3 >, "Vector3f" ) X( UM::Vector< double COMMA 1 >, "Vector1" ) \
    X( M33, "Matrix3x3" ) X( M34, "Matrix3x4" ) X( M44, "Matrix4x4" ) X( UM::Matrix< double COMMA 4 COMMA 2 >, "Matrix4x2" ) X( UM::Matrix< double COMMA 1 COMMA 5 >, "Matrix1x5" ) X( UM::Matrix< float COMMA 2 COMMA 3 >, "Matrix2x3f" ) X( UM::Matrix< double COMMA 6 COMMA 6 >, "Matrix6x6" ) \
    X( Quaternion, "Quaternion" ) X( Pose, "Pose" ) X( ErrorPose, "ErrorPose" ) X( ErrorVector< double COMMA 2 >, "ErrorVector2" ) X( ErrorVector< double COMMA 3 >, "ErrorVector3" ) X( UM::RotationVelocity, "RotationVelocity" ) X( CameraIntrinsics< double >, "CameraIntrinsics" ) X( CameraIntrinsics< float >, "CameraIntrinsicsF" )
#define SER_LIST_TYPES( X ) \
    X( std::vector< Scalar< int > >, "ButtonList" ) X( std::vector< Scalar< double > >, "DistanceList" ) X( std::vector< Scalar< unsigned long > >, "IDList" ) X( std::vector< Pose >, "PoseList" ) X( std::vector< V2 >, "PositionList2" ) X( std::vector< V3 >, "PositionList" ) \
    X( std::vector< ErrorPose >, "ErrorPoseList" ) X( std::vector< ErrorVector< double COMMA 2 > >, "ErrorPositionList2" ) X( std::vector< ErrorVector< double COMMA 3 > >, "ErrorPositionList" )
#define COMMA ,
} // namespace ser
