// C26: hostile inputs. Every routine is run three times on the same degenerate input. Oracles: the sanitizers, a
// watchdog (termination), only std::exception leaves a routine, the inputs are unchanged byte by byte, and the
// memory in use does not grow from call to call. Where too few or mismatching observations are given, failure
// must be reported by the return value or an exception.
#include "um.h"
#include <utMath/CameraIntrinsics.h>
#include <utMath/ErrorPose.h>
#include <utMath/ErrorVector.h>
#include <utMath/Scalar.h>
#include <utMath/Blas1.h>
#include <utMath/Util/RotationCast.h>
#include <utMath/MatrixOperations.h>
#include <utMath/Functors/MatrixFunctors.h>
#include <utMath/Geometry/Conic.h>
#include <utMath/Geometry/ConicCovariance.h>
#include <utMath/Geometry/PointNormalization.h>
#include <utMath/Geometry/PointProjection.h>
#include <utMath/Geometry/PointTransformation.h>
#include <utMath/Geometry/PointUndistortion.h>
#include <utMath/Geometry/QuadricFunctors.h>
#include <utMath/Graph/Munkres.h>
#include <utMath/Optimization/Optimization.h>
#include <utMath/Optimization/Ransac.h>
#include <utMath/Stochastic/Average.h>
#include <utMath/Stochastic/Correlation.h>
#include <utMath/Stochastic/Gaussian.h>
#include <utMath/Stochastic/MahalanobisDistance.h>
#include <utMath/Stochastic/Weighted.h>
#include <utMath/Stochastic/k_means.h>
#include <utMath/Stochastic/expectation_maximization.h>
#include <utAlgorithm/3DPointReconstruction.h>
#include <utAlgorithm/BundleAdjustment.h>
#include <utAlgorithm/CameraLens/Correction.h>
#include <utAlgorithm/Correlation.h>
#include <utAlgorithm/FundamentalMatrix.h>
#include <utAlgorithm/Homography.h>
#include <utAlgorithm/LensDistortion.h>
#include <utAlgorithm/MultipleCameraPoseOptimization.h>
#include <utAlgorithm/OnlineRotHec.h>
#include <utAlgorithm/PoseEstimation2D3D/NonPlanarPoseEstimation.h>
#include <utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.h>
#include <utAlgorithm/PoseEstimation3D3D/AbsoluteOrientation.h>
#include <utAlgorithm/PoseEstimation3D3D/ErrorEstimation.h>
#include <utAlgorithm/PoseEstimation3D3D/CovarianceEstimation.h>
#include <utAlgorithm/PoseEstimation3D3D/Optimization.h>
#include <utAlgorithm/PoseEstimation3D3D/Ransac.h>
#include <utAlgorithm/PoseEstimation6D6D/DataSelection.h>
#include <utAlgorithm/PoseEstimation6D6D/DualQuaternion.h>
#include <utAlgorithm/PoseEstimation6D6D/HandEyeCalibration.h>
#include <utAlgorithm/PoseEstimation6D6D/TsaiLenz.h>
#include <utAlgorithm/Projection.h>
#include <utAlgorithm/RotationHecKalmanFilter.h>
#include <utAlgorithm/ToolTip/Optimization.h>
#include <utAlgorithm/ToolTip/Ransac.h>
#include <utAlgorithm/ToolTip/TipCalibration.h>
#include <utTracking/PoseKalmanFilter.h>
#include <utTracking/RotationOnlyKF.h>
#include <iostream>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using namespace um;
namespace UA = Ubitrack::Algorithm; namespace UP = UA::PoseEstimation2D3D; namespace U3 = UA::PoseEstimation3D3D;
namespace UH = UA::PoseEstimation6D6D; namespace UT = UA::ToolTip; namespace CL = UA::CameraLens;
namespace UO = UM::Optimization; namespace US = UM::Stochastic; namespace UG = UM::Geometry;
namespace UR = Ubitrack::Tracking; namespace UE = Ubitrack::Measurement; namespace ublas = boost::numeric::ublas;
template< class T, std::size_t N > using Ve = UM::Vector< T, N >;
template< class T, std::size_t M, std::size_t N > using Ma = UM::Matrix< T, M, N >;

// ---- bytes of the inputs -------------------------------------------------------------------------------------
static void dig( std::string& s, double v ) { s.append( reinterpret_cast< char* >( &v ), sizeof v ); }
static void dig( std::string& s, float v ) { s.append( reinterpret_cast< char* >( &v ), sizeof v ); }
static void dig( std::string& s, std::size_t v ) { s.append( reinterpret_cast< char* >( &v ), sizeof v ); }
template< class T, std::size_t N > static void dig( std::string& s, const Ve< T, N >& v ) { for ( std::size_t i = 0; i < N; i++ ) dig( s, T( v( i ) ) ); }
template< class T, std::size_t M, std::size_t N > static void dig( std::string& s, const Ma< T, M, N >& m ) { for ( std::size_t i = 0; i < M; i++ ) for ( std::size_t j = 0; j < N; j++ ) dig( s, T( m( i, j ) ) ); }
template< class T > static void dig( std::string& s, const UM::Scalar< T >& v ) { dig( s, T( v ) ); }
static void dig( std::string& s, const UM::Quaternion& q ) { dig( s, q.x() ); dig( s, q.y() ); dig( s, q.z() ); dig( s, q.w() ); }
static void dig( std::string& s, const UM::Pose& p ) { dig( s, p.rotation() ); dig( s, p.translation() ); }
template< class A, class B > static void dig( std::string& s, const std::pair< A, B >& p ) { dig( s, p.first ); dig( s, p.second ); }
template< class T > static void dig( std::string& s, const std::vector< T >& v ) { dig( s, v.size() ); for ( const T& x : v ) dig( s, x ); }
static void digAll( std::string& ) {}
template< class A, class... B > static void digAll( std::string& s, const A& a, const B&... b ) { dig( s, a ); digAll( s, b... ); }

enum Out { RETURNED, THREW };
/// three runs of f; f must be a function of the inputs only
template< class F, class... In > static Out hostile( const std::string& key, const std::string& id, F f, const In&... in )
{
    std::string before, after; digAll( before, in... ); bool threw[ 3 ] = { false, false, false }; std::size_t mem[ 4 ]; bool alien = false;
    {
        vh::Watch w( ( key + ".terminates" ).c_str(), 60 ); mem[ 0 ] = __sanitizer_get_current_allocated_bytes();
        for ( int k = 0; k < 3; k++ )
        {
            try { f(); } catch ( const std::exception& ) { threw[ k ] = true; } catch ( ... ) { threw[ k ] = true; alien = true; }
            mem[ k + 1 ] = __sanitizer_get_current_allocated_bytes();
        }
    }
    digAll( after, in... );
    vh::ok( key + ".errorType", !alien, "something not derived from std::exception was thrown: " + id );
    vh::ok( key + ".inputs", before == after, "an input was changed: " + id );
    vh::ok( key + ".memory", !( mem[ 1 ] < mem[ 2 ] && mem[ 2 ] < mem[ 3 ] ), vh::fmt( "memory in use %zu, %zu, %zu, %zu: ", mem[ 0 ], mem[ 1 ], mem[ 2 ], mem[ 3 ] ) + id );
    vh::event( key + ( threw[ 0 ] ? ".threw" : ".returned" ) );
    return threw[ 0 ] ? THREW : RETURNED;
}

// ---- hostile values ------------------------------------------------------------------------------------------
/// a flavour of badness for one case
struct Kind
{
    int k; double a, b; std::string name;
    explicit Kind( Rng& r ) : k( r.in( 0, 12 ) ), a( r.gauss() ), b( r.gauss() )
    {
        static const char* const n[] = { "generic", "zero", "equal", "few values", "integer", "huge", "overflowing", "tiny", "non-finite", "sprinkled non-finite", "mixed magnitude", "denormal", "unit" };
        name = n[ k ]; vh::event( "values: " + name );
    }
    template< class T > T val( Rng& r ) const
    {
        typedef std::numeric_limits< T > L; bool d = sizeof( T ) == 8;
        switch ( k )
        {
        case 1: return 0;
        case 2: return T( a );
        case 3: return T( r.coin() ? a : b );
        case 4: return T( r.in( -2, 2 ) );
        case 5: return T( r.sgn() * r.logu( d ? 1e80 : 1e10, d ? 1e150 : 1e18 ) );
        case 6: return T( r.sgn() * r.logu( d ? 1e160 : 1e20, d ? 1e308 : 3e38 ) );
        case 7: return T( r.sgn() * r.logu( d ? 1e-200 : 1e-30, 1e-10 ) );
        case 8: return r.in( 0, 2 ) == 0 ? L::quiet_NaN() : T( r.sgn() ) * L::infinity();
        case 9: if ( r.coin( 0.12 ) ) return r.in( 0, 2 ) == 0 ? L::quiet_NaN() : T( r.sgn() ) * L::infinity(); return T( r.gauss() );
        case 10: return T( r.sgn() * r.logu( d ? 1e-100 : 1e-20, d ? 1e100 : 1e20 ) );
        case 11: return T( r.sgn() * r.in( 0, 5 ) ) * L::denorm_min();
        case 12: return T( r.sgn() * r.in( 0, 1 ) );
        default: return T( r.gauss() );
        }
    }
    bool finite() const { return k != 8 && k != 9; }
};
/// 0..12, mostly around the minimum counts
static int len( Rng& r ) { return r.coin( 0.15 ) ? 0 : r.in( 1, 12 ); }
template< class T, std::size_t N > static Ve< T, N > vec( Rng& r, const Kind& k ) { Ve< T, N > v; for ( std::size_t i = 0; i < N; i++ ) v( i ) = k.val< T >( r ); return v; }
/// points: free, duplicates, on a line, in a plane
template< class T, std::size_t N > static std::vector< Ve< T, N > > pts( Rng& r, const Kind& k, int n )
{
    std::vector< Ve< T, N > > v; Ve< T, N > o = vec< T, N >( r, k ), d = vec< T, N >( r, k ), e = vec< T, N >( r, k ); int shape = r.in( 0, 5 );
    for ( int i = 0; i < n; i++ )
    {
        Ve< T, N > x = vec< T, N >( r, k ); T s = T( r.in( -3, 3 ) ), t = T( r.in( -2, 2 ) );
        if ( shape == 1 ) x = o; else if ( shape == 2 ) for ( std::size_t j = 0; j < N; j++ ) x( j ) = o( j ) + s * d( j ); else if ( shape == 3 ) for ( std::size_t j = 0; j < N; j++ ) x( j ) = o( j ) + s * d( j ) + t * e( j ); else if ( shape == 4 && i && r.coin() ) x = v[ r.in( 0, i - 1 ) ];
        v.push_back( x );
    }
    static const char* const n6[] = { "points: free", "points: equal", "points: collinear", "points: coplanar", "points: duplicates", "points: free" }; vh::event( n6[ shape ] );
    return v;
}
template< class T, std::size_t M, std::size_t N > static Ma< T, M, N > mat( Rng& r, const Kind& k )
{
    Ma< T, M, N > m; int c = r.in( 0, 3 ); for ( std::size_t i = 0; i < M; i++ ) for ( std::size_t j = 0; j < N; j++ ) m( i, j ) = c == 1 && i != j ? T( 0 ) : k.val< T >( r );
    if ( c == 2 ) for ( std::size_t j = 0; j < N; j++ ) m( M - 1, j ) = m( 0, j );
    return m;
}
/// camera matrix, sane in half of the cases
template< class T > static Ma< T, 3, 3 > cam( Rng& r, const Kind& k )
{
    if ( r.coin() ) return mat< T, 3, 3 >( r, k );
    Ma< T, 3, 3 > m; for ( int i = 0; i < 3; i++ ) for ( int j = 0; j < 3; j++ ) m( i, j ) = 0; m( 0, 0 ) = m( 1, 1 ) = T( r.uni( 1, 800 ) ); m( 0, 2 ) = m( 1, 2 ) = T( r.uni( -300, 300 ) ); m( 2, 2 ) = T( r.sgn() ); return m;
}
static UM::Quaternion quat( Rng& r, const Kind& k ) { if ( r.coin( 0.4 ) ) return genQuat( r ); if ( r.coin( 0.15 ) ) return UM::Quaternion( 0, 0, 0, 0 ); return UM::Quaternion( k.val< double >( r ), k.val< double >( r ), k.val< double >( r ), k.val< double >( r ) ); }
static UM::Pose pose( Rng& r, const Kind& k ) { return UM::Pose( quat( r, k ), vec< double, 3 >( r, k ) ); }
static std::vector< UM::Pose > poses( Rng& r, const Kind& k, int n )
{
    std::vector< UM::Pose > v; int shape = r.in( 0, 3 ); UM::Pose o = pose( r, k ); UM::Quaternion q = quat( r, k );
    for ( int i = 0; i < n; i++ ) v.push_back( shape == 1 ? o : shape == 2 ? UM::Pose( q, vec< double, 3 >( r, k ) ) : pose( r, k ) );
    return v;
}
template< class T > static std::vector< T > scal( Rng& r, const Kind& k, int n ) { std::vector< T > v; for ( int i = 0; i < n; i++ ) v.push_back( k.val< T >( r ) ); return v; }
static std::string about( const std::string& key, const Kind& k, int a, int b = -1, int c = -1 ) { std::string s = key + ": " + k.name + vh::fmt( " values, %d", a ); if ( b >= 0 ) s += vh::fmt( "/%d", b ); if ( c >= 0 ) s += vh::fmt( "/%d", c ); vh::sample( s ); return s; }
/// the length of the other list: equal in four of five cases
static int other( Rng& r, int n ) { return r.coin( 0.8 ) ? n : len( r ); }
static void reported( const std::string& key, bool should, bool did, const std::string& id ) { if ( should ) vh::ok( key + ".reported", did, "too few or mismatching observations accepted: " + id ); }

template< class T > static void homographies( Rng& r, const std::string& ty )
{
    Kind k( r ); int n = len( r ), m = other( r, n ); auto a = pts< T, 2 >( r, k, n ), b = pts< T, 2 >( r, k, m ); std::string id = about( "homography" + ty, k, n, m );
    Out o = hostile( "homography" + ty, id, [&]() { UA::homographyDLT( a, b ); }, a, b ); reported( "homography" + ty, n < 4 || n != m, o == THREW, id );
    o = hostile( "square" + ty, id, [&]() { UA::squareHomography( a ); }, a ); reported( "square" + ty, n != 4, o == THREW, id );
    Ma< T, 3, 3 > H = r.coin( 0.3 ) ? mat< T, 3, 3 >( r, k ) : cam< T >( r, k ), K = cam< T >( r, k ); hostile( "poseFromHomography" + ty, id, [&]() { UP::poseFromHomography( H, K ); }, H, K );
}
SECTION( "homography.double", 1500, 60000 ) { homographies< double >( r, "" ); }
SECTION( "homography.float", 800, 30000 ) { homographies< float >( r, ".float" ); }

template< class T > static void projections( Rng& r, const std::string& ty )
{
    Kind k( r ); int n = len( r ), m = other( r, n ); auto a = pts< T, 3 >( r, k, n ); auto b = pts< T, 2 >( r, k, m ); std::string id = about( "projection" + ty, k, n, m );
    Out o = hostile( "projection" + ty, id, [&]() { UA::projectionDLT( a, b ); }, a, b ); reported( "projection" + ty, n < 6 || n != m, o == THREW, id );
    auto P = mat< T, 3, 4 >( r, k ); hostile( "decompose" + ty, id, [&]() { Ma< T, 3, 3 > K, R; Ve< T, 3 > t; UA::decomposeProjection( K, R, t, P ); }, P );
    T v[ 6 ]; for ( T& x : v ) x = k.val< T >( r ); auto C = mat< T, 3, 3 >( r, k ); hostile( "openGL" + ty, id, [&]() { UA::projectionMatrixToOpenGL( v[ 0 ], v[ 1 ], v[ 2 ], v[ 3 ], v[ 4 ], v[ 5 ], P ); UA::projectionMatrixToOpenGL( v[ 0 ], v[ 1 ], v[ 2 ], v[ 3 ], v[ 4 ], v[ 5 ], C ); }, P, C );
    int org = r.in( -3, 5 ), h = r.pick( std::vector< int >{ 0, 1, -1, 480, 2147483647, -2147483647 } ); hostile( "origin" + ty, id, [&]() { Ma< T, 3, 3 > Q( C ); UA::correctOrigin( Q, org, h ); }, C );
    V3 e = vec< double, 3 >( r, k ), l = vec< double, 3 >( r, k ), u = vec< double, 3 >( r, k ), w = vec< double, 3 >( r, k ); double d[ 4 ]; for ( double& x : d ) x = k.val< double >( r ); hostile( "offAxis", id, [&]() { UA::offAxisProjectionMatrix( e, l, u, w, d[ 0 ], d[ 1 ], d[ 2 ], d[ 3 ] ); }, e, l, u, w );
}
SECTION( "projection.double", 1200, 50000 ) { projections< double >( r, "" ); }
SECTION( "projection.float", 700, 25000 ) { projections< float >( r, ".float" ); }

template< class T > static void epipolar( Rng& r, const std::string& ty )
{
    Kind k( r ); int n = r.coin() ? len( r ) : r.in( 6, 20 ), m = other( r, n ); auto a = pts< T, 2 >( r, k, n ), b = pts< T, 2 >( r, k, m ); std::size_t step = r.coin( 0.7 ) ? 1 : r.pick( std::vector< std::size_t >{ 0, 1, 2, 3, 7, 100, std::size_t( -1 ), std::size_t( -1 ) / 2 } ); std::string id = about( "fundamental" + ty, k, n, m ) + vh::fmt( ", step %zu", step );
    Out o = hostile( "fundamental" + ty, id, [&]() { UA::getFundamentalMatrix( a, b, step ); }, a, b ); reported( "fundamental" + ty, n < 8 || n != m || step == 0 || step > std::size_t( n ), o == THREW, id );
    Ma< T, 3, 3 > F = mat< T, 3, 3 >( r, k ); Ve< T, 2 > x = vec< T, 2 >( r, k ), y = vec< T, 2 >( r, k ); Ve< T, 3 > x3 = vec< T, 3 >( r, k ), y3 = vec< T, 3 >( r, k ); hostile( "pointDistance" + ty, id, [&]() { UA::pointToPointDist( x, y, F ); UA::pointToPointDist( x3, y3, F ); }, x, y, x3, y3, F );
    Ma< T, 3, 4 > P = mat< T, 3, 4 >( r, k ), Q = mat< T, 3, 4 >( r, k ); hostile( "triangulate" + ty, id, [&]() { UA::get3DPosition( P, Q, x, y ); }, P, Q, x, y );
    int c = r.in( 0, 6 ), d = other( r, c ); std::vector< Ma< T, 3, 4 > > Ps; for ( int i = 0; i < c; i++ ) Ps.push_back( i && r.coin( 0.3 ) ? Ps[ 0 ] : mat< T, 3, 4 >( r, k ) ); auto q = pts< T, 2 >( r, k, d ); std::size_t flag = r.pick( std::vector< std::size_t >{ 0, 1, 2, 3, std::size_t( -1 ) } );
    o = hostile( "triangulateMany" + ty, id + vh::fmt( " %d cameras %d points flag %zu", c, d, flag ), [&]() { UA::get3DPosition( Ps, q, flag ); }, Ps, q ); reported( "triangulateMany" + ty, c < 2 || c != d, o == THREW, id + vh::fmt( " %d cameras %d points flag %zu", c, d, flag ) );
    int e = len( r ), f = other( r, e ); if ( e > 6 ) e = f = 6; auto s = pts< T, 2 >( r, k, e ), t = pts< T, 2 >( r, k, f ); o = hostile( "reconstruct" + ty, id + vh::fmt( " %d/%d", e, f ), [&]() { UA::reconstruct3DPoints( s, t, P, Q, F ); }, s, t, P, Q, F );
}
SECTION( "epipolar.double", 1200, 50000 ) { epipolar< double >( r, "" ); }
SECTION( "epipolar.float", 700, 25000 ) { epipolar< float >( r, ".float" ); }
SECTION( "epipolar.poses", 1200, 50000 )
{
    Kind k( r ); UM::Pose a = pose( r, k ), b = r.coin( 0.2 ) ? a : pose( r, k ); M33 K = cam< double >( r, k ), L = cam< double >( r, k ), F = mat< double, 3, 3 >( r, k ); V2 x = vec< double, 2 >( r, k ), y = vec< double, 2 >( r, k ); std::string id = about( "motion", k, 1 );
    hostile( "fundamentalFromPoses", id, [&]() { UA::fundamentalMatrixFromPoses( a, b, K, L ); }, a, b, K, L );
    hostile( "poseFromFundamental", id, [&]() { UA::poseFromFundamentalMatrix( F, x, y, K, L ); }, F, x, y, K, L );
    int c = r.in( 0, 6 ), d = other( r, c ); std::vector< M34 > Ps; for ( int i = 0; i < c; i++ ) Ps.push_back( mat< double, 3, 4 >( r, k ) ); auto q = pts< double, 2 >( r, k, d ); std::size_t flag = r.in( 0, 2 ); Out o = hostile( "residual", id, [&]() { double res = 0; UA::get3DPositionWithResidual( Ps, q, flag, r.coin() ? &res : 0 ); }, Ps, q ); reported( "residual", c < 2 || c != d, o == THREW, id );
}

template< class T > static void bundle( Rng& r, const std::string& ty )
{
    Kind k( r ); int c = r.in( 0, 4 ), n = r.in( 0, 6 ), cc = r.coin( 0.85 ) ? c : r.in( 0, 4 ); std::vector< std::vector< Ve< T, 2 > > > y; for ( int i = 0; i < cc; i++ ) y.push_back( pts< T, 2 >( r, k, r.coin( 0.9 ) ? n : r.in( 0, 6 ) ) ); auto p = poses( r, k, c ); auto x = pts< T, 3 >( r, k, n ); std::string id = about( "bundle" + ty, k, c, cc, n ); bool bad = c != cc; for ( auto& v : y ) bad |= int( v.size() ) != n;
    Out o = hostile( "bundle" + ty, id, [&]() { auto q = p; auto z = x; UA::simpleBundleAdjustment( y, q, z ); }, y, p, x ); reported( "bundle" + ty, bad, o == THREW, id );
}
SECTION( "bundle.double", 600, 20000 ) { bundle< double >( r, "" ); }
SECTION( "bundle.float", 400, 10000 ) { bundle< float >( r, ".float" ); }
SECTION( "multicamera", 1000, 40000 )
{
    Kind k( r ); int n = r.in( 0, 12 ), c = r.in( 0, 4 ); auto p = pts< double, 3 >( r, k, n ); std::vector< std::vector< V2 > > y; std::vector< std::vector< UM::Scalar< double > > > w; auto cams = poses( r, k, r.coin( 0.92 ) ? c : r.in( 0, 4 ) ); std::vector< M33 > K; int kc = r.coin( 0.92 ) ? c : r.in( 0, 4 ), wc = r.coin( 0.92 ) ? c : r.in( 0, 4 ); bool bad = int( cams.size() ) != c || kc != c || wc != c || n == 0 || c == 0;
    for ( int i = 0; i < c; i++ ) { y.push_back( pts< double, 2 >( r, k, r.coin( 0.95 ) ? n : r.in( 0, 12 ) ) ); bad |= int( y.back().size() ) != n; } for ( int i = 0; i < wc; i++ ) { w.push_back( {} ); int q = r.coin( 0.95 ) ? n : r.in( 0, 12 ); for ( int j = 0; j < q; j++ ) w.back().push_back( UM::Scalar< double >( r.coin( 0.8 ) ? r.in( 0, 1 ) : k.val< double >( r ) ) ); bad |= q != n; } for ( int i = 0; i < kc; i++ ) K.push_back( cam< double >( r, k ) );
    int minC = r.pick( std::vector< int >{ -1, 0, 1, 4, 6, 13, 2147483647 } ); UM::Pose start = pose( r, k ); bool hs = r.coin(); std::string id = about( "multicamera", k, n, c ) + vh::fmt( " minimum %d start %d", minC, hs );
    Out o = hostile( "multicamera", id, [&]() { UM::ErrorPose g; UM::Scalar< double > wt( 0 ); UA::multipleCameraPoseEstimation( p, y, w, cams, K, minC, g, wt, hs, start ); }, p, y, w, cams, K, start ); reported( "multicamera", bad && n, o == THREW, id );
    o = hostile( "localBundles", id, [&]() { std::vector< UM::ErrorPose > ps; std::vector< UM::Scalar< double > > ws; std::vector< UM::Scalar< int > > bs; UA::multipleCameraPoseEstimationWithLocalBundles( p, y, w, cams, K, minC, ps, ws, bs ); }, p, y, w, cams, K );
}

template< class T > static void lens( Rng& r, const std::string& ty )
{
    Kind k( r ); Ve< T, 3 > p3 = vec< T, 3 >( r, k ); Ve< T, 2 > p = vec< T, 2 >( r, k ); Ve< T, 4 > d = r.coin() ? vec< T, 4 >( r, k ) : Ve< T, 4 >( T( 0.1 ), T( -0.1 ), T( 0.01 ), T( 0.01 ) ); Ma< T, 3, 3 > K = cam< T >( r, k ); int n = len( r ); std::string id = about( "lens" + ty, k, n );
    hostile( "lens" + ty, id, [&]() { UA::projectWithDistortion( p3, d, K ); UA::lensDistort( p, d, K ); }, p3, p, d, K ); hostile( "unlens" + ty, id, [&]() { UA::lensUnDistort( p, d, K ); }, p, d, K );
    Ve< T, 2 > t = vec< T, 2 >( r, k ), k2 = vec< T, 2 >( r, k ); Ve< T, 6 > k6 = vec< T, 6 >( r, k ); UM::CameraIntrinsics< T > ci = r.coin( 0.3 ) ? UM::CameraIntrinsics< T >( K, k2, t ) : UM::CameraIntrinsics< T >( K, k6, t ); auto v = pts< T, 2 >( r, k, n ); std::size_t stale = r.in( 0, 15 );
    hostile( "distortList" + ty, id, [&]() { std::vector< Ve< T, 2 > > o( stale ); CL::distort( ci, v, o ); Ve< T, 2 > q; CL::distort( ci, p, q ); vh::ok( "distortList" + ty + ".size", o.size() == v.size(), id ); }, v, p );
    hostile( "undistortList" + ty, id, [&]() { std::vector< Ve< T, 2 > > o( stale ); CL::undistort( ci, v, o ); Ve< T, 2 > q; CL::undistort( ci, p, q ); vh::ok( "undistortList" + ty + ".size", o.size() == v.size(), id ); std::vector< Ve< T, 2 > > u; UG::undistort_points( ci, v.begin(), v.end(), std::back_inserter( u ) ); }, v, p );
}
SECTION( "lens.double", 600, 20000 ) { lens< double >( r, "" ); }
SECTION( "lens.float", 500, 15000 ) { lens< float >( r, ".float" ); }

template< class T > static void planar( Rng& r, const std::string& ty )
{
    Kind k( r ); int n = len( r ), m = other( r, n ); auto a = pts< T, 2 >( r, k, n ); auto b = pts< T, 3 >( r, k, m ); UM::Pose p = pose( r, k ); Ma< T, 3, 3 > K = cam< T >( r, k ); std::size_t its = r.pick( std::vector< std::size_t >{ 0, 1, 6, 20, 100 } ); std::string id = about( "pose" + ty, k, n, m ) + vh::fmt( ", %zu iterations", its ); Out o;
    bool done = true; o = hostile( "nonplanar" + ty, id, [&]() { UM::Pose q( p ); std::size_t it = its; T err = T( 1e-6 ); done = UP::estimatePose6D_2D3D( a, q, b, it, err ); }, a, b ); reported( "nonplanar" + ty, n < 3 || n != m, o == THREW || !done, id );
    o = hostile( "optimizePose" + ty, id, [&]() { UM::Pose q( p ); UP::optimizePose( q, a, b, K, its ); }, a, b, K ); reported( "optimizePose" + ty, n != m, o == THREW, id );
    T err = k.val< T >( r ); hostile( "poseError" + ty, id, [&]() { UP::singleCameraPoseError( p, b, K, err ); }, b, K, p );
    int c = r.in( 0, 4 ); std::vector< Ma< T, 3, 4 > > cs; for ( int i = 0; i < c; i++ ) cs.push_back( mat< T, 3, 4 >( r, k ) ); std::vector< std::pair< std::size_t, std::size_t > > obs; bool out = false; if ( c && m ) for ( int i = r.in( 0, 15 ); i > 0; i-- ) obs.push_back( std::make_pair( std::size_t( r.in( 0, m - 1 ) ), std::size_t( r.in( 0, c - 1 ) ) ) ); if ( r.coin( 0.1 ) ) { obs.push_back( r.coin() ? std::make_pair( std::size_t( m + r.in( 0, 3 ) ), std::size_t( 0 ) ) : std::make_pair( std::size_t( 0 ), std::size_t( c + r.in( 0, 3 ) ) ) ); out = true; }
    o = hostile( "multiPoseError" + ty, id, [&]() { UP::multipleCameraPoseError( p, b, cs, obs, err ); }, p, b, cs, obs ); reported( "multiPoseError" + ty, out, o == THREW, id );
}
SECTION( "pose2d3d.double", 1000, 40000 ) { planar< double >( r, "" ); }
SECTION( "pose2d3d.float", 700, 25000 ) { planar< float >( r, ".float" ); }
SECTION( "computePose", 1000, 40000 )
{
    Kind k( r ); int n = len( r ), m = other( r, n ); auto a = pts< double, 2 >( r, k, n ); auto b = pts< double, 3 >( r, k, m ); if ( r.coin() ) for ( auto& v : b ) v( 2 ) = 0; M33 K = cam< double >( r, k ); auto im = r.coin() ? UP::PLANAR_HOMOGRAPHY : UP::NONPLANAR_PROJECTION; bool opt = r.coin(), form = r.coin(); std::string id = about( "computePose", k, n, m ) + vh::fmt( " method %d optimise %d", int( im ), opt );
    Out o = hostile( "computePose", id, [&]() { double res = 0; if ( form ) UP::computePose( a, b, K, res, opt, im ); else UP::computePose( a, b, K, opt, im ); }, a, b, K ); reported( "computePose", n != m || n < 4, o == THREW, id );
}

template< class T > static void pose3d( Rng& r, const std::string& ty )
{
    typedef Ve< T, 3 > P; Kind k( r ); int n = len( r ), m = other( r, n ); auto a = pts< T, 3 >( r, k, n ), b = pts< T, 3 >( r, k, m ); if ( r.coin( 0.2 ) && n == m ) b = a; std::string id = about( "pose3d" + ty, k, n, m ); bool bad = n < 3 || n != m, done = true; Out o; UM::Pose start = pose( r, k );
    o = hostile( "pose3d" + ty, id, [&]() { UM::Pose p( start ); done = U3::estimatePose6D_3D3D( a, p, b ); }, a, b ); reported( "pose3d" + ty, bad, o == THREW || !done, id );
    UO::OptTerminate crit( r.in( 1, 12 ), r.coin() ? 0 : 1e-6 ); o = hostile( "pose3dOptimised" + ty, id, [&]() { UM::Pose p( start ); done = U3::estimatePose6D_3D3D( a, p, b, crit ); }, a, b ); reported( "pose3dOptimised" + ty, bad, o == THREW || !done, id );
    o = hostile( "pose3dRobust" + ty, id, [&]() { UO::RansacParameter< T > par( T( 0.1 ), 3, std::size_t( n ), T( 0.4 ) ); UM::Pose p( start ); done = U3::estimatePose6D_3D3D( a, p, b, par ); }, a, b ); reported( "pose3dRobust" + ty, bad, o == THREW || !done, id );
    o = hostile( "rotation3d" + ty, id, [&]() { Ma< T, 3, 3 > M; UM::Quaternion q; bool d1 = U3::estimateRotation_3D3D( a, M, b ), d2 = U3::estimateRotation_3D3D( a, q, b ); done = d1 || d2; }, a, b ); reported( "rotation3d" + ty, bad, o == THREW || !done, id );
    T sc = 1; o = hostile( "scale3d" + ty, id, [&]() { sc = U3::estimateScale_3D3D( a, b ); }, a, b );
    o = hostile( "covariance3d" + ty, id, [&]() { Ma< T, 6, 6 > C; done = U3::estimatePose6DCovariance( a.begin(), a.end(), start, b.begin(), b.end(), C ); }, a, b, start ); reported( "covariance3d" + ty, bad, o == THREW || !done, id );
    if ( n == m ) hostile( "residual3d" + ty, id, [&]() { U3::estimatePose6DResidual< T >( a.begin(), a.end(), start, b.begin(), b.end() ); }, a, b, start );
}
SECTION( "pose3d3d.double", 1200, 40000 ) { pose3d< double >( r, "" ); }
SECTION( "pose3d3d.float", 800, 25000 ) { pose3d< float >( r, ".float" ); }
SECTION( "absoluteOrientation", 1500, 50000 )
{
    Kind k( r ); int n = len( r ), m = other( r, n ); auto a = pts< double, 3 >( r, k, n ), b = pts< double, 3 >( r, k, m ); std::string id = about( "absoluteOrientation", k, n, m ); Out o = hostile( "absoluteOrientation", id, [&]() { U3::calculateAbsoluteOrientation( a, b ); }, a, b ); reported( "absoluteOrientation", n < 3 || n != m, o == THREW, id );
}

template< class T > static std::vector< Ma< T, 4, 4 > > mats( Rng& r, const Kind& k, const std::vector< UM::Pose >& p ) { std::vector< Ma< T, 4, 4 > > v; for ( auto& x : p ) { Ma< T, 4, 4 > m; if ( r.coin( 0.1 ) ) m = mat< T, 4, 4 >( r, k ); else { R3 R = refMatrix( x.rotation() ); for ( int i = 0; i < 4; i++ ) for ( int j = 0; j < 4; j++ ) m( i, j ) = T( i == 3 ? j == 3 : j == 3 ? x.translation()( i ) : R.m[ i ][ j ] ); } v.push_back( m ); } return v; }
SECTION( "handEye", 1500, 50000 )
{
    Kind k( r ); int n = r.in( 0, 9 ), m = other( r, n ); auto a = poses( r, k, n ), b = poses( r, k, m ); bool all = r.coin(), done = true; std::string id = about( "handEye", k, n, m ); Out o; bool bad = n != m || n < 3;
    o = hostile( "tsai", id, [&]() { UH::performHandEyeCalibration( a, b, all ); }, a, b ); reported( "tsai", bad, o == THREW, id );
    auto ad = mats< double >( r, k, a ), bd = mats< double >( r, k, b ); o = hostile( "tsaiMatrices", id, [&]() { UH::performHandEyeCalibration( ad, bd, all ); }, ad, bd ); reported( "tsaiMatrices", bad, o == THREW, id );
    auto af = mats< float >( r, k, a ), bf = mats< float >( r, k, b ); o = hostile( "tsaiFloat", id, [&]() { UH::performHandEyeCalibration( af, bf, all ); }, af, bf ); reported( "tsaiFloat", bad, o == THREW, id );
    o = hostile( "dualQuaternion", id, [&]() { UM::Pose p; done = UH::estimatePose6D_6D6D( a, p, b ); }, a, b ); reported( "dualQuaternion", bad, o == THREW || !done, id );
    std::vector< Ve< double, 8 > > ra = pts< double, 8 >( r, k, n ), rb = pts< double, 8 >( r, k, m ); o = hostile( "dualQuaternionRelative", id, [&]() { UM::Pose p; done = UH::estimatePose6D_6D6D( ra, p, rb ); }, ra, rb ); reported( "dualQuaternionRelative", n != m || n < 2, o == THREW || !done, id );
    std::size_t want = r.pick( std::vector< std::size_t >{ 0, 1, 2, 3, std::size_t( n ), std::size_t( n ) + 5, 1000 } ); o = hostile( "select", id + vh::fmt( " select %zu", want ), [&]() { std::vector< UM::Pose > x, y; UH::select_6DPoses( a, b, want, x, y ); }, a, b );
    bool dir = r.coin(); hostile( "relative", id, [&]() { std::vector< Ve< double, 8 > > x; UH::generate_relative_6DPoses( a, x, dir ); }, a );
    o = hostile( "incremental", id, [&]() { UH::HandEyeCalibration< double > c; UM::Pose p; std::vector< UM::Pose > x( a.begin(), a.begin() + n / 2 ), y( b.begin(), b.begin() + std::min( n / 2, m ) ); c.estimatePose6D( x, p, y ); done = c.estimatePose6D( a, p, b ); if ( n > 3 && n == m ) c.estimatePose6D( x, p, y ); }, a, b ); reported( "incremental", bad, o == THREW || !done, id );
}
template< class T > static void tips( Rng& r, const std::string& ty )
{
    Kind k( r ); int n = len( r ); auto p = poses( r, k, n ); std::string id = about( "tip" + ty, k, n ); bool done = true; typedef Ve< T, 3 > P; P s = vec< T, 3 >( r, k ), t = vec< T, 3 >( r, k ); Out o;
    o = hostile( "tip" + ty, id, [&]() { P w( s ), m( t ); done = UT::estimatePosition3D_6D( w, p, m ); }, p ); reported( "tip" + ty, n < 3, o == THREW || !done, id );
    UO::OptTerminate crit( r.in( 1, 12 ), r.coin() ? 0 : 1e-6 ); o = hostile( "tipOptimised" + ty, id, [&]() { P w( s ), m( t ); done = UT::estimatePosition3D_6D( w, p, m, crit ); }, p ); reported( "tipOptimised" + ty, n < 3, o == THREW || !done, id );
    o = hostile( "tipRobust" + ty, id, [&]() { UO::RansacParameter< T > par( T( 0.1 ), 3, std::size_t( n ), T( 0.4 ) ); P w( s ), m( t ); done = UT::estimatePosition3D_6D( w, p, m, par ); }, p ); reported( "tipRobust" + ty, n < 3, o == THREW || !done, id );
    hostile( "tipError" + ty, id, [&]() { UT::estimatePosition3DError_6D( s, p, t ); }, s, p, t );
}
SECTION( "tip.double", 1000, 40000 ) { tips< double >( r, "" ); }
SECTION( "tip.float", 700, 20000 ) { tips< float >( r, ".float" ); }
SECTION( "tip.calibration", 1000, 40000 ) { Kind k( r ); int n = len( r ); auto p = poses( r, k, n ); std::string id = about( "tipCalibration", k, n ); Out o = hostile( "tipCalibration", id, [&]() { V3 m, w; UT::tipCalibration( p, m, w ); }, p ); reported( "tipCalibration", n < 3, o == THREW, id ); }
SECTION( "online", 1000, 30000 )
{
    Kind k( r ); int n = len( r ); auto a = poses( r, k, n ), b = poses( r, k, n ); std::string id = about( "online", k, n );
    hostile( "onlineRotation", id, [&]() { UA::OnlineRotHec h; for ( int i = 0; i < n; i++ ) { h.addMeasurement( a[ i ].rotation(), b[ i ].rotation() ); h.computeResult(); } h.computeResult(); }, a, b );
    hostile( "rotationFilter", id, [&]() { UA::RotationHecKalmanFilter h; for ( int i = 0; i < n; i++ ) { h.addMeasurement( a[ i ].rotation(), b[ i ].rotation() ); h.getResult(); } h.getCovariance(); }, a, b );
}

// ---- statistics ----------------------------------------------------------------------------------------------
struct Quiet { std::streambuf* o; std::ostringstream s; Quiet() : o( std::cout.rdbuf( s.rdbuf() ) ) {} ~Quiet() { std::cout.rdbuf( o ); } };
template< class T, std::size_t N > static void stats( Rng& r, const std::string& ty )
{
    typedef Ve< T, N > P; Quiet q; Kind k( r ); int n = r.coin( 0.2 ) ? r.in( 13, 30 ) : len( r ); auto v = pts< T, N >( r, k, n ); std::string id = about( "statistics" + ty, k, n ); std::size_t kc = r.pick( std::vector< std::size_t >{ 0, 1, 2, 3, 5, 12, 40 } ); id += vh::fmt( ", %zu clusters", kc );
    hostile( "average" + ty, id, [&]() { US::Average< P > a; US::Average< UM::ErrorVector< T, N > > e; US::Average< T > s; for ( auto& x : v ) { a( x ); e( x ); s( x( 0 ) ); } a.getAverage(); e.getAverage(); s.getAverage(); }, v );
    hostile( "gaussian" + ty, id, [&]() { US::Gaussian< T, N > g; US::reset( g ); bool d = US::estimate_gaussian( v.begin(), v.end(), g ); vh::ok( "gaussian" + ty + ".reported", d || n < 3 || !k.finite() || k.k == 6, id ); vh::ok( "gaussian" + ty + ".reported", !d || n > 0, id ); US::MahalanobisDistance< US::Gaussian< T, N > > md( g ); for ( auto& x : v ) md( x ); }, v );
    auto w = scal< T >( r, k, n ); if ( r.coin() ) for ( T& x : w ) x = 0; hostile( "weighted" + ty, id, [&]() { US::Gaussian< T, N > g; US::reset( g ); US::estimate_gaussian( v.begin(), v.end(), w.begin(), g ); }, v, w );
    std::vector< std::size_t > ix; for ( int i = 0; i < n; i++ ) ix.push_back( r.in( 0, 2 ) ); std::size_t sel = r.in( 0, 3 ); hostile( "indexed" + ty, id, [&]() { US::Gaussian< T, N > g; US::reset( g ); US::estimate_gaussian_index( v.begin(), v.end(), ix.begin(), sel, g ); }, v, ix );
    hostile( "greedy" + ty, id, [&]() { std::vector< P > o; US::copy_greedy( v.begin(), v.end(), kc, std::back_inserter( o ) ); vh::ok( "greedy" + ty + ".count", o.size() <= std::size_t( n ), id ); }, v );
    hostile( "spread" + ty, id, [&]() { std::vector< P > o; std::size_t c = US::copy_probability( v.begin(), v.end(), kc, std::back_inserter( o ), UM::Distance< P >() ); vh::ok( "spread" + ty + ".count", c <= kc || ( kc == 0 && c <= 1 ), id ); }, v );
    hostile( "kmeans" + ty, id, [&]() { std::vector< P > m; std::vector< std::size_t > i; US::k_means( v.begin(), v.end(), kc, std::back_inserter( m ), std::back_inserter( i ) ); vh::ok( "kmeans" + ty + ".indices", i.size() == ( kc ? std::size_t( n ) : 0 ), id ); }, v );
    auto st = pts< T, N >( r, k, r.in( 1, 4 ) ); hostile( "kmeansStart" + ty, id, [&]() { std::vector< P > m( st ); std::vector< std::size_t > i; US::k_means( v.begin(), v.end(), m.begin(), m.end(), std::back_inserter( i ), UM::SquaredDistance< P >() ); bool in = true; for ( std::size_t x : i ) in &= x < m.size(); vh::ok( "kmeansStart" + ty + ".range", in, id ); }, v, st );
}
SECTION( "statistics", 1200, 50000 ) { switch ( r.in( 0, 3 ) ) { case 0: stats< double, 2 >( r, "" ); break; case 1: stats< double, 3 >( r, "" ); break; case 2: stats< float, 2 >( r, ".float" ); break; default: stats< float, 3 >( r, ".float" ); } }
SECTION( "mixture", 400, 15000 )
{
    typedef Ve< double, 2 > P; typedef US::Gaussian< double, 2 > G; Quiet q; Kind k( r ); int n = r.in( 0, 20 ), c = r.in( 0, 4 ); auto v = pts< double, 2 >( r, k, n ); auto m = pts< double, 2 >( r, k, c ); auto C = mat< double, 2, 2 >( r, k ); if ( r.coin() ) { C( 0, 0 ) = C( 1, 1 ) = 1; C( 0, 1 ) = C( 1, 0 ) = 0; } std::string id = about( "mixture", k, n, c );
    hostile( "mixture", id, [&]() { std::vector< US::Weighted< G, double > > g( c ); for ( int i = 0; i < c; i++ ) { US::reset( static_cast< G& >( g[ i ] ) ); for ( int a = 0; a < 2; a++ ) { g[ i ].mean[ a ] = m[ i ]( a ); for ( int b = 0; b < 2; b++ ) g[ i ].covariance[ a * 2 + b ] = C( a, b ); } g[ i ].weight = 1.0 / c; } US::expectation_maximization( v.begin(), v.end(), g.begin(), g.end() ); US::log_likelihood< double >( g.begin(), g.end(), v.begin(), v.end() ); }, v, m, C );
}
SECTION( "averages.pose", 1000, 30000 )
{
    Kind k( r ); int n = len( r ); auto p = poses( r, k, n ); std::string id = about( "averages", k, n );
    hostile( "averagePose", id, [&]() { US::Average< UM::Pose > a; US::Average< UM::Quaternion > q; US::Average< UM::ErrorPose > e; for ( auto& x : p ) { a( x ); q( x.rotation() ); e( UM::ErrorPose( x, UM::Matrix< double, 6, 6 >::identity() ) ); } a.getAverage(); q.getAverage(); e.getAverage(); }, p );
}
SECTION( "correlation", 1500, 40000 )
{
    Kind k( r ); int n = len( r ), m = r.coin( 0.6 ) ? n : len( r ); auto a = scal< double >( r, k, n ), b = scal< double >( r, k, m ); auto c = scal< float >( r, k, n ), d = scal< float >( r, k, m ); std::string id = about( "correlation", k, n, m );
    hostile( "computeCorrelation", id, [&]() { UA::computeCorrelation( a, b ); }, a, b ); hostile( "correlation", id, [&]() { US::correlation( a.begin(), a.end(), b.begin(), b.end() ); US::correlation( c.begin(), c.end(), d.begin(), d.end() ); }, a, b, c, d );
}
template< class T > static void assignment( Rng& r, const std::string& ty )
{
    Kind k( r ); while ( !k.finite() || k.k == 6 ) k = Kind( r ); int n = r.coin( 0.1 ) ? 0 : r.in( 1, 9 ), m = r.coin( 0.1 ) ? 0 : r.in( 1, 9 ); UM::Matrix< T, 0, 0 > c( n, m ); for ( int i = 0; i < n; i++ ) for ( int j = 0; j < m; j++ ) c( i, j ) = k.val< T >( r ); std::string id = about( "assignment" + ty, k, n, m );
    hostile( "assignment" + ty, id, [&]() { UM::Matrix< T, 0, 0 > x( c ); UM::Graph::Munkres< T > s( x ); s.solve(); s.getRowMatchList(); s.getColMatchList(); } );
}
SECTION( "assignment", 1000, 40000 ) { if ( r.coin() ) assignment< double >( r, "" ); else assignment< float >( r, ".float" ); }

// ---- geometry ------------------------------------------------------------------------------------------------
template< class T > static void geometry( Rng& r, const std::string& ty )
{
    Kind k( r ); Ve< T, 6 > c = vec< T, 6 >( r, k ); if ( r.coin( 0.3 ) ) for ( int i = 0; i < 6; i++ ) if ( r.coin() ) c( i ) = 0; Ve< T, 2 > x = vec< T, 2 >( r, k ); T y = k.val< T >( r ); std::string id = about( "geometry" + ty, k, 1 );
#define H( NAME, EXPR ) hostile( NAME + ty, id, [&]() { (void)( EXPR ); }, c, x )
    H( "conic.matrix", UG::MatrixFromConic< T >()( c ) ); H( "conic.inverse", UG::ConicInverse< T >()( c ) ); H( "conic.determinant", UG::ConicDeterminant< T >()( c ) ); H( "conic.angle", UG::ConicAngle< T >()( c ) ); H( "conic.axes", UG::ConicSemiAxes< T >()( c ) ); H( "conic.center", UG::ConicCenter< T >()( c ) );
    H( "conic.eccentricity", UG::ConicEccentricity< T >()( c ) ); H( "conic.area", UG::ConicArea< T >()( c ) ); H( "conic.circle", UG::IsConicCircle< T >()( c ) ); H( "conic.degenerate", UG::IsConicDegenerate< T >()( c ) ); H( "conic.ellipse", UG::IsConicEllipse< T >()( c ) ); H( "conic.hyperbola", UG::IsConicHyperbola< T >()( c ) ); H( "conic.parabola", UG::IsConicParabola< T >()( c ) );
    H( "conic.scale", UG::ScaleConicUnsafe< T >( x( 0 ), x( 1 ) )( c ) ); H( "conic.translate", UG::TranslateConic< T >()( x, c ) ); H( "conic.pixel", UG::ConicPixel< T >()( c, x ) ); H( "conic.flip", UG::FlipConicHorizontal< T >( y )( c ) ); H( "conic.upperLower", UG::ConicUpperLowerLimit< T >()( c ) ); H( "conic.leftRight", UG::ConicLeftRightLimit< T >()( c ) ); H( "conic.horizontal", UG::ConicHorizontalIntersection< T >()( c, y ) );
#undef H
    Ma< T, 3, 3 > M = mat< T, 3, 3 >( r, k ); Ma< T, 3, 4 > P = mat< T, 3, 4 >( r, k ); Ve< T, 10 > qd = vec< T, 10 >( r, k ); Ve< T, 4 > sp = vec< T, 4 >( r, k );
    hostile( "quadric" + ty, id, [&]() { UG::ConicFromMatrix< T >()( M ); UG::ProjectQuadric< T >()( P, qd ); UG::ProjectEllipsoid< T >()( P, c ); UG::Ellipsoid2Quadric< T >()( c ); UG::ProjectSpheroid< T >()( P, sp ); }, M, P, qd, c, sp );
    int n = len( r ); auto p = pts< T, 2 >( r, k, n ); auto p3 = pts< T, 3 >( r, k, n ); Ma< T, 2, 3 > A = mat< T, 2, 3 >( r, k ); id += vh::fmt( ", %d points", n );
    hostile( "normalisation" + ty, id, [&]() { Ve< T, 2 > s, d; UG::estimateNormalizationParameters( p.begin(), p.end(), s, d ); UG::generateNormalizationMatrix( s, d, false ); UG::generateNormalizationMatrix( s, d, true ); Ve< T, 3 > s3, d3; UG::estimateNormalizationParameters( p3.begin(), p3.end(), s3, d3 ); UG::generateNormalizationMatrix( s3, d3, r.coin() ); }, p, p3 );
    hostile( "mapping" + ty, id, [&]() { std::vector< Ve< T, 2 > > o; UG::project_points( M, p.begin(), p.end(), std::back_inserter( o ) ); UG::project_points( P, p3.begin(), p3.end(), std::back_inserter( o ) ); UG::transform_points( A, p.begin(), p.end(), std::back_inserter( o ) ); std::vector< Ve< T, 3 > > q; UG::transform_points( P, p3.begin(), p3.end(), std::back_inserter( q ) ); }, p, p3, M, P, A );
    Out o; bool done = true; o = hostile( "conic.covariance" + ty, id, [&]() { Ma< T, 6, 6 > C; done = UG::estimateCovariance( p.begin(), p.end(), c, C ); }, p, c ); (void)o;
}
SECTION( "geometry.double", 1500, 60000 ) { geometry< double >( r, "" ); }
SECTION( "geometry.float", 800, 30000 ) { geometry< float >( r, ".float" ); }
SECTION( "rotations", 2500, 80000 )
{
    Kind k( r ); UM::Quaternion q = quat( r, k ), p = quat( r, k ); UM::Pose a = pose( r, k ), b = pose( r, k ); M33 M = mat< double, 3, 3 >( r, k ); M44 N = mat< double, 4, 4 >( r, k ); V3 v = vec< double, 3 >( r, k ); double t = k.val< double >( r ), u = k.val< double >( r ); std::string id = about( "rotations", k, 1 ); std::ostringstream os;
    hostile( "quaternion", id, [&]() { UM::Quaternion c( q ); c.normalize(); c = q; c.invert(); c.angle(); c = UM::slerp( q, p, t ); c = UM::slerp( q, p, u ); UM::linearInterpolate( q, p, t ); q.toLogarithm(); M33 m; q.toMatrix( m ); V3 ax; double an; UM::Quaternion cq( q ); cq.toAxisAngle( ax, an ); UM::Quaternion::fromLogarithm( v ); UM::Quaternion s( M ), g( v, t ); c = q * p; c += p; c = q - p; ~q; V3 w = q * v; q.angle(); q.negateIfCloser( p ); std::ostringstream o; o << q; (void)( q == p ); }, q, p, M, v );
    for ( int i = 0; i < 6; i++ ) { auto sq = static_cast< UM::Quaternion::t_EulerSequence >( i ); hostile( "euler", id, [&]() { q.getEulerAngles( sq ); }, q ); }
    hostile( "pose", id, [&]() { UM::Pose x( N ), y( q, v ); x = a * b; y = ~a; x = UM::linearInterpolate( a, b, t ); M44 m( a ); UM::Vector< double, 7 > w; a.toVector( w ); UM::Pose::fromVector( w ); V3 z = a * v; std::ostringstream o; o << a; (void)( a == b ); }, a, b, M, N, v );
    hostile( "casts", id, [&]() { using UM::Util::RotationCast; V3 ax = RotationCast< V3 >()( q ); RotationCast< V4 >()( q ); RotationCast< M33 >()( q ); RotationCast< UM::Quaternion >()( M ); RotationCast< UM::Quaternion >()( v ); RotationCast< V3 >()( M ); }, q, M, v );
    UM::ErrorPose e( a, UM::Matrix< double, 6, 6 >( mat< double, 6, 6 >( r, k ) ) ), f( b, UM::Matrix< double, 6, 6 >( mat< double, 6, 6 >( r, k ) ) );
    hostile( "errorPose", id, [&]() { UM::ErrorPose x = e * f; x = ~e; x = e * b; UM::linearInterpolate( e, f, t ); x.covariance(); UM::ErrorVector< double, 7 > w; e.toAdditiveErrorVector( w ); UM::ErrorPose::fromAdditiveErrorVector( w ); std::ostringstream o; o << x; }, a, b );
    hostile( "matrices", id, [&]() { UM::invert_matrix( M ); UM::determinant( M ); UM::Functors::matrix_inverse()( M ); UM::Functors::matrix_determinant()( M ); UM::Functors::matrix_inverse()( N ); UM::Functors::matrix_determinant()( N ); UM::pseudoInvert_matrix( M ); UM::pseudoInvert_matrix( N ); }, M, N );
    UM::RotationVelocity rv( v ); hostile( "rotationVelocity", id, [&]() { rv.integrate( t ); rv.axis(); rv.angularVelocity(); UM::RotationVelocity x( q, p, t ); }, q, p, v );
}

// ---- tracking ------------------------------------------------------------------------------------------------
SECTION( "filters", 800, 25000 )
{
    Kind k( r ); int n = len( r ); auto p = poses( r, k, n ); auto v = pts< double, 3 >( r, k, n ); std::vector< std::size_t > t; std::vector< int > op; unsigned long long now = r.coin() ? 0 : 1000000000ull * r.in( 1, 100 ); int clock = r.in( 0, 5 ); for ( int i = 0; i < n; i++ ) { t.push_back( now ); op.push_back( r.in( 0, 6 ) ); if ( clock == 0 ) now = r.u64(); else if ( clock == 1 ) now -= 1000000; else if ( clock == 2 ) {} else now += r.in( 0, 100000000 ); }
    std::vector< UM::Matrix< double, 6, 6 > > C; for ( int i = 0; i < n; i++ ) C.push_back( r.coin() ? UM::Matrix< double, 6, 6 >( UM::Matrix< double, 6, 6 >::identity() ) : UM::Matrix< double, 6, 6 >( mat< double, 6, 6 >( r, k ) ) ); int po = r.in( 0, 2 ), oo = r.in( 0, 2 ); bool io = r.coin( 0.3 ); double noise = r.coin() ? 0.1 : k.val< double >( r ); std::string id = about( "filters", k, n ) + vh::fmt( " orders %d/%d inside-out %d", po, oo, io );
    hostile( "poseFilter", id, [&]()
    {
        UR::LinearPoseMotionModel mm( po, oo ); for ( int i = 0; i <= po; i++ ) mm.setPosPN( i, noise ); for ( int i = 0; i <= oo; i++ ) mm.setOriPN( i, noise ); UR::PoseKalmanFilter f( mm, io );
        for ( int i = 0; i < n; i++ )
        {
            try { switch ( op[ i ] ) { case 0: f.timeUpdate( t[ i ] ); break; case 1: f.addRotationMeasurement( UE::Rotation( t[ i ], p[ i ].rotation() ) ); break; case 2: f.addRotationVelocityMeasurement( UE::RotationVelocity( t[ i ], UM::RotationVelocity( v[ i ] ) ) ); break; case 3: f.addInverseRotationVelocityMeasurement( UE::RotationVelocity( t[ i ], UM::RotationVelocity( v[ i ] ) ) ); break; case 4: f.predictPose( t[ i ] ); break; default: f.addPoseMeasurement( UE::ErrorPose( t[ i ], UM::ErrorPose( p[ i ], C[ i ] ) ) ); } }
            catch ( const std::exception& ) {}
        }
    }, p, v, t, C );
    hostile( "rotationOnlyFilter", id, [&]() { UR::RotationOnlyKF f; for ( int i = 0; i < n; i++ ) { try { if ( op[ i ] < 3 ) f.addRotationMeasurement( UE::Rotation( t[ i ], p[ i ].rotation() ) ); else if ( op[ i ] < 5 ) f.addVelocityMeasurement( UE::RotationVelocity( t[ i ], UM::RotationVelocity( v[ i ] ) ) ); else f.predict( t[ i ] ); } catch ( const std::exception& ) {} } }, p, v, t );
}
VH_MAIN
