// C25: threads doing unrelated work do not interfere. A case builds inputs, runs a set of jobs one after another in one
// thread and records a digest of each result; then several threads run the same jobs, on their own and on shared
// read-only inputs, in shuffled order and at the same time, and every digest must be the same. ThreadSanitizer watches.
// Shared measurements are copied, read, cloned and dropped by several threads; the payload counts its lives.
#include "ser.h"
#include <utMath/CameraIntrinsics.h>
#include <utMath/ErrorPose.h>
#include <utMath/ErrorVector.h>
#include <utMath/Scalar.h>
#include <utMath/Blas1.h>
#include <utMath/Util/RotationCast.h>
#include <utMath/MatrixOperations.h>
#include <utMath/Functors/MatrixFunctors.h>
#include <utMath/Geometry/Conic.h>
#include <utMath/Geometry/ConicCovariance.h>
#include <utMath/Geometry/PointNormalization.h>
#include <utMath/Geometry/PointProjection.h>
#include <utMath/Geometry/PointTransformation.h>
#include <utMath/Geometry/PointUndistortion.h>
#include <utMath/Geometry/QuadricFunctors.h>
#include <utMath/Graph/Munkres.h>
#include <utMath/Optimization/Optimization.h>
#include <utMath/Optimization/Ransac.h>
#include <utMath/Stochastic/Average.h>
#include <utMath/Stochastic/Correlation.h>
#include <utMath/Stochastic/Gaussian.h>
#include <utMath/Stochastic/MahalanobisDistance.h>
#include <utMath/Stochastic/Weighted.h>
#include <utMath/Stochastic/k_means.h>
#include <utMath/Stochastic/expectation_maximization.h>
#include <utAlgorithm/3DPointReconstruction.h>
#include <utAlgorithm/BundleAdjustment.h>
#include <utAlgorithm/CameraLens/Correction.h>
#include <utAlgorithm/Correlation.h>
#include <utAlgorithm/FundamentalMatrix.h>
#include <utAlgorithm/Homography.h>
#include <utAlgorithm/LensDistortion.h>
#include <utAlgorithm/MultipleCameraPoseOptimization.h>
#include <utAlgorithm/OnlineRotHec.h>
#include <utAlgorithm/PoseEstimation2D3D/NonPlanarPoseEstimation.h>
#include <utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.h>
#include <utAlgorithm/PoseEstimation3D3D/AbsoluteOrientation.h>
#include <utAlgorithm/PoseEstimation3D3D/ErrorEstimation.h>
#include <utAlgorithm/PoseEstimation3D3D/CovarianceEstimation.h>
#include <utAlgorithm/PoseEstimation3D3D/Optimization.h>
#include <utAlgorithm/PoseEstimation3D3D/Ransac.h>
#include <utAlgorithm/PoseEstimation6D6D/DataSelection.h>
#include <utAlgorithm/PoseEstimation6D6D/DualQuaternion.h>
#include <utAlgorithm/PoseEstimation6D6D/HandEyeCalibration.h>
#include <utAlgorithm/PoseEstimation6D6D/TsaiLenz.h>
#include <utAlgorithm/Projection.h>
#include <utAlgorithm/RotationHecKalmanFilter.h>
#include <utAlgorithm/ToolTip/Optimization.h>
#include <utAlgorithm/ToolTip/Ransac.h>
#include <utAlgorithm/ToolTip/TipCalibration.h>
#include <utTracking/PoseKalmanFilter.h>
#include <utTracking/RotationOnlyKF.h>
#include <utTracking/LinearPoseMotionModel.h>
#include <utMeasurement/TimestampSync.h>
#include <utUtil/CalibFile.h>
#include <utUtil/SimpleStringIArchive.h>
#include <utUtil/SimpleStringOArchive.h>
#include <tinyxml.h>
#include <algorithm>
#include <atomic>
#include <thread>
#include <unistd.h>
using namespace um;
namespace UA = Ubitrack::Algorithm; namespace UP = UA::PoseEstimation2D3D; namespace U3 = UA::PoseEstimation3D3D;
namespace UH = UA::PoseEstimation6D6D; namespace UT = UA::ToolTip; namespace CL = UA::CameraLens;
namespace UO = UM::Optimization; namespace US = UM::Stochastic; namespace UG = UM::Geometry;
namespace UR = Ubitrack::Tracking; namespace UE = Ubitrack::Measurement; namespace UU = Ubitrack::Util; namespace UD = Ubitrack::Serialization;
template< class T, std::size_t N > using Ve = UM::Vector< T, N >;
template< class T, std::size_t M, std::size_t N > using Ma = UM::Matrix< T, M, N >;

// ---- digests -------------------------------------------------------------------------------------------------
static void dig( std::string& s, double v ) { s.append( reinterpret_cast< char* >( &v ), sizeof v ); }
static void dig( std::string& s, float v ) { s.append( reinterpret_cast< char* >( &v ), sizeof v ); }
static void dig( std::string& s, std::size_t v ) { s.append( reinterpret_cast< char* >( &v ), sizeof v ); }
static void dig( std::string& s, int v ) { s.append( reinterpret_cast< char* >( &v ), sizeof v ); }
static void dig( std::string& s, bool v ) { s += char( v ); }
static void dig( std::string& s, const std::string& v ) { s += v; s += '\0'; }
template< class T, std::size_t N > static void dig( std::string& s, const Ve< T, N >& v ) { for ( std::size_t i = 0; i < v.size(); i++ ) dig( s, T( v( i ) ) ); }
template< class T, std::size_t M, std::size_t N > static void dig( std::string& s, const Ma< T, M, N >& m ) { for ( std::size_t i = 0; i < m.size1(); i++ ) for ( std::size_t j = 0; j < m.size2(); j++ ) dig( s, T( m( i, j ) ) ); }
template< class T > static void dig( std::string& s, const UM::Scalar< T >& v ) { dig( s, T( v ) ); }
static void dig( std::string& s, const UM::Quaternion& q ) { dig( s, q.x() ); dig( s, q.y() ); dig( s, q.z() ); dig( s, q.w() ); }
static void dig( std::string& s, const UM::Pose& p ) { dig( s, p.rotation() ); dig( s, p.translation() ); }
static void dig( std::string& s, const UM::ErrorPose& p ) { dig( s, static_cast< const UM::Pose& >( p ) ); dig( s, p.covariance() ); }
template< class A, class B > static void dig( std::string& s, const std::pair< A, B >& p );
template< class T > static void dig( std::string& s, const std::vector< T >& v ) { dig( s, v.size() ); for ( const T& x : v ) dig( s, x ); }
template< class A, class B > static void dig( std::string& s, const std::pair< A, B >& p ) { dig( s, p.first ); dig( s, p.second ); }

// ---- inputs --------------------------------------------------------------------------------------------------
template< class T > struct World
{
    std::vector< UM::Pose > hand, eye; std::vector< Ve< T, 3 > > X, Y, plane; std::vector< Ve< T, 2 > > x, y, u, v; std::vector< Ma< T, 3, 4 > > P; Ma< T, 3, 3 > K, F; UM::Pose pose, pose2; std::vector< std::vector< Ve< T, 2 > > > obs; std::vector< UM::Pose > cams; std::vector< T > a, b; Ve< T, 6 > conic;
    void digest( std::string& s ) const { dig( s, hand ); dig( s, eye ); dig( s, X ); dig( s, Y ); dig( s, plane ); dig( s, x ); dig( s, y ); dig( s, u ); dig( s, v ); dig( s, P ); dig( s, K ); dig( s, F ); dig( s, pose ); dig( s, pose2 ); for ( auto& o : obs ) dig( s, o ); dig( s, cams ); dig( s, a ); dig( s, b ); dig( s, conic ); }
};
/// a pose which puts objects around the origin into the view along -z
static UM::Pose viewing( Rng& r ) { A3 n = genAxis( r ); return UM::Pose( refQuat( n, r.uni( -0.6, 0.6 ) ), V3( r.uni( -0.3, 0.3 ), r.uni( -0.3, 0.3 ), r.uni( -8, -4 ) ) ); }
template< class T > static Ve< T, 2 > view( const Ma< T, 3, 3 >& K, const UM::Pose& p, const Ve< T, 3 >& X, double noise, Rng& r )
{
    V3 c = act( p, V3( X( 0 ), X( 1 ), X( 2 ) ) ); double h[ 3 ]; for ( int i = 0; i < 3; i++ ) h[ i ] = K( i, 0 ) * c( 0 ) + K( i, 1 ) * c( 1 ) + K( i, 2 ) * c( 2 ); return Ve< T, 2 >( T( h[ 0 ] / h[ 2 ] + noise * r.gauss() ), T( h[ 1 ] / h[ 2 ] + noise * r.gauss() ) );
}
template< class T > static World< T > world( Rng& r )
{
    World< T > w; int n = r.in( 8, 16 ); for ( int i = 0; i < 3; i++ ) for ( int j = 0; j < 3; j++ ) w.K( i, j ) = 0; w.K( 0, 0 ) = T( r.uni( 300, 900 ) ); w.K( 1, 1 ) = T( r.uni( 300, 900 ) ); w.K( 0, 2 ) = T( -r.uni( 250, 400 ) ); w.K( 1, 2 ) = T( -r.uni( 200, 300 ) ); w.K( 2, 2 ) = -1;
    w.pose = viewing( r ); w.pose2 = viewing( r ); UM::Pose rel = uniPose( r ), mount = uniPose( r );
    for ( int i = 0; i < n; i++ )
    {
        V3 p = uniVec( r ); w.X.push_back( Ve< T, 3 >( T( p( 0 ) ), T( p( 1 ) ), T( p( 2 ) ) ) ); w.plane.push_back( Ve< T, 3 >( T( p( 0 ) ), T( p( 1 ) ), 0 ) ); V3 q = act( rel, p ); w.Y.push_back( Ve< T, 3 >( T( q( 0 ) + 0.01 * r.gauss() ), T( q( 1 ) ), T( q( 2 ) ) ) );
        w.x.push_back( view( w.K, w.pose, w.X.back(), 0.3, r ) ); w.y.push_back( view( w.K, w.pose2, w.X.back(), 0.3, r ) ); w.u.push_back( view( w.K, w.pose, w.plane.back(), 0.3, r ) ); w.v.push_back( Ve< T, 2 >( T( p( 0 ) ), T( p( 1 ) ) ) );
        UM::Pose h = uniPose( r ); w.hand.push_back( h ); w.eye.push_back( ~mount * ~h * rel );
        w.a.push_back( T( r.gauss() ) ); w.b.push_back( T( r.gauss() ) );
    }
    for ( int c = 0; c < 3; c++ )
    {
        UM::Pose p = viewing( r ); w.cams.push_back( p ); std::vector< Ve< T, 2 > > o; for ( auto& X : w.X ) o.push_back( view( w.K, p, X, 0.2, r ) ); w.obs.push_back( o );
        R3 R = refMatrix( p.rotation() ); Ma< T, 3, 4 > P; for ( int i = 0; i < 3; i++ ) for ( int j = 0; j < 4; j++ ) { double s = 0; for ( int k = 0; k < 3; k++ ) s += w.K( i, k ) * ( j == 3 ? p.translation()( k ) : R.m[ k ][ j ] ); P( i, j ) = T( s ); } w.P.push_back( P );
    }
    for ( int i = 0; i < 3; i++ ) for ( int j = 0; j < 3; j++ ) w.F( i, j ) = T( r.gauss() ); double ea = r.uni( 1, 4 ), eb = r.uni( 1, 4 ); double cc[ 6 ] = { 1 / ea, 0.05, 1 / eb, r.gauss(), r.gauss(), -3 }; for ( int i = 0; i < 6; i++ ) w.conic( i ) = T( cc[ i ] ); return w;
}

// ---- jobs ----------------------------------------------------------------------------------------------------
template< class T > struct Job { const char* name; std::function< void( std::string&, const World< T >&, Rng&, const std::string& ) > run; bool exact; };
#define J( NAME, ... ) { NAME, []( std::string& s, const World< T >& w, Rng& r, const std::string& dir ) { (void)s; (void)w; (void)r; (void)dir; __VA_ARGS__ }, true }
#define JR( NAME, ... ) { NAME, []( std::string& s, const World< T >& w, Rng& r, const std::string& dir ) { (void)s; (void)w; (void)r; (void)dir; __VA_ARGS__ }, false }
template< class T > static std::vector< Job< T > > jobs()
{
    return {
        J( "homography", dig( s, UA::homographyDLT( w.v, w.u ) ); std::vector< Ve< T, 2 > > q( w.u.begin(), w.u.begin() + 4 ); dig( s, UA::squareHomography( q ) ); ),
        J( "poseFromHomography", dig( s, UP::poseFromHomography( UA::homographyDLT( w.v, w.u ), w.K ) ); ),
        J( "projection", Ma< T, 3, 4 > P = UA::projectionDLT( w.X, w.x ); dig( s, P ); Ma< T, 3, 3 > K, R; Ve< T, 3 > t; UA::decomposeProjection( K, R, t, P ); dig( s, K ); dig( s, R ); dig( s, t ); dig( s, UA::projectionMatrixToOpenGL( T( 0 ), T( 640 ), T( 0 ), T( 480 ), T( 0.1 ), T( 100 ), w.K ) ); ),
        J( "fundamental", Ma< T, 3, 3 > F = UA::getFundamentalMatrix( w.x, w.y, 1 ); dig( s, F ); for ( std::size_t i = 0; i < w.x.size(); i++ ) dig( s, UA::pointToPointDist( w.x[ i ], w.y[ i ], F ) ); ),
        J( "triangulate", for ( std::size_t i = 0; i < w.X.size(); i++ ) { dig( s, UA::get3DPosition( w.P[ 0 ], w.P[ 1 ], w.obs[ 0 ][ i ], w.obs[ 1 ][ i ] ) ); std::vector< Ve< T, 2 > > q; for ( auto& o : w.obs ) q.push_back( o[ i ] ); dig( s, UA::get3DPosition( w.P, q, 1 ) ); } ),
        J( "reconstruct", std::vector< Ve< T, 2 > > a( w.obs[ 0 ].begin(), w.obs[ 0 ].begin() + 5 ); std::vector< Ve< T, 2 > > b( w.obs[ 1 ].begin(), w.obs[ 1 ].begin() + 5 ); dig( s, UA::reconstruct3DPoints( a, b, w.P[ 0 ], w.P[ 1 ], w.F ) ); ),
        J( "bundle", auto p = w.cams; auto X = w.X; std::vector< std::vector< Ve< T, 2 > > > y( w.obs.size() ); for ( std::size_t c = 0; c < w.obs.size(); c++ ) for ( auto& X1 : w.X ) { V3 q = act( p[ c ], V3( X1( 0 ), X1( 1 ), X1( 2 ) ) ); y[ c ].push_back( Ve< T, 2 >( T( q( 0 ) / q( 2 ) ), T( q( 1 ) / q( 2 ) ) ) ); } UA::simpleBundleAdjustment( y, p, X ); dig( s, p ); dig( s, X ); ),
        J( "lens", Ve< T, 4 > d( T( -0.1 ), T( 0.02 ), T( 0.001 ), T( 0.002 ) ); for ( auto& q : w.x ) { dig( s, UA::lensDistort( q, d, w.K ) ); dig( s, UA::lensUnDistort( q, d, w.K ) ); } UM::CameraIntrinsics< T > ci( w.K, Ve< T, 2 >( T( -0.1 ), T( 0.02 ) ), Ve< T, 2 >( T( 0.001 ), T( 0.002 ) ) ); std::vector< Ve< T, 2 > > o; CL::distort( ci, w.x, o ); dig( s, o ); CL::undistort( ci, w.x, o ); dig( s, o ); ),
        J( "nonplanar", std::vector< Ve< T, 2 > > n; for ( auto& X : w.X ) { V3 c = act( w.pose, V3( X( 0 ), X( 1 ), X( 2 ) ) ); n.push_back( Ve< T, 2 >( T( c( 0 ) / c( 2 ) ), T( c( 1 ) / c( 2 ) ) ) ); } UM::Pose q; std::size_t it = 50; T err = T( 1e-6 ); dig( s, UP::estimatePose6D_2D3D( n, q, w.X, it, err ) ); dig( s, q ); dig( s, it ); ),
        J( "optimizePose", UM::Pose q( w.pose2 ); dig( s, UP::optimizePose( q, w.x, w.X, w.K, 10 ) ); dig( s, q ); dig( s, UP::singleCameraPoseError( q, w.X, w.K, T( 0.5 ) ) ); std::vector< std::pair< std::size_t, std::size_t > > o; for ( std::size_t i = 0; i < w.X.size(); i++ ) o.push_back( std::make_pair( i, i % 3 ) ); dig( s, UP::multipleCameraPoseError( w.pose, w.X, w.P, o, T( 0.5 ) ) ); ),
        J( "pose3d3d", UM::Pose p; dig( s, U3::estimatePose6D_3D3D( w.X, p, w.Y ) ); dig( s, p ); UM::Pose q( p ); UO::OptTerminate c( 10, 1e-6 ); dig( s, U3::estimatePose6D_3D3D( w.X, q, w.Y, c ) ); dig( s, q ); Ma< T, 3, 3 > M; U3::estimateRotation_3D3D( w.X, M, w.Y ); dig( s, M ); dig( s, U3::estimateScale_3D3D( w.X, w.Y ) ); Ma< T, 6, 6 > C; U3::estimatePose6DCovariance( w.X.begin(), w.X.end(), p, w.Y.begin(), w.Y.end(), C ); dig( s, C ); ),
        JR( "pose3d3dRobust", UO::RansacParameter< T > par( T( 0.2 ), 3, w.X.size() / 2, T( 0.3 ) ); UM::Pose p; bool d = U3::estimatePose6D_3D3D( w.X, p, w.Y, par ); dig( s, d ); ),
        J( "tip", Ve< T, 3 > a; Ve< T, 3 > b; dig( s, UT::estimatePosition3D_6D( a, w.hand, b ) ); dig( s, a ); dig( s, b ); UO::OptTerminate c( 10, 1e-6 ); dig( s, UT::estimatePosition3D_6D( a, w.hand, b, c ) ); dig( s, a ); ),
        J( "handEye", dig( s, UH::performHandEyeCalibration( w.hand, w.eye, r.coin() ) ); UM::Pose p; dig( s, UH::estimatePose6D_6D6D( w.eye, p, w.hand ) ); dig( s, p ); std::vector< Ve< double, 8 > > rel; UH::generate_relative_6DPoses( w.hand, rel, true ); dig( s, rel ); ),
        J( "handEyeSelection", std::vector< UM::Pose > a; std::vector< UM::Pose > b; UH::select_6DPoses( w.eye, w.hand, 5, a, b ); ),
        JR( "incrementalHandEye", UH::HandEyeCalibration< double > c; UM::Pose p; dig( s, c.estimatePose6D( w.eye, p, w.hand ) ); ),
        J( "onlineRotation", UA::OnlineRotHec h; UA::RotationHecKalmanFilter f; for ( std::size_t i = 0; i < w.hand.size(); i++ ) { h.addMeasurement( w.hand[ i ].rotation(), w.eye[ i ].rotation() ); f.addMeasurement( w.hand[ i ].rotation(), w.eye[ i ].rotation() ); } dig( s, h.computeResult() ); dig( s, f.getResult() ); ),
        J( "averages", US::Average< Ve< T, 3 > > a; US::Average< UM::Pose > p; US::Average< UM::Quaternion > q; for ( auto& v : w.X ) a( v ); for ( auto& v : w.cams ) { p( v ); q( v.rotation() ); } dig( s, a.getAverage() ); dig( s, p.getAverage() ); dig( s, q.getAverage() ); ),
        J( "statistics", US::Gaussian< T, 3 > g; US::reset( g ); dig( s, US::estimate_gaussian( w.X.begin(), w.X.end(), g ) ); US::MahalanobisDistance< US::Gaussian< T, 3 > > md( g ); for ( auto& v : w.Y ) dig( s, T( md( v ) ) ); dig( s, T( US::correlation( w.a.begin(), w.a.end(), w.b.begin(), w.b.end() ) ) ); std::vector< Ve< T, 3 > > m( w.X.begin(), w.X.begin() + 3 ); std::vector< std::size_t > ix; US::k_means( w.X.begin(), w.X.end(), m.begin(), m.end(), std::back_inserter( ix ), UM::SquaredDistance< Ve< T, 3 > >() ); dig( s, m ); dig( s, ix ); ),
        JR( "clusterSelection", std::vector< Ve< T, 3 > > X( w.X ); std::vector< Ve< T, 3 > > o; dig( s, US::copy_probability( X.begin(), X.end(), 4, std::back_inserter( o ), UM::Distance< Ve< T, 3 > >() ) ); dig( s, o.size() ); for ( auto& v : o ) { bool in = false; for ( auto& x : w.X ) in |= x( 0 ) == v( 0 ) && x( 1 ) == v( 1 ) && x( 2 ) == v( 2 ); dig( s, in ); } ),
        JR( "randomNumbers", for ( int i = 0; i < 300; i++ ) { T v = UM::Random::distribute_uniform< T >( T( -2 ), T( 3 ) ); dig( s, v >= -2 && v <= 3 ); std::size_t k = UM::Random::distribute_uniform< std::size_t >( 2, 9 ); dig( s, k >= 2 && k <= 9 ); dig( s, std::fabs( UM::Random::distribute_normal< T >( 0, 1 ) ) < 20 ); } ),
        J( "assignment", int n = r.in( 3, 9 ); int m = r.in( 3, 9 ); UM::Matrix< T, 0, 0 > c( n, m ); for ( int i = 0; i < n; i++ ) for ( int j = 0; j < m; j++ ) c( i, j ) = T( r.uni( 0, 9 ) ); UM::Graph::Munkres< T > k( c ); k.solve(); dig( s, k.getRowMatchList() ); dig( s, k.getColMatchList() ); ),
        J( "conics", dig( s, UG::ConicAngle< T >()( w.conic ) ); dig( s, UG::ConicSemiAxes< T >()( w.conic ) ); dig( s, UG::ConicCenter< T >()( w.conic ) ); dig( s, UG::ConicInverse< T >()( w.conic ) ); dig( s, UG::ProjectEllipsoid< T >()( w.P[ 0 ], w.conic ) ); std::vector< Ve< T, 2 > > o; UG::project_points( w.P[ 1 ], w.X.begin(), w.X.end(), std::back_inserter( o ) ); dig( s, o ); ),
        J( "rotations", for ( std::size_t i = 1; i < w.hand.size(); i++ ) { const UM::Pose& a = w.hand[ i - 1 ]; const UM::Pose& b = w.hand[ i ]; dig( s, a * ~b ); dig( s, UM::linearInterpolate( a, b, 0.3 ) ); dig( s, a.rotation().toLogarithm() ); dig( s, a.rotation().getEulerAngles( UM::Quaternion::EULER_SEQUENCE_XYZ ) ); dig( s, UM::Util::RotationCast< V3 >()( b.rotation() ) ); UM::ErrorPose e( a, UM::Matrix< double, 6, 6 >::identity() ); dig( s, e * UM::ErrorPose( b, UM::Matrix< double, 6, 6 >::identity() ) ); dig( s, ~e ); } ),
        J( "matrices", Ma< T, 3, 3 > M( w.F ); dig( s, UM::invert_matrix( M ) ); dig( s, UM::determinant( M ) ); dig( s, UM::pseudoInvert_matrix( M ) ); dig( s, UM::Functors::matrix_inverse()( M ) ); ),
        J( "poseFilter", UR::LinearPoseMotionModel mm( 1, 1 ); for ( int i = 0; i < 2; i++ ) { mm.setPosPN( i, 0.1 ); mm.setOriPN( i, 0.1 ); } UR::PoseKalmanFilter f( mm ); unsigned long long t = 1000000000ull; UM::Pose p = w.pose; for ( int i = 0; i < 8; i++ ) { UM::Matrix< double, 6, 6 > C = UM::Matrix< double, 6, 6 >::identity(); f.addPoseMeasurement( UE::ErrorPose( t, UM::ErrorPose( p, C ) ) ); t += 30000000ull; p = UM::linearInterpolate( p, w.pose2, 0.1 ); dig( s, *f.predictPose( t ) ); } UR::RotationOnlyKF k; t = 1000000000ull; for ( int i = 0; i < 8; i++ ) { k.addRotationMeasurement( UE::Rotation( t, w.hand[ i ].rotation() ) ); t += 10000000ull; dig( s, *k.predict( t ) ); } ),
        J( "timestamps", UE::Timestamp t = r.u64() >> 2; dig( s, UE::timestampToString( t ) ); dig( s, UE::timestampToShortString( t ) ); UE::TimestampSync y( 1000.0 ); dig( s, bool( UE::now() > 0 ) ); ),
        J( "archives", std::stringstream o; boost::archive::text_oarchive a( o ); a << w.pose; std::stringstream i( o.str() ); boost::archive::text_iarchive b( i ); UM::Pose q; b >> q; dig( s, q ); dig( s, o.str() ); std::ostringstream t; t << w.pose << w.K << w.X[ 0 ]; dig( s, t.str() ); ),
        J( "calibrationFiles", std::string f = dir + "/file"; UU::writeCalibFile( f, w.pose ); UM::Pose q; UU::readCalibFile( f, q ); dig( s, q ); UU::writeBinaryCalibFile( f, w.pose2 ); UU::readBinaryCalibFile( f, q ); dig( s, q ); bool thrown = false; try { UU::readCalibFile( dir + "/missing", q ); } catch ( const UU::Exception& ) { thrown = true; } dig( s, thrown ); ),
        J( "xml", TiXmlDocument d; std::string t = "<?xml version=\"1.0\"?><r>"; for ( int i = 0; i < 20; i++ ) t += vh::fmt( "<n%d k=\"%d &lt;\">a &amp; b %.6g</n%d><!-- c -->", i, r.in( 0, 99 ), r.uni( 0, 1 ), i ); t += "</r>"; d.Parse( t.c_str() ); dig( s, d.Error() ); TiXmlPrinter p; d.Accept( &p ); dig( s, std::string( p.CStr() ) ); TiXmlDocument e; e.Parse( "<a><b></a>" ); dig( s, e.Error() ); dig( s, std::string( e.ErrorDesc() ) ); TiXmlDocument c( d ); TiXmlPrinter p2; c.Accept( &p2 ); dig( s, std::string( p2.CStr() ) ); ),
        J( "errors", try { std::vector< Ve< T, 2 > > none; UA::homographyDLT( none, none ); } catch ( const UU::Exception& e ) { std::ostringstream o; o << e; dig( s, o.str() ); } catch ( const std::exception& e ) { dig( s, std::string( e.what() ) ); } ),
    };
}
/// jobs for which the library offers double precision only
static std::vector< Job< double > > doubleJobs()
{
    typedef double T; return {
        J( "computePose", double res = 0; dig( s, UP::computePose( w.x, w.X, w.K, res, true, UP::NONPLANAR_PROJECTION ) ); dig( s, res ); dig( s, UP::computePose( w.u, w.plane, w.K, res, true, UP::PLANAR_HOMOGRAPHY ) ); ),
        J( "multicamera", std::vector< M33 > K( w.cams.size(), w.K ); std::vector< std::vector< UM::Scalar< double > > > wt( w.cams.size(), std::vector< UM::Scalar< double > >( w.X.size(), UM::Scalar< double >( 1 ) ) ); UM::ErrorPose g; UM::Scalar< double > q( 0 ); std::vector< V3 > X( w.X ); UA::multipleCameraPoseEstimation( X, w.obs, wt, w.cams, K, 4, g, q, true, UM::Pose() ); dig( s, g ); dig( s, q ); ),
        J( "epipolarPoses", dig( s, UA::fundamentalMatrixFromPoses( w.pose, w.pose2, w.K, w.K ) ); M33 F = UA::fundamentalMatrixFromPoses( w.pose, w.pose2, w.K, w.K ); dig( s, UA::poseFromFundamentalMatrix( F, w.x[ 0 ], w.y[ 0 ], w.K, w.K ) ); ),
        J( "absoluteOrientation", dig( s, U3::calculateAbsoluteOrientation( w.X, w.Y ) ); V3 m; V3 q; UT::tipCalibration( w.hand, m, q ); dig( s, m ); dig( s, q ); ),
        J( "correlation", dig( s, UA::computeCorrelation( w.a, w.b ) ); ),
        J( "msgpack", msgpack::sbuffer b; UD::MsgpackArchive::serialize( b, w.pose ); UM::Pose q; msgpack::unpacker u; u.reserve_buffer( b.size() ); std::memcpy( u.buffer(), b.data(), b.size() ); u.buffer_consumed( b.size() ); UD::MsgpackArchive::deserialize( u, q ); dig( s, q ); dig( s, std::string( b.data(), b.size() ) ); ),
    };
}

struct Barrier { std::atomic< int > left; explicit Barrier( int n ) : left( n ) {} void wait() { left--; while ( left > 0 ) std::this_thread::yield(); } };
template< class T > static std::string once( const Job< T >& j, const World< T >& w, uint64_t seed, const std::string& dir )
{
    std::string s; Rng r( seed ); try { j.run( s, w, r, dir ); } catch ( const std::exception& e ) { s += std::string( "threw " ) + e.what(); } return s;
}
static std::vector< std::string > dirs() { static std::vector< std::string > d; if ( d.empty() ) for ( int i = 0; i < 9; i++ ) { d.push_back( vh::fmt( "thread%d", i ) ); ::mkdir( d.back().c_str(), 0755 ); } return d; }
/// own: every thread works on its own copy of the inputs; otherwise all read the same ones
template< class T > static void parallel( const std::string& ty, std::vector< Job< T > > all, Rng& r, bool own )
{
    const int nt = r.in( 2, 6 ), kinds = r.in( 1, std::min< int >( 10, all.size() ) ), rounds = r.in( 1, 3 ); std::vector< Job< T > > js; std::vector< uint64_t > seeds; for ( int i = 0; i < kinds; i++ ) { js.push_back( all[ r.in( 0, int( all.size() ) - 1 ) ] ); seeds.push_back( r.u64() ); }
    const std::vector< std::string > d = dirs(); std::vector< World< T > > ws; for ( int i = 0; i < ( own ? nt : 1 ); i++ ) ws.push_back( world< T >( r ) );
    std::vector< std::string > inputs; for ( auto& w : ws ) { std::string s; w.digest( s ); inputs.push_back( s ); }
    // alone
    std::vector< std::vector< std::string > > want( ws.size() ); for ( std::size_t i = 0; i < ws.size(); i++ ) for ( int k = 0; k < kinds; k++ ) want[ i ].push_back( once( js[ k ], ws[ i ], seeds[ k ], d[ 8 ] ) );
    // together
    struct Res { int job; std::string got; }; std::vector< std::vector< Res > > got( nt ); std::vector< std::vector< int > > order( nt ); for ( auto& o : order ) { for ( int x = 0; x < rounds; x++ ) for ( int k = 0; k < kinds; k++ ) o.push_back( k ); for ( std::size_t i = o.size(); i > 1; i-- ) std::swap( o[ i - 1 ], o[ r.u64() % i ] ); }
    if ( r.coin( 0.3 ) ) for ( auto& o : order ) o = order[ 0 ]; // all do the same at the same time
    {
        vh::Watch watch( "parallel.terminates", 120 ); Barrier b( nt ); std::vector< std::thread > t;
        for ( int i = 0; i < nt; i++ ) t.emplace_back( [ &, i ]() { b.wait(); for ( int k : order[ i ] ) got[ i ].push_back( Res{ k, once( js[ k ], ws[ own ? i : 0 ], seeds[ k ], d[ i ] ) } ); } );
        for ( auto& x : t ) x.join();
    }
    for ( int i = 0; i < nt; i++ ) for ( auto& g : got[ i ] )
    {
        const std::string name = js[ g.job ].name + ty; vh::ok( name + ( own ? ".alone" : ".shared" ), g.got == want[ own ? i : 0 ][ g.job ], vh::fmt( "the result in thread %d of %d differs from the result without other threads", i + 1, nt ) );
    }
    for ( std::size_t i = 0; i < ws.size(); i++ ) { std::string s; ws[ i ].digest( s ); vh::ok( "inputs.unchanged", s == inputs[ i ] ); }
    vh::event( vh::fmt( "%d threads", nt ) ); for ( auto& j : js ) vh::event( std::string( "job " ) + j.name );
    std::string key = own ? "own" : "shared"; for ( auto& j : js ) key += std::string( " " ) + j.name; vh::sample( key );
}
SECTION( "own.double", 300, 6000 ) { auto j = jobs< double >(); auto k = doubleJobs(); j.insert( j.end(), k.begin(), k.end() ); parallel< double >( "", j, r, true ); }
SECTION( "shared.double", 300, 6000 ) { auto j = jobs< double >(); auto k = doubleJobs(); j.insert( j.end(), k.begin(), k.end() ); parallel< double >( "", j, r, false ); }
SECTION( "own.float", 150, 3000 ) { parallel< float >( ".float", jobs< float >(), r, true ); }
SECTION( "shared.float", 150, 3000 ) { parallel< float >( ".float", jobs< float >(), r, false ); }

// ---- shared measurements -------------------------------------------------------------------------------------
struct Life
{
    static std::atomic< long > alive, copies, doubles; std::atomic< int > state; long value;
    explicit Life( long v = 0 ) : state( 1 ), value( v ) { alive++; }
    Life( const Life& o ) : state( 1 ), value( o.value ) { if ( o.state != 1 ) doubles++; alive++; copies++; }
    ~Life() { if ( state.exchange( 2 ) != 1 ) doubles++; alive--; value = -1; }
private:
    Life& operator=( const Life& );
};
std::atomic< long > Life::alive( 0 ), Life::copies( 0 ), Life::doubles( 0 );
SECTION( "measurements", 400, 8000 )
{
    typedef UE::Measurement< Life > M; const int nt = r.in( 2, 6 ), ops = r.in( 20, 200 ), nm = r.in( 1, 4 ); long before = Life::alive, wrong = 0; Life::doubles = 0; std::atomic< long > bad( 0 ), done( 0 );
    {
        std::vector< M > shared; for ( int i = 0; i < nm; i++ ) shared.push_back( M( 100 + i, boost::shared_ptr< Life >( new Life( 1000 + i ) ) ) );
        std::vector< std::vector< M > > mine( nt, shared ); if ( r.coin() ) shared.clear(); // the last holder is one of the threads
        std::vector< uint64_t > seeds; for ( int i = 0; i < nt; i++ ) seeds.push_back( r.u64() ); Barrier b( nt ); std::vector< std::thread > t; vh::Watch watch( "measurements.terminates", 60 );
        for ( int i = 0; i < nt; i++ ) t.emplace_back( [ &, i ]()
        {
            Rng q( seeds[ i ] ); std::vector< M > held; std::vector< M >& own = mine[ i ]; b.wait();
            for ( int k = 0; k < ops; k++ )
            {
                switch ( q.in( 0, 8 ) )
                {
                case 0: case 1: held.push_back( own[ q.in( 0, nm - 1 ) ] ); break;
                case 2: if ( !held.empty() ) held.erase( held.begin() + q.in( 0, int( held.size() ) - 1 ) ); break;
                case 3: if ( !held.empty() ) held.push_back( held[ q.in( 0, int( held.size() ) - 1 ) ].clone() ); break;
                case 4: if ( !held.empty() ) { M c( held.back() ); c.time( 100 + nm + 5 ); if ( c.time() == held.back().time() && held.back().time() < 100u + nm ) bad++; } break;
                case 5: if ( !held.empty() ) { M x; x = held.back(); x.invalidate(); if ( held.back().invalid() ) bad++; } break;
                case 6: if ( !held.empty() ) held.back() = own[ q.in( 0, nm - 1 ) ]; break;
                case 7: if ( held.size() > 10 ) held.clear(); break;
                default: if ( !shared.empty() ) held.push_back( shared[ q.in( 0, nm - 1 ) ] ); // several threads copy the same object
                }
                for ( auto& m : held ) if ( !m || m->state != 1 || m->value < 1000 || m->value >= 1000 + nm ) bad++;
                done++;
            }
            held.clear(); own.clear();
        } );
        for ( auto& x : t ) x.join();
        for ( std::size_t i = 0; i < shared.size(); i++ ) if ( shared[ i ]->value != 1000 + long( i ) || shared[ i ].use_count() != 1 ) wrong++;
        if ( shared.empty() ) vh::ok( "measurements.released", Life::alive == before, "values without a holder are still there" );
    }
    vh::ok( "measurements.alive", bad == 0, "a held measurement lost its value" ); vh::ok( "measurements.once", Life::doubles == 0, "a value was destroyed twice or copied after its end" ); vh::ok( "measurements.counted", wrong == 0, "holders left over or value changed" ); vh::ok( "measurements.freed", Life::alive == before, "a value was never destroyed" ); vh::event( "measurement operations", done ); vh::sample( vh::fmt( "%d threads, %d measurements, %d operations", nt, nm, ops ) );
}
VH_MAIN
