// C05: analytic derivatives match the functions they belong to
#include "um.h"
#include <utMath/CameraIntrinsics.h>
#include <boost/numeric/ublas/io.hpp>
#include <boost/numeric/ublas/vector_proxy.hpp>
#include <boost/numeric/ublas/matrix_proxy.hpp>
#include <utAlgorithm/Function/CameraIntrinsicsMultiplication.h>
#include <utAlgorithm/Function/Dehomogenization.h>
#include <utAlgorithm/Function/LieRotation.h>
#include <utAlgorithm/Function/QuaternionRotation.h>
#include <utAlgorithm/Function/QuaternionRotationError.h>
#include <utAlgorithm/Function/RadialDistortion.h>
#include <utAlgorithm/Function/MultipleCameraProjection.h>
#include <utAlgorithm/Function/MultipleCameraProjectionError.h>
#include <utAlgorithm/Function/MultipleCameraProjectionErrorART.h>
#include <utAlgorithm/Function/MultiplePointProjection.h>
#include <utAlgorithm/Function/MultiplePointProjectionError.h>
#include <utAlgorithm/Function/ProjectivePoseNormalize.h>
#include <utAlgorithm/Function/RotHecFunction.h>
#include <utMath/Geometry/PointProjection.h>
#include <utMath/Geometry/PointTransformation.h>
#include <utAlgorithm/Function/SinglePointMultiProjection.h>
#include <utAlgorithm/PoseEstimation3D3D/Optimization.h>
#include <utAlgorithm/PoseEstimation3D3D/CovarianceEstimation.h>
#include <utAlgorithm/ToolTip/LeastSquare.h>
#include <utAlgorithm/ToolTip/Optimization.h>
#include <utAlgorithm/CameraLens/Distortion.h>
#include <utAlgorithm/CameraLens/Undistortion.h>
#include <utMath/Optimization/Function/DiscreteJacobianApproximation.h>
#include <utMath/Optimization/Function/LinearFunction.h>
#include <utMath/Optimization/Function/RotationVelocityIntegration.h>
#include <utMath/Optimization/Function/VectorNormalize.h>
#include <utMath/RotationVelocity.h>
#include <utTracking/Function/LinearTimeUpdate.h>
#include <utTracking/Function/QuaternionTimeUpdate.h>
#include <utTracking/Function/PoseTimeUpdate.h>
#include <utTracking/Function/InsideOutPoseTimeUpdate.h>
#include <utTracking/Function/InvertRotationVelocity.h>
// (headers of the newer function framework share guard names with the older ones)
#undef __UBITRACK_CALIBRATION_FUNCTION_DEHOMOGENIZATION_H_INCLUDED__
#undef __UBITRACK_CALIBRATION_FUNCTION_LIEROTATION_H_INCLUDED__
#include <utMath/Optimization/NewFunction/Function.h>
#include <utMath/Optimization/NewFunction/Addition.h>
#include <utMath/Optimization/NewFunction/Subtraction.h>
#include <utMath/Optimization/NewFunction/Dehomogenization.h>
#include <utMath/Optimization/NewFunction/LieRotation.h>
#include <utMath/Optimization/NewFunction/LinearTransformation.h>
#include <utAlgorithm/MultipleCameraPoseOptimization.h>

// the network type of the bundle adjustment function is supplied by its user
namespace Ubitrack { namespace Algorithm {
template< class T > struct BundleAdjustmentNetwork
{
    typedef std::vector< Math::Vector< T, 3 > > PointsList; typedef std::vector< Math::Pose > PoseList; typedef std::vector< Math::Matrix< T, 3, 3 > > IntrinsicList; typedef std::vector< Math::Vector< T, 4 > > DistortionList;
    struct FreePointMeasurement { std::size_t iPoint, iCamera, iImage; Math::Vector< T, 2 > measurement; };
    struct BodyPointMeasurement { std::size_t iBody, iBodyPose, iPoint, iCamera, iImage; Math::Vector< T, 2 > measurement; };
    PointsList points; PoseList bodyPoses, images; IntrinsicList intrinsics; DistortionList distortions; std::vector< PointsList > bodies;
    std::vector< FreePointMeasurement > freePointMeasurements; std::vector< BodyPointMeasurement > bodyPointMeasurements; bool bEstimateIntrinsics;
};
} }
#include <utAlgorithm/Function/BundleAdjustment.h>
#include <utAlgorithm/PoseEstimation3D3D/Optimization.h>
#include <utAlgorithm/ToolTip/Optimization.h>

using namespace um;
namespace UA = Ubitrack::Algorithm; namespace AF = Ubitrack::Algorithm::Function; namespace OF = Ubitrack::Math::Optimization::Function; namespace TF = Ubitrack::Tracking::Function;
namespace ub = boost::numeric::ublas;
using UM::Quaternion; using UM::Pose;
typedef UM::Vector< double > VD; typedef UM::Matrix< double > MD;
typedef std::vector< double > SV;

/// derivative of g by Richardson-extrapolated central differences; err = estimate of its own error
template< class G > static DM diffOf( G g, const SV& x, int nOut, double h, DM& err )
{
    int n = x.size(); DM J = dm( nOut, n ); err = J;
    for ( int k = 0; k < n; k++ )
    {
        double hk = h * std::max( 1.0, std::fabs( x[ k ] ) ); SV d[ 3 ];
        for ( int s = 0; s < 3; s++ ) { SV a = x, b = x; double st = hk / ( 1 << s ); a[ k ] += st; b[ k ] -= st; SV fa = g( a ), fb = g( b ); d[ s ].resize( nOut ); for ( int i = 0; i < nOut; i++ ) d[ s ][ i ] = ( fa[ i ] - fb[ i ] ) / ( 2 * st ); }
        for ( int i = 0; i < nOut; i++ ) { double r0 = ( 4 * d[ 1 ][ i ] - d[ 0 ][ i ] ) / 3, r1 = ( 4 * d[ 2 ][ i ] - d[ 1 ][ i ] ) / 3; J[ i ][ k ] = ( 16 * r1 - r0 ) / 15; err[ i ][ k ] = std::fabs( r1 - r0 ); }
    }
    return J;
}
static void cmp( const std::string& key, const DM& got, const DM& want, const DM& err, double valScale, double tol, const std::string& m )
{
    double s = maxabs( want ), worst = 0; std::string at;
    if ( got.size() != want.size() || got[ 0 ].size() != want[ 0 ].size() ) { vh::fail( key, "shape " + m ); return; }
    for ( std::size_t i = 0; i < got.size(); i++ ) for ( std::size_t j = 0; j < got[ 0 ].size(); j++ )
    {
        double t = tol * ( s + 1e-3 * valScale ) + 10 * err[ i ][ j ] + 1e-9 * valScale + 1e-12, q = std::fabs( got[ i ][ j ] - want[ i ][ j ] ) / t;
        if ( !( q <= worst ) ) { worst = q; at = vh::fmt( "entry (%d,%d) is %.10g, derivative is %.10g ", int( i ), int( j ), got[ i ][ j ], want[ i ][ j ] ); }
    }
    vh::small( key, worst, 1, at + m );
}
template< class V > static SV sv( const V& v ) { return SV( v.begin(), v.end() ); }
static VD vd( const SV& s ) { VD v( s.size() ); for ( std::size_t i = 0; i < s.size(); i++ ) v( i ) = s[ i ]; return v; }
static double mx( const SV& v ) { double d = 0; for ( double x : v ) d = std::max( d, std::fabs( x ) ); return d; }

/// evaluate, jacobian and evaluateWithJacobian of F against differences of evaluate; columns [q0,q0+4) are
/// a unit quaternion whose derivative is compared in its tangent space only (q0 < 0: none)
template< class F > static void full( const std::string& key, const F& f, const SV& x, int nOut, int q0, const std::string& m, double tol = 1e-7, double h = 1e-3 )
{
    vh::ok( key + ".size", int( f.size() ) == nOut, vh::fmt( "%d instead of %d ", int( f.size() ), nOut ) + m );
    auto g = [ & ]( const SV& p ) { VD o( nOut ), in = vd( p ); for ( int i = 0; i < nOut; i++ ) o( i ) = 77; f.evaluate( o, in ); return sv( o ); };
    VD in = vd( x ), o2( nOut ); MD j1( nOut, x.size() ), j2( nOut, x.size() ); for ( int i = 0; i < nOut; i++ ) { o2( i ) = -5; for ( std::size_t k = 0; k < x.size(); k++ ) { j1( i, k ) = 33; j2( i, k ) = -44; } }
    SV v = g( x ); f.jacobian( in, j1 ); f.evaluateWithJacobian( o2, in, j2 );
    vh::ok( key + ".inputKept", sv( in ) == x, m );
    vh::ok( key + ".together", sv( o2 ) == v && maxdiff( fromM( j1 ), fromM( j2 ) ) == 0, m );
    DM err, J = diffOf( g, x, nOut, h, err ), G = fromM( j1 );
    if ( q0 >= 0 )
    {
        DM P = dm( x.size(), x.size() ); for ( std::size_t i = 0; i < x.size(); i++ ) for ( std::size_t k = 0; k < x.size(); k++ ) P[ i ][ k ] = ( i == k ) - ( int( i ) >= q0 && int( i ) < q0 + 4 && int( k ) >= q0 && int( k ) < q0 + 4 ? x[ i ] * x[ k ] : 0 );
        J = mul( J, P ); G = mul( G, P ); DM A = err; for ( auto& r : A ) { double s = 0; for ( double e : r ) s += e; for ( double& e : r ) e = s; } err = A;
    }
    cmp( key, G, J, err, mx( v ), tol, m );
}
static void push( SV& s, const V3& v ) { for ( int i = 0; i < 3; i++ ) s.push_back( v( i ) ); }
static void push( SV& s, const Quaternion& q ) { s.push_back( q.x() ); s.push_back( q.y() ); s.push_back( q.z() ); s.push_back( q.w() ); }
/// point list in front of the cameras and a pose parameter vector
struct Scene { std::vector< V3 > pts; Pose pose; SV x7; };
static Scene scene( Rng& r, bool structured )
{
    Scene s; s.pose = Pose( structured ? genQuat( r ) : uniQuat( r ), V3( r.uni( -1, 1 ), r.uni( -1, 1 ), r.uni( -8, -4 ) ) ); int n = r.in( 1, 6 );
    for ( int i = 0; i < n; i++ ) s.pts.push_back( r.coin( 0.2 ) ? genVec( r ) : uniVec( r ) );
    push( s.x7, s.pose.translation() ); push( s.x7, s.pose.rotation() ); return s;
}
static M33 genK( Rng& r ) { M33 k = M33::zeros(); k( 0, 0 ) = r.uni( 0.5, 3 ); k( 1, 1 ) = r.uni( 0.5, 3 ); k( 0, 1 ) = r.uni( -0.2, 0.2 ); k( 0, 2 ) = r.uni( -1, 1 ); k( 1, 2 ) = r.uni( -1, 1 ); k( 2, 2 ) = -1; return k; }

SECTION( "rotations", 3000, 60000 )
{
    V3 v = r.coin( 0.3 ) ? genVec( r ) : uniVec( r, r.logu( 0.1, 10 ) ); Quaternion q = genQuat( r ); SV xq; push( xq, q ); std::string m = str( q ) + str( v ); vh::sample( m );
    full( "QuaternionRotation", AF::QuaternionRotation< double >( v ), xq, 3, 0, m );
    { // value against reference
        VD o( 3 ); AF::QuaternionRotation< double >( v ).evaluate( o, vd( xq ) ); vh::small( "QuaternionRotation.value", dist( V3( o( 0 ), o( 1 ), o( 2 ) ), act( Pose( q, V3( 0, 0, 0 ) ), v ) ), 1e-13 * ( 1 + norm( v ) ), m );
    }
    { // error parameters: q * (e, sqrt(1-e^2)) * v
        MD J( 3, 3 ); AF::QuaternionRotationError< double > f( v ); f.jacobian( vd( xq ), J ); vh::ok( "QuaternionRotationError.size", f.size() == 3 );
        DM err, D = diffOf( [ & ]( const SV& e ) { double w = std::sqrt( 1 - e[ 0 ] * e[ 0 ] - e[ 1 ] * e[ 1 ] - e[ 2 ] * e[ 2 ] ); A3 a = refMatrix( q ) * ( refMatrix( e[ 0 ], e[ 1 ], e[ 2 ], w ) * toA3( v ) ); return SV( a.begin(), a.end() ); }, SV( 3, 0.0 ), 3, 1e-3, err );
        cmp( "QuaternionRotationError", fromM( J ), D, err, norm( v ), 1e-7, m );
    }
    { // logarithm
        A3 n = genAxis( r ); double a = r.coin( 0.15 ) ? 0 : r.coin( 0.3 ) ? r.logu( 1e-9, 1e-2 ) : r.uni( 0, 2 * PI - 0.1 ); SV x = { n[ 0 ] * a, n[ 1 ] * a, n[ 2 ] * a }; std::string mm = vh::fmt( "log angle %.17g ", a ) + str( v );
        double tol = 1e-7 + ( a >= 1e-6 ? 2e-15 / ( a * a ) : 2e-6 ); full( "LieRotation", AF::LieRotation< double >( v ), x, 3, -1, mm, tol, 1e-2 );
        VD o( 3 ); AF::LieRotation< double >( v ).evaluate( o, vd( x ) ); A3 w = rodrigues( n, a ) * toA3( v ); vh::small( "LieRotation.value", dist( V3( o( 0 ), o( 1 ), o( 2 ) ), toV3( w ) ), 1e-12 * ( 1 + norm( v ) ), mm );
    }
    { // quaternion and vector both variable
        OF::QuaternionVectorRotation f; MD jq( 3, 4 ), jv( 3, 3 ), jq2( 3, 4 ), jv2( 3, 3 ), none( 0, 0 ); VD o( 3 ), o2( 3 ), vv = vd( sv( v ) ), qq = vd( xq ); f.evaluateWithJacobian( o, qq, vv, jq, jv ); f.evaluate( o2, qq, vv ); f.jacobian( qq, vv, jq2, jv2 );
        vh::ok( "QuaternionVectorRotation.together", sv( o ) == sv( o2 ) && maxdiff( fromM( jq ), fromM( jq2 ) ) == 0 && maxdiff( fromM( jv ), fromM( jv2 ) ) == 0 && f.size() == 3, m );
        MD jq3( 3, 4 ), jv3( 3, 3 ); f.jacobian( qq, vv, jq3, none ); f.jacobian( qq, vv, none, jv3 ); vh::ok( "QuaternionVectorRotation.partial", maxdiff( fromM( jq ), fromM( jq3 ) ) == 0 && maxdiff( fromM( jv ), fromM( jv3 ) ) == 0, m );
        DM err, P = dm( 4, 4 ); for ( int i = 0; i < 4; i++ ) for ( int k = 0; k < 4; k++ ) P[ i ][ k ] = ( i == k ) - xq[ i ] * xq[ k ];
        DM D = diffOf( [ & ]( const SV& p ) { VD t( 3 ); f.evaluate( t, vd( p ), vv ); return sv( t ); }, xq, 3, 1e-3, err ); cmp( "QuaternionVectorRotation.q", mul( fromM( jq ), P ), mul( D, P ), dm( 3, 4, maxabs( err ) ), norm( v ), 1e-7, m );
        D = diffOf( [ & ]( const SV& p ) { VD t( 3 ); f.evaluate( t, qq, vd( p ) ); return sv( t ); }, sv( v ), 3, 1e-3, err ); cmp( "QuaternionVectorRotation.v", fromM( jv ), D, err, norm( v ), 1e-7, m );
        vh::small( "QuaternionVectorRotation.value", dist( V3( o( 0 ), o( 1 ), o( 2 ) ), act( Pose( q, V3( 0, 0, 0 ) ), v ) ), 1e-13 * ( 1 + norm( v ) ), m );
    }
    { // hand-eye: a x - x b
        Quaternion a = uniQuat( r ), b = uniQuat( r ); AF::RotHecMeasurement f( a, b ); VD o( 4 ); MD J( 4, 4 ); f.evaluateWithJacobian( o, vd( xq ), J );
        auto qm = []( const SV& a, const SV& b ) { return SV{ a[ 3 ] * b[ 0 ] + a[ 0 ] * b[ 3 ] + a[ 1 ] * b[ 2 ] - a[ 2 ] * b[ 1 ], a[ 3 ] * b[ 1 ] - a[ 0 ] * b[ 2 ] + a[ 1 ] * b[ 3 ] + a[ 2 ] * b[ 0 ], a[ 3 ] * b[ 2 ] + a[ 0 ] * b[ 1 ] - a[ 1 ] * b[ 0 ] + a[ 2 ] * b[ 3 ], a[ 3 ] * b[ 3 ] - a[ 0 ] * b[ 0 ] - a[ 1 ] * b[ 1 ] - a[ 2 ] * b[ 2 ] }; };
        SV sa, sb; push( sa, a ); push( sb, b ); auto g = [ & ]( const SV& a_, const SV& x_, const SV& b_ ) { SV p = qm( a_, x_ ), s = qm( x_, b_ ); for ( int i = 0; i < 4; i++ ) p[ i ] -= s[ i ]; return p; };
        SV w = g( sa, xq, sb ); double d = 0; for ( int i = 0; i < 4; i++ ) d = std::max( d, std::fabs( w[ i ] - o( i ) ) ); vh::small( "RotHecMeasurement.value", d, 1e-14, m );
        DM err, D = diffOf( [ & ]( const SV& x ) { return g( sa, x, sb ); }, xq, 4, 1e-3, err ); cmp( "RotHecMeasurement", fromM( J ), D, err, 1, 1e-8, m );
        MD ja( 4, 4 ), jb( 4, 4 ); AF::RotHecCombine( q ).jacobian( vd( sa ), vd( sb ), ja, jb );
        D = diffOf( [ & ]( const SV& x ) { return g( x, xq, sb ); }, sa, 4, 1e-3, err ); cmp( "RotHecCombine.a", fromM( ja ), D, err, 1, 1e-8, m );
        D = diffOf( [ & ]( const SV& x ) { return g( sa, xq, x ); }, sb, 4, 1e-3, err ); cmp( "RotHecCombine.b", fromM( jb ), D, err, 1, 1e-8, m );
    }
}
SECTION( "vectors", 2000, 40000 )
{
    { int n = r.in( 1, 7 ); SV x( n ); double s = r.logu( 0.01, 100 ); for ( double& d : x ) d = r.sgn() * r.uni( 0.1, 1 ) * s; full( "VectorNormalize", OF::VectorNormalize( n ), x, n, -1, vh::fmt( "size %d scale %g", n, s ), 1e-6, 1e-3 * std::min( 1.0, s ) ); vh::sample( vh::fmt( "normalise %d-vector of scale %g", n, s ) ); }
    { SV x = { r.uni( -2, 2 ), r.uni( -2, 2 ), r.sgn() * r.uni( 0.5, 5 ) }; full( "Dehomogenization3", AF::Dehomogenization< 3 >(), x, 2, -1, "" ); x.push_back( r.sgn() * r.uni( 0.5, 5 ) ); full( "Dehomogenization4", AF::Dehomogenization< 4 >(), x, 3, -1, "" ); SV y = { r.uni( -2, 2 ), r.uni( 1, 3 ) }; full( "Dehomogenization2", AF::Dehomogenization< 2 >(), y, 1, -1, "" ); }
    { UM::Matrix< double, 2, 5 > A; for ( int i = 0; i < 2; i++ ) for ( int k = 0; k < 5; k++ ) A( i, k ) = r.uni( -2, 2 ); SV x( 5 ); for ( double& d : x ) d = r.uni( -3, 3 ); full( "LinearFunction", OF::LinearFunction< 2, 5, double >( A ), x, 2, -1, "" ); }
    { V2 p( r.uni( -1, 1 ), r.uni( -1, 1 ) ); SV x( 5 ); for ( double& d : x ) d = r.uni( -3, 3 ); AF::CameraIntrinsicsMultiplication< double > f( p ); full( "CameraIntrinsicsMultiplication", f, x, 2, -1, str( p ) ); VD o( 2 ); f.evaluate( o, vd( x ) ); vh::small( "CameraIntrinsicsMultiplication.value", std::fabs( o( 0 ) + x[ 0 ] * p( 0 ) + x[ 1 ] * p( 1 ) + x[ 2 ] ) + std::fabs( o( 1 ) + x[ 3 ] * p( 1 ) + x[ 4 ] ), 1e-13 ); }
    { V4 d( r.uni( -0.5, 0.5 ), r.uni( -0.5, 0.5 ), r.uni( -0.2, 0.2 ), r.uni( -0.2, 0.2 ) ); V2 p( r.uni( -1, 1 ), r.uni( -1, 1 ) ); SV xp = sv( p ), xd = sv( d );
      full( "RadialDistortionWrtP", AF::RadialDistortionWrtP< double >( d ), xp, 2, -1, str( p ) ); full( "RadialDistortionWrtD", AF::RadialDistortionWrtD< double >( p ), xd, 2, -1, str( p ) ); }
    { UM::Vector< double, 6 > k; for ( int i = 0; i < 6; i++ ) k( i ) = r.uni( -0.3, 0.3 ); V2 t( r.uni( -0.1, 0.1 ), r.uni( -0.1, 0.1 ) ), p( r.uni( -0.8, 0.8 ), r.uni( -0.8, 0.8 ) ); full( "PointUndistortion", UA::CameraLens::internal::PointUndistortion< double >( k, t ), sv( p ), 2, -1, str( p ), 1e-6 ); }
    { // the discrete approximation approximates the derivative to its documented step width
        V4 d( r.uni( -0.5, 0.5 ), r.uni( -0.5, 0.5 ), r.uni( -0.2, 0.2 ), r.uni( -0.2, 0.2 ) ); V2 p( r.coin( 0.2 ) ? 0 : r.uni( -1, 1 ), r.uni( -1, 1 ) ); AF::RadialDistortionWrtP< double > f( d ); OF::DiscreteJacobianApproximation< AF::RadialDistortionWrtP< double > > a( f, 1e-5 ); VD o( 2 ), o2( 2 ), in = vd( sv( p ) ); MD J( 2, 2 ), K( 2, 2 ), K2( 2, 2 ); f.evaluateWithJacobian( o, in, J ); a.evaluateWithJacobian( o2, in, K ); a.jacobian( in, K2 ); vh::ok( "Discrete.value", sv( o ) == sv( o2 ) && a.size() == 2 && maxdiff( fromM( K ), fromM( K2 ) ) == 0 ); vh::small( "Discrete", maxdiff( fromM( J ), fromM( K ) ), 1e-3, str( p ) );
    }
}
SECTION( "projection", 1500, 30000 )
{
    Scene s = scene( r, r.coin() ); M33 K = genK( r ); int n = s.pts.size(); std::string m = str( s.pose ) + vh::fmt( " %d points", n ); vh::sample( m );
    AF::MultiplePointProjection< double > f( s.pts, K ); full( "MultiplePointProjection", f, s.x7, 2 * n, 3, m );
    auto refp = [ & ]( const Pose& p, const M34& P, const V3& x ) { V3 y = act( p, x ); double h[ 3 ]; for ( int i = 0; i < 3; i++ ) h[ i ] = P( i, 0 ) * y( 0 ) + P( i, 1 ) * y( 1 ) + P( i, 2 ) * y( 2 ) + P( i, 3 ); return V2( h[ 0 ] / h[ 2 ], h[ 1 ] / h[ 2 ] ); };
    M34 PK = M34::zeros(); for ( int i = 0; i < 3; i++ ) for ( int k = 0; k < 3; k++ ) PK( i, k ) = K( i, k );
    { VD o( 2 * n ); f.evaluate( o, vd( s.x7 ) ); for ( int i = 0; i < n; i++ ) vh::small( "MultiplePointProjection.value", dist( V2( o( 2 * i ), o( 2 * i + 1 ) ), refp( s.pose, PK, s.pts[ i ] ) ), 1e-12, m ); }
    auto pert = [ & ]( const SV& e ) { double w = std::sqrt( 1 - e[ 3 ] * e[ 3 ] - e[ 4 ] * e[ 4 ] - e[ 5 ] * e[ 5 ] ); Quaternion q( s.pose.rotation() ), d( e[ 3 ], e[ 4 ], e[ 5 ], w ); Quaternion p( q.w() * d.x() + q.x() * d.w() + q.y() * d.z() - q.z() * d.y(), q.w() * d.y() - q.x() * d.z() + q.y() * d.w() + q.z() * d.x(), q.w() * d.z() + q.x() * d.y() - q.y() * d.x() + q.z() * d.w(), q.w() * d.w() - q.x() * d.x() - q.y() * d.y() - q.z() * d.z() ); return Pose( p, V3( s.pose.translation()( 0 ) + e[ 0 ], s.pose.translation()( 1 ) + e[ 1 ], s.pose.translation()( 2 ) + e[ 2 ] ) ); };
    { AF::MultiplePointProjectionError< double > g( s.pts, K ); MD J( 2 * n, 6 ); g.jacobian( vd( s.x7 ), J ); vh::ok( "MultiplePointProjectionError.size", int( g.size() ) == 2 * n );
      DM err, D = diffOf( [ & ]( const SV& e ) { SV o; Pose p = pert( e ); for ( auto& x : s.pts ) { V2 y = refp( p, PK, x ); o.push_back( y( 0 ) ); o.push_back( y( 1 ) ); } return o; }, SV( 6, 0.0 ), 2 * n, 1e-3, err ); cmp( "MultiplePointProjectionError", fromM( J ), D, err, 5, 1e-7, m ); }
    // several cameras with visibilities
    int nc = r.in( 1, 4 ); std::vector< M34 > cams; std::vector< Pose > cp; std::vector< M33 > ci, cr; std::vector< V4 > cd; std::vector< V3 > ct;
    for ( int c = 0; c < nc; c++ )
    {
        Pose p( refQuat( genAxis( r ), r.uni( -0.3, 0.3 ) ), uniVec( r, 0.5 ) ); M33 k = genK( r ); cp.push_back( p ); ci.push_back( k ); cd.push_back( V4( r.uni( -0.2, 0.2 ), r.uni( -0.2, 0.2 ), r.uni( -0.1, 0.1 ), r.uni( -0.1, 0.1 ) ) ); cr.push_back( M33( p.rotation() ) ); ct.push_back( p.translation() );
        M34 P; R3 R = refMatrix( p.rotation() ); for ( int i = 0; i < 3; i++ ) for ( int j = 0; j < 4; j++ ) { double v = 0; for ( int l = 0; l < 3; l++ ) v += k( i, l ) * ( j < 3 ? R.m[ l ][ j ] : p.translation()( l ) ); P( i, j ) = v; } cams.push_back( P );
    }
    std::vector< std::pair< std::size_t, std::size_t > > vis; std::vector< std::pair< unsigned, unsigned > > visu; for ( int i = 0; i < n; i++ ) for ( int c = 0; c < nc; c++ ) if ( r.coin( 0.7 ) ) { vis.push_back( std::make_pair( i, c ) ); visu.push_back( std::make_pair( i, c ) ); }
    if ( vis.empty() ) { vis.push_back( std::make_pair( 0, 0 ) ); visu.push_back( std::make_pair( 0u, 0u ) ); } int nv = vis.size();
    full( "MultipleCameraProjection", AF::MultipleCameraProjection< double >( s.pts, cp, ci, cd, vis ), s.x7, 2 * nv, 3, m );
    { AF::MultipleCameraProjectionError< double > g( s.pts, cams, vis ); MD J( 2 * nv, 6 ); g.jacobian( vd( s.x7 ), J ); vh::ok( "MultipleCameraProjectionError.size", int( g.size() ) == 2 * nv );
      DM err, D = diffOf( [ & ]( const SV& e ) { SV o; Pose p = pert( e ); for ( auto& v : vis ) { V2 y = refp( p, cams[ v.second ], s.pts[ v.first ] ); o.push_back( y( 0 ) ); o.push_back( y( 1 ) ); } return o; }, SV( 6, 0.0 ), 2 * nv, 1e-3, err ); cmp( "MultipleCameraProjectionError", fromM( J ), D, err, 5, 1e-7, m ); }
    { // translation plus rotation (world axes) about the centre of gravity
        V3 cog = uniVec( r ); A3 ax = genAxis( r ); double an = r.uni( 0.1, 3 ); Pose p( refQuat( ax, an ), s.pose.translation() ); SV x; push( x, p.translation() ); for ( int i = 0; i < 3; i++ ) x.push_back( ax[ i ] * an );
        AF::MultipleCameraProjectionErrorART< double > g( s.pts, cams, visu, cog ); MD J( 2 * nv, 6 ); g.jacobian( vd( x ), J ); R3 R = rodrigues( ax, an );
        DM err, D = diffOf( [ & ]( const SV& e ) { SV o; A3 w = { { e[ 3 ], e[ 4 ], e[ 5 ] } }; double a = norm( w ); A3 u = a > 0 ? A3{ { w[ 0 ] / a, w[ 1 ] / a, w[ 2 ] / a } } : A3{ { 1, 0, 0 } }; R3 E = rodrigues( u, a ); A3 rc = R * toA3( cog );
            for ( auto& v : vis ) { V3 q = s.pts[ v.first ]; A3 d = E * ( R * A3{ { q( 0 ) - cog( 0 ), q( 1 ) - cog( 1 ), q( 2 ) - cog( 2 ) } } ); V3 y( d[ 0 ] + rc[ 0 ] + x[ 0 ] + e[ 0 ], d[ 1 ] + rc[ 1 ] + x[ 1 ] + e[ 1 ], d[ 2 ] + rc[ 2 ] + x[ 2 ] + e[ 2 ] ); V2 z = refp( Pose( Quaternion( 0, 0, 0, 1 ), V3( 0, 0, 0 ) ), cams[ v.second ], y ); o.push_back( z( 0 ) ); o.push_back( z( 1 ) ); } return o; }, SV( 6, 0.0 ), 2 * nv, 1e-3, err );
        cmp( "MultipleCameraProjectionErrorART", fromM( J ), D, err, 5, 1e-7, m );
    }
    { // composed function of the multi camera pose optimisation (translation, rotation logarithm)
        A3 ax = genAxis( r ); double an = r.coin( 0.1 ) ? 0 : r.uni( 0.01, 3 ); SV x; push( x, s.pose.translation() ); for ( int i = 0; i < 3; i++ ) x.push_back( ax[ i ] * an ); Pose p( refQuat( ax, an ), s.pose.translation() );
        UA::ObjectiveFunction< double > g( s.pts, cr, ct, ci, vis ); VD o( 2 * nv ); MD J( 2 * nv, 6 ); g.evaluateWithJacobian( o, vd( x ), J ); vh::ok( "ObjectiveFunction.size", int( g.size() ) == 2 * nv );
        for ( int i = 0; i < nv; i++ ) vh::small( "ObjectiveFunction.value", dist( V2( o( 2 * i ), o( 2 * i + 1 ) ), refp( p, cams[ vis[ i ].second ], s.pts[ vis[ i ].first ] ) ), 1e-11, m );
        DM err, D = diffOf( [ & ]( const SV& e ) { VD t( 2 * nv ); MD K2( 2 * nv, 6 ); g.evaluateWithJacobian( t, vd( e ), K2 ); return sv( t ); }, x, 2 * nv, 1e-3, err ); cmp( "ObjectiveFunction", fromM( J ), D, err, 5, 1e-6, m );
    }
    { // one point in several projection matrices
        V3 y = act( s.pose, s.pts[ 0 ] ); typedef std::vector< M34 >::const_iterator It; AF::SinglePointMultiProjection< double, It > g( cams.begin(), cams.end() ); SV x; push( x, y ); full( "SinglePointMultiProjection", g, x, 2 * nc, -1, m );
        VD o( 2 * nc ); g.evaluate( o, vd( x ) ); for ( int c = 0; c < nc; c++ ) vh::small( "SinglePointMultiProjection.value", dist( V2( o( 2 * c ), o( 2 * c + 1 ) ), refp( Pose( Quaternion( 0, 0, 0, 1 ), V3( 0, 0, 0 ) ), cams[ c ], y ) ), 1e-11, m );
    }
}
SECTION( "points", 1500, 30000 )
{
    Scene s = scene( r, r.coin() ); int n = s.pts.size(); std::string m = str( s.pose ); vh::sample( m ); typedef std::vector< V3 >::const_iterator It;
    UA::PoseEstimation3D3D::PointCorrespodencesSinglePose< It > f( s.pts.begin(), s.pts.end() ); full( "PointCorrespodencesSinglePose", f, s.x7, 3 * n, 3, m );
    { VD o( 3 * n ); f.evaluate( o, vd( s.x7 ) ); for ( int i = 0; i < n; i++ ) vh::small( "PointCorrespodencesSinglePose.value", dist( V3( o( 3 * i ), o( 3 * i + 1 ), o( 3 * i + 2 ) ), act( s.pose, s.pts[ i ] ) ), 1e-13 * 20, m ); }
    { UA::PoseEstimation3D3D::Function::MultiplePointTransformationError< It > g( s.pts.begin(), s.pts.end() ); MD J( 3 * n, 6 ); g.jacobian( vd( s.x7 ), J ); vh::ok( "MultiplePointTransformationError.size", int( g.size() ) == 3 * n );
      DM err, D = diffOf( [ & ]( const SV& e ) { SV o; double w = std::sqrt( 1 - e[ 3 ] * e[ 3 ] - e[ 4 ] * e[ 4 ] - e[ 5 ] * e[ 5 ] ); for ( auto& p : s.pts ) { A3 a = refMatrix( s.pose.rotation() ) * ( refMatrix( e[ 3 ], e[ 4 ], e[ 5 ], w ) * toA3( p ) ); for ( int i = 0; i < 3; i++ ) o.push_back( a[ i ] + e[ i ] ); } return o; }, SV( 6, 0.0 ), 3 * n, 1e-3, err ); cmp( "MultiplePointTransformationError", fromM( J ), D, err, 3, 1e-7, m ); }
    { // distance of a rotated tool tip from a fixed point
        std::vector< Pose > poses; int k = r.in( 1, 6 ); for ( int i = 0; i < k; i++ ) poses.push_back( Pose( genQuat( r ), genVec( r ) ) ); typedef std::vector< Pose >::const_iterator Ip; UA::ToolTip::MultiplePoseSinglePointTransformation< Ip > g( poses.begin(), poses.end() );
        V3 pm = genVec( r ), pw; if ( r.coin( 0.3 ) ) { pw = act( poses[ 0 ], pm ); int c = r.in( 0, 2 ); pw( c ) += 2; pw( ( c + 1 ) % 3 ) += r.coin() ? 1 : 0; } else pw = uniVec( r, 3 ) + V3( 0, 0, 4 ); bool far = true; for ( auto& p : poses ) far = far && dist( act( p, pm ), pw ) > 0.2;
        SV x; push( x, pw ); push( x, pm ); if ( far ) full( "ToolTipDistance", g, x, k, -1, str( pm ) + str( pw ), 1e-6 );
        { VD o( k ); g.evaluate( o, vd( x ) ); for ( int i = 0; i < k; i++ ) vh::small( "ToolTipDistance.value", o( i ) - dist( act( poses[ i ], pm ), pw ), 1e-13 * 20 ); }
        // at the solution itself (all residuals zero) the Jacobian has to stay finite
        V3 w0 = poses[ 0 ] * pm; SV x0; push( x0, w0 ); push( x0, pm ); MD J( k, 6 ); g.jacobian( vd( x0 ), J ); bool fin = true; for ( int i = 0; i < k; i++ ) for ( int c = 0; c < 6; c++ ) fin = fin && std::isfinite( J( i, c ) ); vh::ok( "ToolTipDistance.finite", fin, str( poses[ 0 ] ) + str( pm ) );
    }
}
SECTION( "timeUpdates", 3000, 60000 )
{
    double dt = r.coin( 0.1 ) ? 0 : r.coin( 0.3 ) ? r.logu( 1e-4, 1 ) : r.uni( 0.001, 0.1 ); double sp = r.logu( 1e-4, 5 );
    auto only = [ & ]( const std::string& key, auto f, const SV& x, int nOut, int q0, double approx, const std::string& m )
    {   // functions with evaluateWithJacobian only; approx = allowed absolute deviation of the linearisation
        int n = x.size(); auto g = [ & ]( const SV& p ) { VD o( nOut ); MD J( nOut, n ); SV pp = p; if ( q0 >= 0 ) { double l = 0; for ( int i = 0; i < 4; i++ ) l += p[ q0 + i ] * p[ q0 + i ]; l = std::sqrt( l ); for ( int i = 0; i < 4; i++ ) pp[ q0 + i ] /= l; } f.evaluateWithJacobian( o, vd( pp ), J ); return sv( o ); };
        VD o( nOut ); MD J( nOut, n ); for ( int i = 0; i < nOut; i++ ) for ( int k = 0; k < n; k++ ) J( i, k ) = 1e9; f.evaluateWithJacobian( o, vd( x ), J ); DM G = fromM( J ), err, D = diffOf( g, x, nOut, 1e-3, err );
        if ( q0 >= 0 ) { DM P = dm( n, n ); for ( int i = 0; i < n; i++ ) for ( int k = 0; k < n; k++ ) P[ i ][ k ] = ( i == k ) - ( i >= q0 && i < q0 + 4 && k >= q0 && k < q0 + 4 ? x[ i ] * x[ k ] : 0 ); G = mul( G, P ); D = mul( D, P ); }
        for ( auto& e : err ) for ( double& y : e ) y += approx / 10; cmp( key, G, D, err, mx( sv( o ) ), 1e-7, m );
    };
    std::string m = vh::fmt( "dt %.6g speed %.6g", dt, sp ); vh::sample( m );
    { int sz = r.in( 1, 4 ), ord = r.in( 0, 3 ); SV x( sz * ( ord + 1 ) ); for ( double& d : x ) d = r.uni( -2, 2 ); only( "LinearTimeUpdate", TF::LinearTimeUpdate( dt, sz, ord ), x, sz, -1, 0, m );
      VD o( sz ); MD J( sz, sz * ( ord + 1 ) ); TF::LinearTimeUpdate( dt, sz, ord ).evaluateWithJacobian( o, vd( x ), J ); for ( int i = 0; i < sz; i++ ) { double w = 0, t = 1; for ( int k = 0; k <= ord; k++ ) { w += t * x[ k * sz + i ]; t *= dt / ( k + 1 ); } vh::near_( "LinearTimeUpdate.value", o( i ), w, 1e-13 * 10, m ); } }
    Quaternion q = r.coin( 0.3 ) ? genQuat( r ) : uniQuat( r ); A3 n = genAxis( r ); SV x; push( x, q ); for ( int i = 0; i < 3; i++ ) x.push_back( n[ i ] * sp ); double ang = sp * dt;
    if ( ang < 1 )
    {   // documented as a linearisation for small rotations per step
        auto block = [ & ]( const std::string& key, auto f, int nOut, const SV& xx, int q0, int v0, double blow )
        {   // quaternion columns: deviation of first order in the angle; velocity columns: dt times first order
            int nn = xx.size(); auto g = [ & ]( const SV& p ) { VD o( nOut ); MD J( nOut, nn ); f.evaluateWithJacobian( o, vd( p ), J ); return sv( o ); };
            VD o( nOut ); MD J( nOut, nn ); for ( int i = 0; i < nOut; i++ ) for ( int k = 0; k < nn; k++ ) J( i, k ) = 1e9; f.evaluateWithJacobian( o, vd( xx ), J ); DM G = fromM( J ), err, D = diffOf( g, xx, nOut, 1e-3, err ), P = dm( nn, nn );
            for ( int i = 0; i < nn; i++ ) for ( int k = 0; k < nn; k++ ) P[ i ][ k ] = ( i == k ) - ( q0 >= 0 && i >= q0 && i < q0 + 4 && k >= q0 && k < q0 + 4 ? xx[ i ] * xx[ k ] : 0 ); G = mul( G, P ); D = mul( D, P );
            double worst = 0; std::string at; for ( int i = 0; i < nOut; i++ ) for ( int k = 0; k < nn; k++ ) { double tol = 1e-8 * blow + ( k >= v0 && k < v0 + 3 ? dt * ( ang + 1e-6 ) : k >= q0 && k < q0 + 4 && q0 >= 0 ? ang : 0 ) * blow + 20 * err[ i ][ k ], e = std::fabs( G[ i ][ k ] - D[ i ][ k ] ) / tol; if ( !( e <= worst ) ) { worst = e; at = vh::fmt( "entry (%d,%d) is %.10g, derivative %.10g ", i, k, G[ i ][ k ], D[ i ][ k ] ); } }
            vh::small( key, worst, 1, at + m );
        };
        block( "QuaternionTimeUpdate", TF::QuaternionTimeUpdate( dt, 1 ), 4, x, 0, 4, 1.5 );
        { VD o( 4 ); MD J( 4, 7 ); TF::QuaternionTimeUpdate( dt, 1 ).evaluateWithJacobian( o, vd( x ), J ); R3 w = refMatrix( q ) * rodrigues( n, ang ); vh::small( "QuaternionTimeUpdate.value", diff( refMatrix( o( 0 ), o( 1 ), o( 2 ), o( 3 ) ), w ), 1e-12, m ); vh::small( "QuaternionTimeUpdate.unit", std::sqrt( o( 0 ) * o( 0 ) + o( 1 ) * o( 1 ) + o( 2 ) * o( 2 ) + o( 3 ) * o( 3 ) ) - 1, 1e-13, m ); }
        { SV v = { n[ 0 ] * sp, n[ 1 ] * sp, n[ 2 ] * sp }; OF::RotationVelocityIntegration f( dt ); block( "RotationVelocityIntegration", f, 4, v, -1, 0, 1.5 ); VD o( 4 ), o2( 4 ); MD J( 4, 3 ), J2( 4, 3 ); f.evaluate( o, vd( v ) ); f.evaluateWithJacobian( o2, vd( v ), J ); f.jacobian( vd( v ), J2 ); vh::ok( "RotationVelocityIntegration.together", sv( o ) == sv( o2 ) && maxdiff( fromM( J ), fromM( J2 ) ) == 0 && f.size() == 4 ); }
        int po = r.in( 0, 2 ); { SV y; for ( int i = 0; i < 3 * ( po + 1 ); i++ ) y.push_back( r.uni( -2, 2 ) ); int rs = y.size(); y.insert( y.end(), x.begin(), x.end() ); vh::ok( "PoseTimeUpdate.size", TF::PoseTimeUpdate( dt, po, 1 ).size() == y.size() ); block( "PoseTimeUpdate", TF::PoseTimeUpdate( dt, po, 1 ), y.size(), y, rs, rs + 4, 1.5 ); }
        int io = r.in( 0, 1 ); { SV y; for ( int i = 0; i < 3 * ( io + 1 ); i++ ) y.push_back( r.uni( -1, 1 ) ); int rs = y.size(); y.insert( y.end(), x.begin(), x.end() ); vh::ok( "InsideOutPoseTimeUpdate.size", TF::InsideOutPoseTimeUpdate( dt, io ).size() == y.size() ); block( "InsideOutPoseTimeUpdate", TF::InsideOutPoseTimeUpdate( dt, io ), y.size(), y, rs, rs + 4, 12 ); }
    }
    { // value of the velocity integration at any angle
        SV v = { n[ 0 ] * sp, n[ 1 ] * sp, n[ 2 ] * sp }; double d2 = dt * r.logu( 0.1, 30 ); VD o( 4 ); OF::RotationVelocityIntegration( d2 ).evaluate( o, vd( v ) ); vh::small( "RotationVelocityIntegration.unit", std::sqrt( o( 0 ) * o( 0 ) + o( 1 ) * o( 1 ) + o( 2 ) * o( 2 ) + o( 3 ) * o( 3 ) ) - 1, 1e-13, m + vh::fmt( " d2 %g", d2 ) ); vh::small( "RotationVelocityIntegration.value", diff( refMatrix( o( 0 ), o( 1 ), o( 2 ), o( 3 ) ), rodrigues( n, sp * d2 ) ), 1e-12, m + vh::fmt( " d2 %g", d2 ) );
    }
    { only( "InvertRotationVelocity", TF::InvertRotationVelocity(), x, 3, 0, 0, m ); VD o( 3 ); MD J( 3, 7 ); TF::InvertRotationVelocity().evaluateWithJacobian( o, vd( x ), J ); A3 w = refMatrix( q ) * A3{ { -x[ 4 ], -x[ 5 ], -x[ 6 ] } }; vh::small( "InvertRotationVelocity.value", dist( V3( o( 0 ), o( 1 ), o( 2 ) ), toV3( w ) ), 1e-13 * ( 1 + sp ), m ); }
    { // pose update without rotation state
        int po = r.in( 0, 3 ); SV y; for ( int i = 0; i < 3 * ( po + 1 ); i++ ) y.push_back( r.uni( -2, 2 ) ); TF::PoseTimeUpdate f( dt, po, -1 ); vh::ok( "PoseTimeUpdate.sizeNoRot", f.size() == y.size() ); only( "PoseTimeUpdate.noRot", f, y, y.size(), -1, 0, m );
    }
}
SECTION( "composed", 1500, 30000 )
{   // differently nested compositions of the function building blocks
    UM::Matrix< double, 3, 3 > A; for ( int i = 0; i < 3; i++ ) for ( int k = 0; k < 3; k++ ) A( i, k ) = r.uni( -1, 1 ); V3 c = uniVec( r ), pt = uniVec( r ); UM::Matrix< double, 2, 3 > B; for ( int i = 0; i < 2; i++ ) for ( int k = 0; k < 3; k++ ) B( i, k ) = r.uni( -1, 1 );
    SV x( 9 ); for ( double& d : x ) d = r.uni( -1, 1 ); std::string m = str( pt ); vh::sample( m );
    auto run = [ & ]( const std::string& key, auto mk, int nOut )
    {
        auto g = [ & ]( const SV& p ) { VD in = vd( p ), o( nOut ); mk().evaluate( in, o ); return sv( o ); }; VD in = vd( x ), o( nOut ); MD J = MD::zeros( nOut, 9 ), K = MD::zeros( nOut, 9 ); mk().evaluateWithJacobian( in, o, J ); mk().jacobian( in, K );
        vh::ok( key + ".together", sv( o ) == g( x ) && maxdiff( fromM( J ), fromM( K ) ) == 0 && int( mk().size() ) == nOut, m ); DM err, D = diffOf( g, x, nOut, 1e-3, err ); cmp( key, fromM( J ), D, err, mx( sv( o ) ), 1e-6, m ); return o;
    };
    VD o = run( "add", [ & ] { return OF::Addition< 3 >() << OF::parameter< 3 >( 0 ) << OF::parameter< 3 >( 3 ); }, 3 ); for ( int i = 0; i < 3; i++ ) vh::near_( "add.value", o( i ), x[ i ] + x[ 3 + i ], 1e-15 );
    o = run( "sub", [ & ] { return OF::Subtraction< 3 >() << OF::parameter< 3 >( 6 ) << OF::fixedParameterRef< 3 >( c ); }, 3 ); for ( int i = 0; i < 3; i++ ) vh::near_( "sub.value", o( i ), x[ 6 + i ] - c( i ), 1e-15 );
    o = run( "subParam", [ & ] { return OF::Subtraction< 3 >() << OF::parameter< 3 >( 6 ) << OF::parameter< 3 >( 3 ); }, 3 ); for ( int i = 0; i < 3; i++ ) vh::near_( "subParam.value", o( i ), x[ 6 + i ] - x[ 3 + i ], 1e-15 );
    o = run( "linear", [ & ] { return OF::LinearTransformation< 2, 3 >( B ) << ( OF::Addition< 3 >() << OF::parameter< 3 >( 3 ) << ( OF::LinearTransformation< 3, 3 >( A ) << OF::parameter< 3 >( 6 ) ) ); }, 2 );
    { double w[ 3 ]; for ( int i = 0; i < 3; i++ ) { w[ i ] = x[ 3 + i ]; for ( int k = 0; k < 3; k++ ) w[ i ] += A( i, k ) * x[ 6 + k ]; } for ( int i = 0; i < 2; i++ ) vh::near_( "linear.value", o( i ), B( i, 0 ) * w[ 0 ] + B( i, 1 ) * w[ 1 ] + B( i, 2 ) * w[ 2 ], 1e-14 ); }
    o = run( "lie", [ & ] { return OF::LieRotation() << OF::parameter< 3 >( 0 ) << OF::parameter< 3 >( 6 ); }, 3 );
    { A3 w = { { x[ 0 ], x[ 1 ], x[ 2 ] } }; double a = norm( w ); A3 v = rodrigues( A3{ { w[ 0 ] / a, w[ 1 ] / a, w[ 2 ] / a } }, a ) * A3{ { x[ 6 ], x[ 7 ], x[ 8 ] } }; for ( int i = 0; i < 3; i++ ) vh::near_( "lie.value", o( i ), v[ i ], 1e-13 ); }
    x[ 8 ] = 3 + std::fabs( x[ 8 ] );
    run( "project", [ & ] { return OF::Dehomogenization< 3 >() << ( OF::Addition< 3 >() << OF::parameter< 3 >( 6 ) << ( OF::LieRotation() << OF::parameter< 3 >( 0 ) << OF::fixedParameterCopy< 3 >( pt ) ) ); }, 2 );
    run( "nested", [ & ] { return OF::Addition< 3 >() << ( OF::LieRotation() << OF::parameter< 3 >( 3 ) << OF::fixedParameterRef< 3 >( pt ) ) << ( OF::LieRotation() << OF::parameter< 3 >( 0 ) << ( OF::Subtraction< 3 >() << OF::fixedParameterRef< 3 >( c ) << OF::parameter< 3 >( 6 ) ) ); }, 3 );
}
SECTION( "bundle", 400, 8000 )
{
    UA::BundleAdjustmentNetwork< double > net; int np = r.in( 1, 4 ), ni = r.in( 1, 3 ), nc = r.in( 1, 2 ), nb = r.in( 1, 2 ), nbp = r.in( 1, 3 ); net.bEstimateIntrinsics = r.coin();
    for ( int i = 0; i < np; i++ ) net.points.push_back( uniVec( r ) ); for ( int i = 0; i < nbp; i++ ) net.bodyPoses.push_back( Pose( refQuat( genAxis( r ), r.uni( 0.05, 2.5 ) ), uniVec( r, 0.5 ) ) );
    for ( int i = 0; i < ni; i++ ) net.images.push_back( Pose( refQuat( genAxis( r ), r.uni( 0.05, 2.5 ) ), V3( r.uni( -0.5, 0.5 ), r.uni( -0.5, 0.5 ), r.uni( -9, -6 ) ) ) );
    for ( int i = 0; i < nc; i++ ) { net.intrinsics.push_back( genK( r ) ); net.distortions.push_back( V4( r.uni( -0.2, 0.2 ), r.uni( -0.2, 0.2 ), r.uni( -0.1, 0.1 ), r.uni( -0.1, 0.1 ) ) ); }
    for ( int b = 0; b < nb; b++ ) { std::vector< V3 > l; for ( int i = r.in( 1, 3 ); i > 0; i-- ) l.push_back( uniVec( r ) ); net.bodies.push_back( l ); }
    for ( int i = r.in( 1, 4 ); i > 0; i-- ) { UA::BundleAdjustmentNetwork< double >::FreePointMeasurement f; f.iPoint = r.in( 0, np - 1 ); f.iCamera = r.in( 0, nc - 1 ); f.iImage = r.in( 0, ni - 1 ); f.measurement = V2( r.u01(), r.u01() ); net.freePointMeasurements.push_back( f ); }
    for ( int i = r.in( 0, 4 ); i > 0; i-- ) { UA::BundleAdjustmentNetwork< double >::BodyPointMeasurement f; f.iBody = r.in( 0, nb - 1 ); f.iBodyPose = r.in( 0, nbp - 1 ); f.iPoint = r.in( 0, net.bodies[ f.iBody ].size() - 1 ); f.iCamera = r.in( 0, nc - 1 ); f.iImage = r.in( 0, ni - 1 ); f.measurement = V2( r.u01(), r.u01() ); net.bodyPointMeasurements.push_back( f ); }
    UA::BundleAdjustmentFunction< double > f( net ); int nm = f.measurementSize(), npar = f.parameterSize(); std::string m = vh::fmt( "%d points %d images %d cameras %d body poses intrinsics %d", np, ni, nc, nbp, int( net.bEstimateIntrinsics ) ); vh::sample( m );
    vh::ok( "bundle.sizes", nm == 2 * int( net.freePointMeasurements.size() + net.bodyPointMeasurements.size() ) && npar == 3 * np + 6 * ( nbp - 1 ) + 6 * ni + ( net.bEstimateIntrinsics ? 9 * nc : 0 ), m );
    VD p( npar ), z( nm ); f.buildParameterVector( p ); f.buildMeasurementVector( z ); SV x = sv( p );
    { int k = 0; bool ok = true; for ( auto& q : net.freePointMeasurements ) { ok = ok && z( k ) == q.measurement( 0 ) && z( k + 1 ) == q.measurement( 1 ); k += 2; } for ( auto& q : net.bodyPointMeasurements ) { ok = ok && z( k ) == q.measurement( 0 ) && z( k + 1 ) == q.measurement( 1 ); k += 2; } vh::ok( "bundle.measurements", ok, m ); }
    auto g = [ & ]( const SV& a ) { VD o( nm ); f.evaluate( o, vd( a ) ); return sv( o ); }; VD o( nm ); MD J( nm, npar ), K( nm, npar ); for ( int i = 0; i < nm; i++ ) for ( int k = 0; k < npar; k++ ) J( i, k ) = K( i, k ) = 1e9; f.evaluateWithJacobian( o, p, J ); f.jacobian( p, K ); vh::ok( "bundle.together", sv( o ) == g( x ) && maxdiff( fromM( J ), fromM( K ) ) == 0, m );
    DM err, D = diffOf( g, x, nm, 1e-3, err ); cmp( "bundle", fromM( J ), D, err, mx( sv( o ) ), 1e-6, m );
    // value against the camera model
    auto model = [ & ]( const V3& w, std::size_t img, std::size_t cam ) { V3 c = act( net.images[ img ], w ); double a = c( 0 ) / c( 2 ), b = c( 1 ) / c( 2 ), r2 = a * a + b * b; const V4& d = net.distortions[ cam ]; double s = 1 + d( 0 ) * r2 + d( 1 ) * r2 * r2, u = a * s + 2 * d( 2 ) * a * b + d( 3 ) * ( r2 + 2 * a * a ), v = b * s + 2 * d( 3 ) * a * b + d( 2 ) * ( r2 + 2 * b * b ); const M33& k = net.intrinsics[ cam ]; return V2( -( k( 0, 0 ) * u + k( 0, 1 ) * v + k( 0, 2 ) ), -( k( 1, 1 ) * v + k( 1, 2 ) ) ); };
    int k = 0; for ( auto& q : net.freePointMeasurements ) { vh::small( "bundle.value", dist( V2( o( k ), o( k + 1 ) ), model( net.points[ q.iPoint ], q.iImage, q.iCamera ) ), 1e-11, m ); k += 2; }
    for ( auto& q : net.bodyPointMeasurements ) { V3 b = net.bodies[ q.iBody ][ q.iPoint ]; V3 w = q.iBodyPose == 0 ? b : act( net.bodyPoses[ q.iBodyPose ], b ); vh::small( "bundle.bodyValue", dist( V2( o( k ), o( k + 1 ) ), model( w, q.iImage, q.iCamera ) ), 1e-11, m ); k += 2; }
    // parameters written back reproduce the network
    UA::BundleAdjustmentNetwork< double > copy = net; f.updateParametersFromVector( p ); double d = 0; for ( int i = 0; i < ni; i++ ) d = std::max( d, rotDist( copy.images[ i ].rotation(), net.images[ i ].rotation() ) + dist( copy.images[ i ].translation(), net.images[ i ].translation() ) ); for ( int i = 1; i < nbp; i++ ) d = std::max( d, rotDist( copy.bodyPoses[ i ].rotation(), net.bodyPoses[ i ].rotation() ) + dist( copy.bodyPoses[ i ].translation(), net.bodyPoses[ i ].translation() ) ); for ( int i = 0; i < np; i++ ) d = std::max( d, dist( copy.points[ i ], net.points[ i ] ) ); for ( int i = 0; i < nc; i++ ) d = std::max( d, maxdiff( fromM( copy.intrinsics[ i ] ), fromM( net.intrinsics[ i ] ) ) ); vh::small( "bundle.roundTrip", d, 1e-12, m );
}
SECTION( "calibration", 1500, 20000 )
{
    // point correspondences under one pose: the quaternion is normalised inside, so the derivative holds for any length
    Scene s = scene( r, r.coin() ); double len = r.coin() ? 1 : r.logu( 0.3, 3 ); SV x = s.x7; for ( int k = 3; k < 7; k++ ) x[ k ] *= len; typedef std::vector< V3 >::const_iterator It; std::string m = str( s.pose ) + vh::fmt( " length %g points %d", len, int( s.pts.size() ) ); vh::sample( m ); UA::PoseEstimation3D3D::PointCorrespodencesSinglePose< It > f( s.pts.begin(), s.pts.end() ); full( "PointCorrespondences", f, x, 3 * s.pts.size(), -1, m, 1e-6 ); VD o( 3 * s.pts.size() ); f.evaluate( o, vd( x ) ); for ( std::size_t i = 0; i < s.pts.size(); i++ ) vh::small( "PointCorrespondences.value", dist( V3( o( 3 * i ), o( 3 * i + 1 ), o( 3 * i + 2 ) ), act( s.pose, s.pts[ i ] ) ), 1e-12, m );
    // distance of the tip from the fixed point, for every pose of the tool
    std::vector< Pose > ps; for ( int i = r.in( 1, 6 ); i > 0; i-- ) ps.push_back( r.coin() ? genPose( r ) : uniPose( r, 2 ) ); SV t; push( t, uniVec( r, 5 ) ); push( t, uniVec( r, 2 ) ); typedef std::vector< Pose >::const_iterator Pt; UA::ToolTip::MultiplePoseSinglePointTransformation< Pt > g( ps.begin(), ps.end() ); bool close = false; VD d( ps.size() ); g.evaluate( d, vd( t ) ); for ( std::size_t i = 0; i < ps.size(); i++ ) { vh::near_( "TipDistance.value", d( i ), dist( V3( t[ 0 ], t[ 1 ], t[ 2 ] ), act( ps[ i ], V3( t[ 3 ], t[ 4 ], t[ 5 ] ) ) ), 1e-12, m ); close |= d( i ) < 0.2; } if ( !close ) full( "TipDistance", g, t, ps.size(), -1, m, 1e-6 );
}
VH_MAIN
