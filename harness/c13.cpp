// C13: absolute orientation recovers the rigid motion between point sets
#include "um.h"
#include <utAlgorithm/PoseEstimation3D3D/AbsoluteOrientation.h>
#include <utAlgorithm/PoseEstimation3D3D/Pose6D.h>
#include <utAlgorithm/PoseEstimation3D3D/Rotation3D.h>
#include <utAlgorithm/PoseEstimation3D3D/Scale.h>
#include <utAlgorithm/PoseEstimation3D3D/Optimization.h>
#include <utAlgorithm/PoseEstimation3D3D/ErrorEstimation.h>
#include <utAlgorithm/PoseEstimation3D3D/CovarianceEstimation.h>
#include <list>
using namespace um; namespace UA = Ubitrack::Algorithm::PoseEstimation3D3D; namespace UO = Ubitrack::Math::Optimization;

/// point sets that determine the motion: second singular value of the centred set stays a good fraction of the first
static std::vector< V3 > points( Rng& r, double scale, std::string& kind )
{
    std::vector< V3 > p; int k = r.in( 0, 5 ), n = r.coin( 0.3 ) ? 3 : r.in( 3, 40 );
    for ( int tries = 0; ; tries++ )
    {
        p.clear(); if ( k == 0 ) { kind = "spatial"; for ( int i = 0; i < n; i++ ) p.push_back( uniVec( r ) ); }
        else if ( k == 1 ) { kind = "planar"; UM::Quaternion q = uniQuat( r ); for ( int i = 0; i < n; i++ ) p.push_back( act( UM::Pose( q, V3( 0, 0, 0 ) ), V3( r.uni( -1, 1 ), r.uni( -1, 1 ), 0 ) ) ); }
        else if ( k == 2 ) { kind = "axis-plane"; int ax = r.in( 0, 2 ); for ( int i = 0; i < n; i++ ) { V3 v = uniVec( r ); v( ax ) = 0; p.push_back( v ); } }
        else if ( k == 3 ) { kind = "grid"; for ( int i = 0; i < n; i++ ) p.push_back( V3( r.in( -2, 2 ) * 0.5, r.in( -2, 2 ) * 0.5, r.in( -2, 2 ) * 0.5 ) ); }
        else if ( k == 4 ) { kind = "unit-vectors"; p = { V3( 1, 0, 0 ), V3( 0, 1, 0 ), V3( 0, 0, 1 ) }; if ( r.coin() ) p.push_back( V3( 0, 0, 0 ) ); if ( r.coin() ) p.push_back( V3( -1, -1, -1 ) ); }
        else { kind = "square"; p = { V3( -1, -1, 0 ), V3( -1, 1, 0 ), V3( 1, 1, 0 ), V3( 1, -1, 0 ) }; }
        V3 c( 0, 0, 0 ); for ( auto& v : p ) for ( int i = 0; i < 3; i++ ) c( i ) += v( i ) / p.size(); DM S = dm( 3, 3 ); for ( auto& v : p ) for ( int i = 0; i < 3; i++ ) for ( int j = 0; j < 3; j++ ) S[ i ][ j ] += ( v( i ) - c( i ) ) * ( v( j ) - c( j ) ); std::vector< double > e = symEig( S ); std::sort( e.begin(), e.end() ); if ( e[ 1 ] > 0.02 * e[ 2 ] && e[ 2 ] > 0.05 ) break; if ( tries > 50 ) k = 4;
    }
    r.shuffle( p ); for ( auto& v : p ) for ( int i = 0; i < 3; i++ ) v( i ) *= scale; return p;
}
template< class T > static std::vector< UM::Vector< T, 3 > > cv( const std::vector< V3 >& p ) { std::vector< UM::Vector< T, 3 > > o; for ( auto& v : p ) o.push_back( UM::Vector< T, 3 >( T( v( 0 ) ), T( v( 1 ) ), T( v( 2 ) ) ) ); return o; }
static double cost( const std::vector< V3 >& a, const UM::Pose& p, const std::vector< V3 >& b ) { double s = 0; for ( std::size_t i = 0; i < a.size(); i++ ) { double d = dist( a[ i ], act( p, b[ i ] ) ); s += d * d; } return s; }
template< class T > static std::vector< V3 > back( const std::vector< UM::Vector< T, 3 > >& p ) { std::vector< V3 > o; for ( auto& v : p ) o.push_back( V3( v( 0 ), v( 1 ), v( 2 ) ) ); return o; }

template< class T > static void exact( Rng& r, const std::string& ty, double tol )
{
    typedef UM::Vector< T, 3 > V; bool fl = std::is_same< T, float >::value; double scale = fl ? r.logu( 0.01, 1e3 ) : genScale( r ); std::string kind; std::vector< V3 > b = points( r, scale, kind ), a; double off = r.coin( 0.3 ) ? 0 : r.logu( 0.1, fl ? 3 : 100 ) * scale; UM::Pose t = genPose( r, off ); if ( r.coin( 0.2 ) ) { V3 o = uniVec( r, off ); for ( auto& v : b ) for ( int i = 0; i < 3; i++ ) v( i ) += o( i ); } for ( auto& v : b ) a.push_back( act( t, v ) );
    std::vector< V > A = cv< T >( a ), B = cv< T >( b ); const std::vector< V > A0( A ), B0( B ); UM::Pose res; std::string id = ty + " " + kind + vh::fmt( " n %d scale %.3g offset %.3g ", int( a.size() ), scale, off ) + str( t ); vh::sample( id ); double lever = ( off / scale + 3 );
    if ( !vh::ok( ty + ".found", UA::estimatePose6D_3D3D( A, res, B ), id ) ) return; vh::near_( ty + ".unit", qnorm( res.rotation() ), 1, fl ? 1e-5 : 1e-12, id ); vh::small( ty + ".rotation", rotDist( res.rotation(), t.rotation() ), tol * lever * lever, id ); vh::small( ty + ".maps", std::sqrt( cost( back( A ), res, back( B ) ) / a.size() ) / scale, tol * lever * lever * 4, id );
    UM::Quaternion q; UM::Matrix< T, 3, 3 > m; vh::ok( ty + ".rotationFound", UA::estimateRotation_3D3D( A, q, B ) && UA::estimateRotation_3D3D( A, m, B ), id ); vh::small( ty + ".quaternion", rotDist( q, t.rotation() ), tol * lever * lever, id ); vh::small( ty + ".matrix", diff( toR3( m ), refMatrix( t.rotation() ) ), tol * lever * lever * 2, id );
    std::list< V > la( A.begin(), A.end() ), lb( B.begin(), B.end() ); UM::Pose pl; vh::ok( ty + ".list", UA::estimatePose6D_3D3D( la.begin(), la.end(), pl, lb.begin(), lb.end() ), id ); vh::small( ty + ".listSame", rotDist( pl.rotation(), res.rotation() ) + dist( pl.translation(), res.translation() ) / scale, tol * lever, id );
    bool same = true; for ( std::size_t i = 0; i < A.size(); i++ ) for ( int k = 0; k < 3; k++ ) same &= A[ i ]( k ) == A0[ i ]( k ) && B[ i ]( k ) == B0[ i ]( k ); vh::ok( ty + ".inputs", same, id );
    double f = r.logu( 0.01, 100 ); std::vector< V > C; for ( auto& v : a ) C.push_back( V( T( v( 0 ) * f ), T( v( 1 ) * f ), T( v( 2 ) * f ) ) ); vh::small( ty + ".scale", UA::estimateScale_3D3D( C, B ) / f - 1, tol * lever * lever * 4, id ); 
    // swapped roles give the inverse motion
    UM::Pose inv; if ( vh::ok( ty + ".swapped", UA::estimatePose6D_3D3D( B, inv, A ), id ) ) { UM::Pose e = inv * res; vh::small( ty + ".inverse", rotDist( e.rotation(), UM::Quaternion() ) + norm( e.translation() ) / scale, tol * lever * lever * 10, id ); }
}
SECTION( "exact.double", 5000, 100000 )
{
    exact< double >( r, "exact", 1e-12 ); std::string kind; std::vector< V3 > b = points( r, 1, kind ), a; UM::Pose t = genPose( r, 3 ); for ( auto& v : b ) a.push_back( act( t, v ) ); UM::Pose o = UA::calculateAbsoluteOrientation( b, a ); vh::small( "old.rotation", rotDist( o.rotation(), t.rotation() ), 1e-9, kind ); vh::small( "old.translation", dist( o.translation(), t.translation() ), 1e-9, kind ); UM::Pose e; UA::EstimateAbsoluteOrientation< double >()( e, b, a ); vh::small( "old.functor", dist( e.translation(), o.translation() ) + rotDist( e.rotation(), o.rotation() ), 1e-14, kind ); V3 z = uniVec( r, 2 ), y = uniVec( r, 2 ); vh::near_( "old.evaluate", UA::EvaluateAbsoluteOrientation< double >()( t, z, y ), dist( y, act( t, z ) ), 1e-13 );
}
SECTION( "exact.float", 2000, 40000 ) { exact< float >( r, "exactf", 4e-5 ); }
template< class T > static void noisy( Rng& r, const std::string& ty, double rel )
{
    typedef UM::Vector< T, 3 > V; std::string kind; std::vector< V3 > b = points( r, 1, kind ), a; UM::Pose t = genPose( r, 2 ); double s = r.logu( 1e-4, 0.3 ); for ( auto& v : b ) { V3 w = act( t, v ); for ( int i = 0; i < 3; i++ ) w( i ) += s * r.gauss(); a.push_back( w ); } std::vector< V > A = cv< T >( a ), B = cv< T >( b ); a = back( A ); b = back( B ); UM::Pose p; std::string id = kind + vh::fmt( " n %d noise %.3g", int( a.size() ), s ); vh::sample( id ); if ( !vh::ok( ty + ".found", UA::estimatePose6D_3D3D( A, p, B ), id ) ) return; double c = cost( a, p, b ), ct = cost( a, t, b );
    vh::ok( ty + ".leastSquares", c <= ct * ( 1 + rel ) + rel * rel, id + vh::fmt( " cost %.9g true %.9g", c, ct ) ); // no better pose nearby
    for ( int k = 0; k < 4; k++ ) { double st = r.logu( 1e-3, 0.3 ); UM::Pose d( UM::Quaternion( V3( uniVec( r ) + V3( 0, 0, 1.5 ) ), st ), uniVec( r, st ) ); UM::Pose x = r.coin() ? d * p : p * d; vh::ok( ty + ".optimal", c <= cost( a, x, b ) * ( 1 + rel ) + rel * rel, id ); }
    // refinement: from the closed form, and from a disturbed start
    UM::Pose q( p ), w = UM::Pose( UM::Quaternion( V3( uniVec( r ) + V3( 1.5, 0, 0 ) ), r.uni( -0.4, 0.4 ) ), uniVec( r, 0.5 ) ) * p, w0( w ); vh::ok( ty + ".refined", UA::estimatePose6D_3D3D( A, q, B, UO::OptTerminate( 50, 1e-10 ) ) && UA::estimatePose6D_3D3D( A, w, B, UO::OptTerminate( 100, 1e-12 ) ), id ); vh::ok( ty + ".refineNotWorse", cost( a, q, b ) <= c * ( 1 + rel ) + rel * rel && cost( a, w, b ) <= cost( a, w0, b ) * ( 1 + rel ) + rel * rel, id ); if ( s < 0.03 ) vh::ok( ty + ".refineReaches", cost( a, w, b ) <= c * ( 1 + 100 * rel ) + 100 * rel * rel, id + vh::fmt( " %.9g vs %.9g", cost( a, w, b ), c ) ); vh::near_( ty + ".refineUnit", qnorm( w.rotation() ), 1, 1e-6, id );
    UM::Pose one( w0 ); UA::estimatePose6D_3D3D( A, one, B, UO::OptTerminate( 1, 0 ) ); vh::ok( ty + ".oneStep", cost( a, one, b ) <= cost( a, w0, b ) * ( 1 + rel ) + rel * rel, id );
    // reported residual and covariance
    double mean = 0; for ( std::size_t i = 0; i < a.size(); i++ ) mean += dist( a[ i ], act( p, b[ i ] ) ); mean /= 3.0 * a.size(); T rs = UA::estimatePose6DResidual< T >( A.begin(), A.end(), p, B.begin(), B.end() ); vh::near_( ty + ".residual", rs, mean, rel * ( 10 * mean + 10 * rel ), id );
    UM::Matrix< T, 6, 6 > C; vh::ok( ty + ".covarianceFound", UA::estimatePose6DCovariance( A.begin(), A.end(), p, B.begin(), B.end(), C ), id ); DM N = dm( 6, 6 ), inv; UM::Quaternion pq = p.rotation();
    for ( auto& v : b ) { DM J = dm( 3, 6 ); J[ 0 ][ 0 ] = J[ 1 ][ 1 ] = J[ 2 ][ 2 ] = 1; double h = 1e-5; for ( int k = 0; k < 3; k++ ) { double e[ 3 ] = { 0, 0, 0 }; A3 y[ 2 ]; for ( int sg = 0; sg < 2; sg++ ) { e[ k ] = sg ? -h : h; UM::Quaternion d( e[ 0 ], e[ 1 ], e[ 2 ], 1 ), z = pq * d; double nn = qnorm( z ); y[ sg ] = refMatrix( z.x() / nn, z.y() / nn, z.z() / nn, z.w() / nn ) * toA3( v ); } for ( int i = 0; i < 3; i++ ) J[ i ][ 3 + k ] = ( y[ 0 ][ i ] - y[ 1 ][ i ] ) / ( 2 * h ); } N = add( N, mul( trans( J ), J ) ); }
    ginv( N, inv ); DM E = inv; for ( auto& x : E ) for ( double& y : x ) y *= rs; vh::small( ty + ".covariance", maxdiff( fromM( C ), E ) / maxabs( E ), std::is_same< T, float >::value ? 2e-2 : 1e-6, id );
}
SECTION( "noisy.double", 3000, 50000 ) { noisy< double >( r, "noisy", 1e-9 ); }
SECTION( "noisy.float", 1000, 20000 ) { noisy< float >( r, "noisyf", 2e-3 ); }
/// repeated or many points, huge sets, refinement with exact data
SECTION( "special", 1000, 10000 )
{
    std::string kind; std::vector< V3 > b = points( r, 1, kind ), a; int dup = r.in( 1, 5 ); std::size_t n0 = b.size(); for ( int k = 0; k < dup; k++ ) b.push_back( b[ r.in( 0, n0 - 1 ) ] ); if ( r.coin( 0.05 ) ) for ( int k = 0; k < 3000; k++ ) b.push_back( uniVec( r ) ); UM::Pose t = genPose( r, 1 ); for ( auto& v : b ) a.push_back( act( t, v ) ); UM::Pose p; vh::sample( kind ); vh::ok( "special.found", UA::estimatePose6D_3D3D( a, p, b ) ); vh::small( "special.rotation", rotDist( p.rotation(), t.rotation() ), 1e-9, kind ); UM::Pose q( t ); vh::ok( "special.refine", UA::estimatePose6D_3D3D( a, q, b, UO::OptTerminate( 20, 1e-9 ) ) ); vh::small( "special.refineStays", cost( a, q, b ), 1e-20 * b.size(), kind );
    vh::near_( "special.residualZero", UA::estimatePose6DResidual< double >( a.begin(), a.end(), t, b.begin(), b.end() ), 0, 1e-14, kind );
    // unusable input is reported as failure
    int m = r.in( 0, 2 ); std::vector< V3 > s( b.begin(), b.begin() + m ), u( a.begin(), a.begin() + m ), shorter( a.begin(), a.end() - 1 ), same( 4, b[ 0 ] ); UM::Quaternion z; UM::Matrix< double, 3, 3 > mm; UM::Matrix< double, 6, 6 > C; UO::OptTerminate oc( 5, 0 );
    vh::ok( "fail.few", !UA::estimatePose6D_3D3D( u, p, s ) && !UA::estimateRotation_3D3D( u, z, s ) && !UA::estimateRotation_3D3D( u, mm, s ) && !UA::estimatePose6D_3D3D( u, p, s, oc ) && !UA::estimatePose6DCovariance( u.begin(), u.end(), p, s.begin(), s.end(), C ) ); vh::ok( "fail.lengths", !UA::estimatePose6D_3D3D( shorter, p, b ) && !UA::estimatePose6D_3D3D( b, p, shorter ) && !UA::estimateRotation_3D3D( shorter, z, b ) && !UA::estimateRotation_3D3D( b, mm, shorter ) && !UA::estimatePose6D_3D3D( shorter, p, b, oc ) && !UA::estimatePose6D_3D3D( b, p, shorter, oc ) && !UA::estimatePose6DCovariance( shorter.begin(), shorter.end(), p, b.begin(), b.end(), C ) );
    vh::ok( "fail.old", vh::throws( [ & ] { UA::calculateAbsoluteOrientation( u, s ); } ) ); vh::ok( "fail.oldLengths", vh::throws( [ & ] { UA::calculateAbsoluteOrientation( shorter, b ); } ) ); std::vector< V3 > ze( 5, V3( 0, 0, 0 ) ); vh::ok( "fail.zero", !UA::estimatePose6D_3D3D( ze, p, ze ) );
}
VH_MAIN
