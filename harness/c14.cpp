// C14: camera pose from 2D-3D correspondences reproduces the observations
#include "um.h"
#include <utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.h>
#include <utAlgorithm/PoseEstimation2D3D/NonPlanarPoseEstimation.h>
using namespace um; namespace UA = Ubitrack::Algorithm::PoseEstimation2D3D;

static M33 camera( Rng& r ) { M33 k = M33::zeros(); double f = r.coin( 0.3 ) ? r.uni( 0.6, 2 ) : r.logu( 200, 4000 ); k( 0, 0 ) = f; k( 1, 1 ) = f * r.uni( 0.8, 1.25 ); k( 0, 1 ) = r.coin() ? 0 : f * r.uni( -0.05, 0.05 ); k( 0, 2 ) = -f * r.uni( -0.4, 0.4 ); k( 1, 2 ) = -f * r.uni( -0.4, 0.4 ); k( 2, 2 ) = -1; return k; }
/// reference projection of a point in camera coordinates (camera looks along -z)
static V2 camProject( const M33& k, const V3& c ) { double w = k( 2, 2 ) * c( 2 ); return V2( ( k( 0, 0 ) * c( 0 ) + k( 0, 1 ) * c( 1 ) + k( 0, 2 ) * c( 2 ) ) / w, ( k( 1, 1 ) * c( 1 ) + k( 1, 2 ) * c( 2 ) ) / w ); }
static double sumSq( const M33& k, const UM::Pose& p, const std::vector< V2 >& a, const std::vector< V3 >& b ) { double s = 0; for ( std::size_t i = 0; i < b.size(); i++ ) { double d = dist( a[ i ], camProject( k, act( p, b[ i ] ) ) ); s += d * d; } return s; }
/// rotation that turns the target's front to the camera within 65 degrees, any roll
static UM::Quaternion view( Rng& r, double maxTilt = 1.1 ) { double az = r.uni( 0, 6.2832 ), tilt = r.coin( 0.15 ) ? 0 : r.uni( 0, maxTilt ); A3 ax = { { std::cos( az ), std::sin( az ), 0 } }, z = { { 0, 0, 1 } }; UM::Quaternion q = refQuat( ax, tilt ) * refQuat( z, r.pick( std::vector< double >{ 0, 1.5707963267948966, 3.14159265358979, r.uni( -3.2, 3.2 ) } ) ); return r.coin( 0.2 ) ? neg( q ) : q; }
struct Setup { M33 k; UM::Pose pose; std::vector< V3 > p3; std::vector< V2 > p2; double size, depth; std::string id; };
enum Shape { PLANE0, PLANEC, PLANEG, SPACE };
static Setup make( Rng& r, Shape sh, double noise )
{
    for ( ;; )
    {
        Setup s; s.k = camera( r ); s.size = r.coin( 0.4 ) ? 1 : r.logu( 0.05, 500 ); s.depth = r.uni( 3, 12 ) * s.size; UM::Quaternion q = view( r ); s.pose = UM::Pose( q, V3( r.uni( -0.3, 0.3 ) * s.depth, r.uni( -0.3, 0.3 ) * s.depth, -s.depth ) ); int n = sh == SPACE ? r.in( 6, 30 ) : r.coin( 0.4 ) ? 4 : r.in( 4, 30 ); const char* names[] = { "plane z=0", "plane z=c", "oblique plane", "spatial" };
        for ( int i = 0; i < n; i++ ) s.p3.push_back( V3( r.uni( -1, 1 ) * s.size, r.uni( -1, 1 ) * s.size, sh == SPACE ? r.uni( -1, 1 ) * s.size : 0 ) );
        if ( sh != SPACE ) { double w = r.uni( 0.6, 1 ) * s.size; V3 c[ 4 ] = { V3( -w, w, 0 ), V3( -w, -w, 0 ), V3( w, -w, 0 ), V3( w, w, 0 ) }; std::vector< V3 > cs( c, c + 4 ); for ( auto& v : cs ) { v( 0 ) *= r.uni( 0.7, 1.2 ); v( 1 ) *= r.uni( 0.7, 1.2 ); } r.shuffle( cs ); for ( int i = 0; i < 4; i++ ) s.p3[ i ] = cs[ i ]; if ( sh != PLANEG ) r.shuffle( s.p3 ); }
        if ( sh == PLANEC ) { double c = r.uni( -1, 1 ) * s.size; for ( auto& v : s.p3 ) v( 2 ) = c; } 
        if ( sh == PLANEG ) { UM::Pose o = UM::Pose( uniQuat( r ), uniVec( r, s.size ) ); for ( auto& v : s.p3 ) v = act( o, v ); s.pose = s.pose * ~o; }
        bool front = true; for ( auto& v : s.p3 ) { V3 c = act( s.pose, v ); front &= c( 2 ) < -0.3 * s.size; V2 z = camProject( s.k, c ); s.p2.push_back( V2( z( 0 ) + noise * s.k( 0, 0 ) * r.gauss(), z( 1 ) + noise * s.k( 0, 0 ) * r.gauss() ) ); } if ( !front ) continue;
        s.id = std::string( names[ sh ] ) + vh::fmt( " n %d f %.4g size %.3g depth %.3g ", n, s.k( 0, 0 ), s.size, s.depth ) + str( s.pose ); return s;
    }
}
static DM covariance( const M33& k, const UM::Pose& p, const std::vector< V3 >& pts )
{
    DM N = dm( 6, 6 ), inv; UM::Quaternion pq = p.rotation();
    for ( auto& v : pts ) { DM J = dm( 2, 6 ); for ( int c = 0; c < 6; c++ ) { double h = c < 3 ? 1e-5 * std::fabs( p.translation()( 2 ) ) : 1e-5; V2 y[ 2 ]; for ( int sg = 0; sg < 2; sg++ ) { double e[ 6 ] = { 0, 0, 0, 0, 0, 0 }; e[ c ] = sg ? -h : h; UM::Quaternion z = pq * UM::Quaternion( e[ 3 ], e[ 4 ], e[ 5 ], 1 ); double n = qnorm( z ); A3 w = refMatrix( z.x() / n, z.y() / n, z.z() / n, z.w() / n ) * toA3( v ); y[ sg ] = camProject( k, V3( w[ 0 ] + p.translation()( 0 ) + e[ 0 ], w[ 1 ] + p.translation()( 1 ) + e[ 1 ], w[ 2 ] + p.translation()( 2 ) + e[ 2 ] ) ); } for ( int i = 0; i < 2; i++ ) J[ i ][ c ] = ( y[ 0 ]( i ) - y[ 1 ]( i ) ) / ( 2 * h ); } N = add( N, mul( trans( J ), J ) ); }
    return N;
}
/// C = s * N^-1, judged as N C = s I after scaling to unit diagonal
static double covError( const DM& C, const DM& N, double s ) { int n = N.size(); DM a = N, b = C; for ( int i = 0; i < n; i++ ) for ( int j = 0; j < n; j++ ) { double d = std::sqrt( N[ i ][ i ] * N[ j ][ j ] ); a[ i ][ j ] /= d; b[ i ][ j ] *= d / s; } DM inv; ginv( a, inv ); return maxdiff( b, inv ) / maxabs( inv ); }
static double cond( const DM& N ) { int n = N.size(); DM a = N; for ( int i = 0; i < n; i++ ) for ( int j = 0; j < n; j++ ) a[ i ][ j ] /= std::sqrt( N[ i ][ i ] * N[ j ][ j ] ); std::vector< double > e = symEig( a ); double lo = 1e300, hi = 0; for ( double x : e ) { lo = std::min( lo, x ); hi = std::max( hi, x ); } return lo > 0 ? hi / lo : 1e300; }

static void exact( Rng& r, const char* key, Shape sh, UA::InitializationMethod im )
{
    Setup s = make( r, sh, 0 ); vh::sample( s.id ); std::string K( key ); bool opt = r.coin(), withRes = r.coin( 0.8 ); double res = -1; UM::Pose p; DM C; const std::vector< V2 > p2( s.p2 ); const std::vector< V3 > p3( s.p3 );
    UM::ErrorPose e = withRes ? UA::computePose( s.p2, s.p3, s.k, res, opt, im ) : UA::computePose( s.p2, s.p3, s.k, opt, im ); p = UM::Pose( e.rotation(), e.translation() ); std::string id = s.id + vh::fmt( " optimise %d", opt ); double f = s.k( 0, 0 ), rms = std::sqrt( sumSq( s.k, p, s.p2, s.p3 ) / ( 2 * s.p3.size() ) );
    vh::small( K + ".reprojects", rms / f, 1e-7, id ); vh::small( K + ".rotation", rotDist( p.rotation(), s.pose.rotation() ), 1e-5, id ); vh::small( K + ".translation", dist( p.translation(), s.pose.translation() ) / s.depth, 1e-5, id ); vh::near_( K + ".unit", qnorm( p.rotation() ), 1, 1e-9, id ); if ( withRes ) vh::near_( K + ".residual", res / f, rms / f, 1e-9, id );
    bool same = true; for ( std::size_t i = 0; i < p2.size(); i++ ) { for ( int c = 0; c < 2; c++ ) same &= p2[ i ]( c ) == s.p2[ i ]( c ); for ( int c = 0; c < 3; c++ ) same &= p3[ i ]( c ) == s.p3[ i ]( c ); } vh::ok( K + ".inputs", same, id );
}
SECTION( "exact.plane0", 2500, 40000 ) { exact( r, "plane0", PLANE0, UA::PLANAR_HOMOGRAPHY ); }
SECTION( "exact.planeC", 2500, 40000 ) { exact( r, "planeC", PLANEC, UA::PLANAR_HOMOGRAPHY ); }
SECTION( "exact.planeG", 2500, 40000 ) { try { exact( r, "planeG", PLANEG, UA::PLANAR_HOMOGRAPHY ); } catch ( const std::exception& e ) { vh::event( "first-three-reported-collinear" ); } }
SECTION( "exact.spatial", 2500, 40000 ) { exact( r, "spatial", SPACE, UA::NONPLANAR_PROJECTION ); }

SECTION( "noisy", 3000, 40000 )
{
    Shape sh = r.pick( std::vector< Shape >{ PLANE0, PLANEC, SPACE } ); Setup s = make( r, sh, r.logu( 1e-5, 3e-3 ) ); vh::sample( s.id ); UA::InitializationMethod im = sh == SPACE ? UA::NONPLANAR_PROJECTION : UA::PLANAR_HOMOGRAPHY; double r0, r1; double f = s.k( 0, 0 ), n2 = 2.0 * s.p3.size(); UM::ErrorPose a, b; 
    try { a = UA::computePose( s.p2, s.p3, s.k, r0, false, im ); b = UA::computePose( s.p2, s.p3, s.k, r1, true, im ); } catch ( const std::exception& ) { vh::event( "noisy-reported" ); return; }
    UM::Pose pa( a.rotation(), a.translation() ), pb( b.rotation(), b.translation() ); double ra = std::sqrt( sumSq( s.k, pa, s.p2, s.p3 ) / n2 ), rb = std::sqrt( sumSq( s.k, pb, s.p2, s.p3 ) / n2 ); vh::near_( "noisy.residualStart", r0 / f, ra / f, 1e-9, s.id ); vh::near_( "noisy.residual", r1 / f, rb / f, 1e-9 + 1e-9 * rb / f, s.id ); vh::ok( "noisy.notWorse", rb <= ra * ( 1 + 1e-9 ) + 1e-12 * f, s.id + vh::fmt( " %.9g -> %.9g", ra, rb ) ); vh::near_( "noisy.unit", qnorm( pb.rotation() ), 1, 1e-9, s.id );
    // covariance: total squared image error propagated back to the pose
    for ( int k = 0; k < 2; k++ ) { UM::Pose p = k ? pb : pa; double rr = k ? rb : ra; bool front = true; for ( auto& v : s.p3 ) front &= act( p, v )( 2 ) < -0.1 * s.size; if ( !front || rr < 1e-8 * f ) continue; DM N = covariance( s.k, p, s.p3 ); if ( cond( N ) > 1e6 ) { vh::event( "ill-conditioned" ); continue; } vh::small( "noisy.covariance", covError( fromM( ( k ? b : a ).covariance() ), N, rr * rr * n2 ), 1e-4, s.id ); vh::event( "covariances" ); }
    // refinement from a disturbed start
    UM::Pose st = s.pose * UM::Pose( refQuat( genAxis( r ), r.uni( -0.1, 0.1 ) ), V3( r.uni( -0.1, 0.1 ) * s.size, r.uni( -0.1, 0.1 ) * s.size, r.uni( -0.1, 0.1 ) * s.size ) ), o( st ); double before = sumSq( s.k, st, s.p2, s.p3 ), rep = UA::optimizePose( o, s.p2, s.p3, s.k, r.in( 1, 20 ) ), after = sumSq( s.k, o, s.p2, s.p3 ); vh::ok( "optimise.notWorse", after <= before * ( 1 + 1e-9 ), s.id + vh::fmt( " %.9g -> %.9g", before, after ) ); vh::near_( "optimise.reported", rep, after, 1e-9 * ( after + 1e-12 * f * f ) + 1e-20 * f * f, s.id );
    if ( f > 100 && ( sh == SPACE || s.depth <= 3 * s.size ) ) { UM::Pose w( st ); double best = UA::optimizePose( w, s.p2, s.p3, s.k, 100 ); vh::ok( "optimise.reaches", best <= sumSq( s.k, s.pose, s.p2, s.p3 ) * ( 1 + 1e-6 ) + 1e-14 * f * f, s.id + vh::fmt( " %.9g truth %.9g", best, sumSq( s.k, s.pose, s.p2, s.p3 ) ) ); }
}
SECTION( "float", 800, 10000 )
{
    Setup s = make( r, PLANE0, 1e-3 ); if ( s.k( 0, 0 ) < 100 ) return; std::vector< UM::Vector< float, 2 > > a; std::vector< UM::Vector< float, 3 > > b; UM::Matrix< float, 3, 3 > k; for ( int i = 0; i < 3; i++ ) for ( int j = 0; j < 3; j++ ) k( i, j ) = float( s.k( i, j ) ); for ( auto& v : s.p2 ) a.push_back( UM::Vector< float, 2 >( float( v( 0 ) ), float( v( 1 ) ) ) ); for ( auto& v : s.p3 ) b.push_back( UM::Vector< float, 3 >( float( v( 0 ) ), float( v( 1 ) ), float( v( 2 ) ) ) ); vh::sample( s.id );
    UM::Pose p( refQuat( genAxis( r ), 0.05 ) * s.pose.rotation(), s.pose.translation() ), p0( p ); double before = sumSq( s.k, p, s.p2, s.p3 ), f = s.k( 0, 0 ); float rep = UA::optimizePose( p, a, b, k, 10 ); double after = sumSq( s.k, p, s.p2, s.p3 ); vh::ok( "float.notWorse", after <= before * 1.001 + 1e-8 * f * f, s.id ); vh::near_( "float.reported", rep, after, 0.02 * after + 1e-7 * f * f, s.id );
    // pose from homography, both precisions; H = K [ r1 r2 t ]
    R3 R = refMatrix( s.pose.rotation() ); M33 G; for ( int i = 0; i < 3; i++ ) { G( i, 0 ) = R.m[ i ][ 0 ]; G( i, 1 ) = R.m[ i ][ 1 ]; G( i, 2 ) = s.pose.translation()( i ); } double sc = r.sgn() * r.logu( 0.01, 100 ); DM H = mul( fromM( s.k ), fromM( G ) ), ik; ginv( fromM( s.k ), ik ); M33 Hd, Kd; UM::Matrix< float, 3, 3 > Hf, Kf; for ( int i = 0; i < 3; i++ ) for ( int j = 0; j < 3; j++ ) { Hd( i, j ) = H[ i ][ j ] * sc; Kd( i, j ) = ik[ i ][ j ]; Hf( i, j ) = float( Hd( i, j ) ); Kf( i, j ) = float( Kd( i, j ) ); }
    UM::Pose hd = UA::poseFromHomography( Hd, Kd ), hf = UA::poseFromHomography( Hf, Kf ); vh::small( "homography.rotation", rotDist( hd.rotation(), s.pose.rotation() ), 1e-9, s.id ); vh::small( "homography.translation", dist( hd.translation(), s.pose.translation() ) / s.depth, 1e-9, s.id ); vh::small( "homographyf.rotation", rotDist( hf.rotation(), s.pose.rotation() ), 2e-3 * ( 1 + s.depth / 5 ), s.id ); vh::small( "homographyf.translation", dist( hf.translation(), s.pose.translation() ) / s.depth, 2e-3, s.id ); vh::near_( "homography.unit", qnorm( hd.rotation() ), 1, 1e-9, s.id );
}
SECTION( "covariance", 1500, 20000 )
{
    Setup s = make( r, r.coin() ? PLANE0 : SPACE, 0 ); double err = r.logu( 1e-4, 10 ); DM N = covariance( s.k, s.pose, s.p3 ); vh::sample( s.id ); if ( cond( N ) > 1e6 ) { vh::event( "ill-conditioned" ); return; } UM::Matrix< double, 6, 6 > C = UA::singleCameraPoseError( s.pose, s.p3, s.k, err ); vh::small( "single", covError( fromM( C ), N, err ), 1e-4, s.id ); std::vector< double > ev = symEig( fromM( C ) ); vh::small( "single.symmetric", maxdiff( fromM( C ), trans( fromM( C ) ) ), 1e-12 * maxabs( fromM( C ) ), s.id ); vh::ok( "single.positive", *std::min_element( ev.begin(), ev.end() ) >= -1e-9 * maxabs( fromM( C ) ), s.id );
    // several cameras: any subset of observations
    std::vector< UM::Matrix< double, 3, 4 > > cams; std::vector< UM::Pose > cp; int nc = r.in( 1, 3 ); std::vector< M33 > ks; for ( int i = 0; i < nc; i++ ) { UM::Pose c = i == 0 ? UM::Pose( UM::Quaternion(), V3( 0, 0, 0 ) ) : UM::Pose( refQuat( genAxis( r ), r.uni( -0.2, 0.2 ) ), uniVec( r, 0.2 * s.size ) ); M33 k = i ? camera( r ) : s.k; R3 R = refMatrix( c.rotation() ); DM E = dm( 3, 4 ); for ( int a = 0; a < 3; a++ ) { for ( int b = 0; b < 3; b++ ) E[ a ][ b ] = R.m[ a ][ b ]; E[ a ][ 3 ] = c.translation()( a ); } DM P = mul( fromM( k ), E ); UM::Matrix< double, 3, 4 > M; for ( int a = 0; a < 3; a++ ) for ( int b = 0; b < 4; b++ ) M( a, b ) = P[ a ][ b ]; cams.push_back( M ); cp.push_back( c ); ks.push_back( k ); }
    std::vector< std::pair< std::size_t, std::size_t > > obs; DM T = dm( 6, 6 ); for ( std::size_t i = 0; i < s.p3.size(); i++ ) for ( int c = 0; c < nc; c++ ) if ( r.coin( 0.8 ) ) obs.push_back( std::make_pair( i, std::size_t( c ) ) ); if ( obs.size() < 4 ) return; r.shuffle( obs );
    for ( auto& o : obs ) { DM J = dm( 2, 6 ); UM::Quaternion pq = s.pose.rotation(); for ( int c = 0; c < 6; c++ ) { double h = c < 3 ? 1e-5 * s.depth : 1e-5; V2 y[ 2 ]; for ( int sg = 0; sg < 2; sg++ ) { double e[ 6 ] = { 0, 0, 0, 0, 0, 0 }; e[ c ] = sg ? -h : h; UM::Quaternion z = pq * UM::Quaternion( e[ 3 ], e[ 4 ], e[ 5 ], 1 ); double n = qnorm( z ); A3 w = refMatrix( z.x() / n, z.y() / n, z.z() / n, z.w() / n ) * toA3( s.p3[ o.first ] ); y[ sg ] = camProject( ks[ o.second ], act( cp[ o.second ], V3( w[ 0 ] + s.pose.translation()( 0 ) + e[ 0 ], w[ 1 ] + s.pose.translation()( 1 ) + e[ 1 ], w[ 2 ] + s.pose.translation()( 2 ) + e[ 2 ] ) ) ); } for ( int i = 0; i < 2; i++ ) J[ i ][ c ] = ( y[ 0 ]( i ) - y[ 1 ]( i ) ) / ( 2 * h ); } T = add( T, mul( trans( J ), J ) ); }
    if ( cond( T ) > 1e6 ) { vh::event( "ill-conditioned" ); return; } UM::Matrix< double, 6, 6 > D = UA::multipleCameraPoseError( s.pose, s.p3, cams, obs, err ); vh::small( "multiple", covError( fromM( D ), T, err ), 1e-4, s.id + vh::fmt( " cameras %d observations %d", nc, int( obs.size() ) ) );
}
/// orthogonal iteration on normalised image coordinates, camera looking along +z
template< class T > static void iterative( Rng& r, const std::string& ty )
{
    bool fl = std::is_same< T, float >::value; int n = r.in( 10, 40 ); std::vector< UM::Vector< T, 2 > > p2; std::vector< UM::Vector< T, 3 > > p3; UM::Pose t( genQuat( r ), V3( r.uni( -1, 1 ), r.uni( -1, 1 ), r.uni( 5, 12 ) ) ); V3 c = r.coin() ? V3( 0, 0, 0 ) : uniVec( r, 1 ); double noise = r.coin() ? 0 : 1e-3; for ( int i = 0; i < n; i++ ) { V3 v = uniVec( r ); for ( int k = 0; k < 3; k++ ) v( k ) += c( k ); V3 w = act( t, v ); p3.push_back( UM::Vector< T, 3 >( T( v( 0 ) ), T( v( 1 ) ), T( v( 2 ) ) ) ); p2.push_back( UM::Vector< T, 2 >( T( w( 0 ) / w( 2 ) + noise * r.gauss() ), T( w( 1 ) / w( 2 ) + noise * r.gauss() ) ) ); }
    std::size_t its = r.coin( 0.2 ) ? r.in( 1, 10 ) : 3000, lim = its; T err = T( fl ? 1e-7 : noise > 0 ? 1e-10 : 1e-16 ), thr = err; UM::Pose p; std::string id = vh::fmt( "n %d noise %g limit %d ", n, noise, int( lim ) ) + str( t ); vh::sample( id ); bool okk = UA::estimatePose6D_2D3D( p2, p, p3, its, err ); vh::ok( ty + ".limit", its <= lim, id ); if ( !okk ) { vh::ok( ty + ".notConverged", its == lim || lim < 3000, id ); vh::event( ty + ".limit-reached" ); return; }
    // reported error is the object-space error of the returned pose
    double ose = 0; for ( int i = 0; i < n; i++ ) { V3 w = act( p, V3( p3[ i ]( 0 ), p3[ i ]( 1 ), p3[ i ]( 2 ) ) ); double x = p2[ i ]( 0 ), y = p2[ i ]( 1 ), d = ( x * w( 0 ) + y * w( 1 ) + w( 2 ) ) / ( x * x + y * y + 1 ); ose += ( w( 0 ) - d * x ) * ( w( 0 ) - d * x ) + ( w( 1 ) - d * y ) * ( w( 1 ) - d * y ) + ( w( 2 ) - d ) * ( w( 2 ) - d ); } vh::near_( ty + ".error", err, ose, ( fl ? 1e-3 : 1e-9 ) * ose + ( fl ? 1e-5 : 1e-13 ), id ); vh::near_( ty + ".unit", qnorm( p.rotation() ), 1, fl ? 1e-5 : 1e-12, id ); if ( lim < 3000 ) return;
    vh::ok( ty + ".facing", p.translation()( 2 ) > 0, id ); vh::small( ty + ".rotation", rotDist( p.rotation(), t.rotation() ), fl ? 0.1 : noise > 0 ? 0.1 : 1e-4, id ); vh::small( ty + ".translation", dist( p.translation(), t.translation() ) / 10, fl ? 0.1 : noise > 0 ? 0.1 : 1e-4, id );
}
SECTION( "iterative", 1500, 20000 ) { iterative< double >( r, "iterative" ); }
SECTION( "iterative.float", 500, 5000 ) { iterative< float >( r, "iterativef" ); }
SECTION( "errors", 400, 4000 )
{
    Setup s = make( r, r.coin() ? PLANE0 : SPACE, 0 ); double res; int m = r.in( 0, 3 ); std::vector< V2 > a( s.p2.begin(), s.p2.begin() + m ), shorter( s.p2.begin(), s.p2.end() - 1 ); std::vector< V3 > b( s.p3.begin(), s.p3.begin() + m ), b2( s.p3.begin(), s.p3.end() - 1 ); vh::sample( s.id ); UA::InitializationMethod im = r.coin() ? UA::PLANAR_HOMOGRAPHY : UA::NONPLANAR_PROJECTION;
    vh::ok( "errors.few", vh::throws( [ & ] { UA::computePose( a, b, s.k, res, true, im ); } ) && vh::throws( [ & ] { UA::computePose( a, b, s.k, false, im ); } ) ); vh::ok( "errors.lengths", vh::throws( [ & ] { UA::computePose( s.p2, b2, s.k, res, r.coin(), im ); } ) ); vh::ok( "errors.lengths2", s.p2.size() < 5 || vh::throws( [ & ] { UA::computePose( shorter, s.p3, s.k, res, r.coin(), im ); } ) ); UM::Pose p( s.pose ); vh::ok( "errors.optimise", vh::throws( [ & ] { UA::optimizePose( p, s.p2, b2, s.k, 5 ); } ) && vh::throws( [ & ] { UA::optimizePose( p, shorter, s.p3, s.k, 5 ); } ) );
    std::size_t it = 50; double e = 1e-9; std::vector< V3 > sp( s.p3 ); UM::Pose q; vh::ok( "errors.iterative", !UA::estimatePose6D_2D3D( shorter, q, sp, it, e ) ); it = 50; e = 1e-9; vh::ok( "errors.iterative2", !UA::estimatePose6D_2D3D( s.p2, q, b2, it, e ) );
    // collinear target in an oblique plane
    V3 d = uniVec( r ), o = uniVec( r ); if ( norm( d ) < 0.2 ) d( 0 ) += 1; std::vector< V3 > line; std::vector< V2 > img; for ( int i = 0; i < 4; i++ ) { double u = i - 1.5; V3 v( o( 0 ) + u * d( 0 ), o( 1 ) + u * d( 1 ), o( 2 ) + u * d( 2 ) ); line.push_back( v ); } r.shuffle( line ); for ( auto& v : line ) img.push_back( camProject( s.k, act( UM::Pose( UM::Quaternion(), V3( 0, 0, -12 ) ), v ) ) ); vh::ok( "errors.collinear", vh::throws( [ & ] { UA::computePose( img, line, s.k, res, true, UA::PLANAR_HOMOGRAPHY ); } ), str( d ) );
}
VH_MAIN
