// C17: multi-view geometry recovers points, epipolar geometry and camera poses
#include "um.h"
#include <utMath/Optimization/Optimization.h>
#include <utAlgorithm/FundamentalMatrix.h>
#include <utAlgorithm/3DPointReconstruction.h>
#include <utAlgorithm/BundleAdjustment.h>
#include <utAlgorithm/MultipleCameraPoseOptimization.h>
using namespace um; namespace UA = Ubitrack::Algorithm;
template< class T > using TV2 = UM::Vector< T, 2 >; template< class T > using TV3 = UM::Vector< T, 3 >;
typedef UM::Matrix< double, 3, 3 > M33;

struct View { UM::Pose cam; DM K, E, P; double f; }; // cam: world -> camera, camera looks along -z
static UM::Pose aim( Rng& r, const V3& eye, const V3& at ) // world -> camera of a camera at eye looking at "at"
{
    A3 z = { { eye( 0 ) - at( 0 ), eye( 1 ) - at( 1 ), eye( 2 ) - at( 2 ) } }; double n = norm( z ); for ( double& c : z ) c /= n; A3 u; do { V3 q = uniVec( r ); u = toA3( q ); double d = u[ 0 ] * z[ 0 ] + u[ 1 ] * z[ 1 ] + u[ 2 ] * z[ 2 ]; for ( int i = 0; i < 3; i++ ) u[ i ] -= d * z[ i ]; n = norm( u ); } while ( n < 0.2 ); for ( double& c : u ) c /= n; A3 w = { { u[ 1 ] * z[ 2 ] - u[ 2 ] * z[ 1 ], u[ 2 ] * z[ 0 ] - u[ 0 ] * z[ 2 ], u[ 0 ] * z[ 1 ] - u[ 1 ] * z[ 0 ] } }; M33 R; for ( int i = 0; i < 3; i++ ) { R( 0, i ) = w[ i ]; R( 1, i ) = u[ i ]; R( 2, i ) = z[ i ]; }
    // w = u x z; rows w,u,z must be right handed: (w,u,z) = (u x z, u, z) -> w x u = ?
    double det = R( 0, 0 ) * ( R( 1, 1 ) * R( 2, 2 ) - R( 1, 2 ) * R( 2, 1 ) ) - R( 0, 1 ) * ( R( 1, 0 ) * R( 2, 2 ) - R( 1, 2 ) * R( 2, 0 ) ) + R( 0, 2 ) * ( R( 1, 0 ) * R( 2, 1 ) - R( 1, 1 ) * R( 2, 0 ) ); if ( det < 0 ) for ( int i = 0; i < 3; i++ ) R( 0, i ) = -R( 0, i );
    // quaternion by reference arithmetic: Shepperd
    double q[ 4 ], t = R( 0, 0 ) + R( 1, 1 ) + R( 2, 2 ); int k = t > 0 ? 3 : R( 0, 0 ) > R( 1, 1 ) ? ( R( 0, 0 ) > R( 2, 2 ) ? 0 : 2 ) : ( R( 1, 1 ) > R( 2, 2 ) ? 1 : 2 ); if ( k == 3 ) { q[ 3 ] = 1 + t; q[ 0 ] = R( 2, 1 ) - R( 1, 2 ); q[ 1 ] = R( 0, 2 ) - R( 2, 0 ); q[ 2 ] = R( 1, 0 ) - R( 0, 1 ); } else { int i = k, j = ( k + 1 ) % 3, l = ( k + 2 ) % 3; q[ i ] = 1 + R( i, i ) - R( j, j ) - R( l, l ); q[ j ] = R( i, j ) + R( j, i ); q[ l ] = R( i, l ) + R( l, i ); q[ 3 ] = R( l, j ) - R( j, l ); } double m = std::sqrt( q[ 0 ] * q[ 0 ] + q[ 1 ] * q[ 1 ] + q[ 2 ] * q[ 2 ] + q[ 3 ] * q[ 3 ] ); UM::Quaternion Q( q[ 0 ] / m, q[ 1 ] / m, q[ 2 ] / m, q[ 3 ] / m ); A3 c = refMatrix( Q ) * toA3( eye ); return UM::Pose( Q, V3( -c[ 0 ], -c[ 1 ], -c[ 2 ] ) );
}
static View view( Rng& r, const UM::Pose& cam, bool normalised = false )
{
    View v; v.cam = cam; v.K = dm( 3, 3 ); v.f = normalised ? 1 : r.pick( std::vector< double >{ 1, 400, 800 } ); v.K[ 0 ][ 0 ] = v.f; v.K[ 1 ][ 1 ] = v.f * ( normalised ? 1 : r.uni( 0.8, 1.25 ) ); v.K[ 2 ][ 2 ] = normalised ? 1 : -1; if ( !normalised ) { v.K[ 0 ][ 1 ] = r.coin() ? 0 : r.uni( -0.05, 0.05 ) * v.f; v.K[ 0 ][ 2 ] = r.coin( 0.3 ) ? 0 : -r.uni( 0, 0.6 ) * v.f; v.K[ 1 ][ 2 ] = r.coin( 0.3 ) ? 0 : -r.uni( 0, 0.5 ) * v.f; }
    R3 R = refMatrix( cam.rotation() ); v.E = dm( 3, 4 ); for ( int i = 0; i < 3; i++ ) { for ( int j = 0; j < 3; j++ ) v.E[ i ][ j ] = R.m[ i ][ j ]; v.E[ i ][ 3 ] = cam.translation()( i ); } v.P = mul( v.K, v.E ); return v;
}
static A3 pmap( const DM& P, const V3& x ) { A3 o; for ( int i = 0; i < 3; i++ ) o[ i ] = P[ i ][ 0 ] * x( 0 ) + P[ i ][ 1 ] * x( 1 ) + P[ i ][ 2 ] * x( 2 ) + P[ i ][ 3 ]; return o; }
static V2 pix( const DM& P, const V3& x ) { A3 a = pmap( P, x ); return V2( a[ 0 ] / a[ 2 ], a[ 1 ] / a[ 2 ] ); }
template< class M > static M m34( const DM& P, double s = 1 ) { M m; for ( std::size_t i = 0; i < m.size1(); i++ ) for ( std::size_t j = 0; j < m.size2(); j++ ) m( i, j ) = typename M::value_type( P[ i ][ j ] * s ); return m; }
/// cameras around the unit ball at distance 3..6 with pairwise baselines of at least 0.3 x distance
static std::vector< View > rig( Rng& r, int n, double size, double minAngle = 0.15, bool normalised = false )
{
    std::vector< View > v; std::vector< V3 > eyes; int kind = r.in( 0, 2 ); for ( int i = 0; i < n; ) { V3 e; if ( kind == 0 ) e = uniVec( r ); else if ( kind == 1 ) { A3 a = genAxis( r ); e = toV3( a ); } else e = V3( r.uni( -0.7, 0.7 ), r.uni( -0.7, 0.7 ), 1 ); double l = norm( e ); if ( l < 0.1 ) continue; double d = size * r.uni( 3, 6 ); e = V3( e( 0 ) * d / l, e( 1 ) * d / l, e( 2 ) * d / l ); bool good = true; for ( auto& o : eyes ) { double c = ( e( 0 ) * o( 0 ) + e( 1 ) * o( 1 ) + e( 2 ) * o( 2 ) ) / ( norm( e ) * norm( o ) ); if ( c > std::cos( minAngle ) || c < -std::cos( minAngle ) ) good = false; } if ( !good ) { if ( r.coin( 0.02 ) ) kind = 0; continue; } eyes.push_back( e ); v.push_back( view( r, aim( r, e, uniVec( r, 0.3 * size ) ), normalised ) ); i++; }
    return v;
}
static double lineDist( const DM& F, const V2& x, const V2& y ) { double l[ 3 ]; for ( int i = 0; i < 3; i++ ) l[ i ] = F[ i ][ 0 ] * x( 0 ) + F[ i ][ 1 ] * x( 1 ) + F[ i ][ 2 ]; return std::fabs( l[ 0 ] * y( 0 ) + l[ 1 ] * y( 1 ) + l[ 2 ] ) / std::hypot( l[ 0 ], l[ 1 ] ); }
/// the points determine the fundamental matrix: second smallest singular value of the normalised system
static double conditioning( const std::vector< V2 >& a, const std::vector< V2 >& b, double fa, double fb, std::size_t step )
{
    double ca[ 2 ] = { 0, 0 }, cb[ 2 ] = { 0, 0 }, sa = 0, sb = 0; for ( std::size_t i = 0; i < a.size(); i++ ) for ( int k = 0; k < 2; k++ ) { ca[ k ] += a[ i ]( k ) / a.size(); cb[ k ] += b[ i ]( k ) / a.size(); } for ( std::size_t i = 0; i < a.size(); i++ ) { sa += dist( a[ i ], V2( ca[ 0 ], ca[ 1 ] ) ) / a.size(); sb += dist( b[ i ], V2( cb[ 0 ], cb[ 1 ] ) ) / a.size(); } (void)fa; (void)fb; DM N = dm( 9, 9 ); for ( std::size_t i = 0; i < a.size() / step; i++ ) { const V2 &p = a[ i * step ], &q = b[ i * step ]; double x[ 3 ] = { ( p( 0 ) - ca[ 0 ] ) / sa, ( p( 1 ) - ca[ 1 ] ) / sa, 1 }, y[ 3 ] = { ( q( 0 ) - cb[ 0 ] ) / sb, ( q( 1 ) - cb[ 1 ] ) / sb, 1 }, row[ 9 ]; for ( int s = 0; s < 3; s++ ) for ( int t = 0; t < 3; t++ ) row[ 3 * s + t ] = y[ s ] * x[ t ]; for ( int s = 0; s < 9; s++ ) for ( int t = 0; t < 9; t++ ) N[ s ][ t ] += row[ s ] * row[ t ]; } std::vector< double > e = symEig( N ); std::sort( e.begin(), e.end() ); return std::sqrt( std::max( 0.0, e[ 1 ] ) / e[ 8 ] );
}
template< class T > static void fundamental( Rng& r, const std::string& ty )
{
    bool fl = std::is_same< T, float >::value; double size = fl ? 1 : r.logu( 1e-2, 1e3 ); std::vector< View > v = rig( r, 2, size ); std::size_t step = r.coin( 0.7 ) ? 1 : r.in( 2, 3 ); int n = r.in( 8, r.coin() ? 12 : 60 ) * step + ( step > 1 ? r.in( 0, step - 1 ) : 0 ); std::vector< V3 > p; std::vector< V2 > a, b; for ( int i = 0; i < n; i++ ) { V3 x = uniVec( r, size ); p.push_back( x ); a.push_back( pix( v[ 0 ].P, x ) ); b.push_back( pix( v[ 1 ].P, x ) ); }
    double c = conditioning( a, b, v[ 0 ].f, v[ 1 ].f, step ); std::string id = ty + vh::fmt( " n %d step %zu size %.3g f %g %g conditioning %.3g", n, step, size, v[ 0 ].f, v[ 1 ].f, c ); vh::sample( id ); double eps = fl ? 1e-5 : 1e-13; if ( c < ( fl ? 5e-3 : 1e-4 ) ) { vh::event( "weak-points" ); return; }
    std::vector< TV2< T > > fa, fb; for ( int i = 0; i < n; i++ ) { fa.push_back( TV2< T >( T( a[ i ]( 0 ) ), T( a[ i ]( 1 ) ) ) ); fb.push_back( TV2< T >( T( b[ i ]( 0 ) ), T( b[ i ]( 1 ) ) ) ); } auto F0 = UA::getFundamentalMatrix( fa, fb, step ); DM F = fromM( F0 ); double tol = eps * 30 / c;
    for ( int i = 0; i < n; i++ ) { vh::small( ty + ".to", lineDist( F, a[ i ], b[ i ] ) / v[ 1 ].f, tol, id ); vh::small( ty + ".from", lineDist( trans( F ), b[ i ], a[ i ] ) / v[ 0 ].f, tol, id ); } for ( int q = 0; q < 5; q++ ) { V3 x = uniVec( r, size ); vh::small( ty + ".unseen", lineDist( F, pix( v[ 0 ].P, x ), pix( v[ 1 ].P, x ) ) / v[ 1 ].f, tol * 10, id ); }
    DM G = mul( mul( trans( v[ 1 ].K ), F ), v[ 0 ].K ); double s = 0; for ( auto& row : G ) for ( double x : row ) s += x * x; s = std::sqrt( s ); double det = G[ 0 ][ 0 ] * ( G[ 1 ][ 1 ] * G[ 2 ][ 2 ] - G[ 1 ][ 2 ] * G[ 2 ][ 1 ] ) - G[ 0 ][ 1 ] * ( G[ 1 ][ 0 ] * G[ 2 ][ 2 ] - G[ 1 ][ 2 ] * G[ 2 ][ 0 ] ) + G[ 0 ][ 2 ] * ( G[ 1 ][ 0 ] * G[ 2 ][ 1 ] - G[ 1 ][ 1 ] * G[ 2 ][ 0 ] ); vh::small( ty + ".rank", det / ( s * s * s ), fl ? 1e-4 : 1e-11, id ); for ( auto& row : G ) for ( double& x : row ) x /= s;
    // the same from the poses
    M33 k0 = m34< M33 >( v[ 0 ].K ), k1 = m34< M33 >( v[ 1 ].K ); DM H = mul( mul( trans( v[ 1 ].K ), fromM( UA::fundamentalMatrixFromPoses( v[ 0 ].cam, v[ 1 ].cam, k0, k1 ) ) ), v[ 0 ].K ); s = 0; double dot = 0; for ( auto& row : H ) for ( double x : row ) s += x * x; s = std::sqrt( s ); for ( int i = 0; i < 3; i++ ) for ( int j = 0; j < 3; j++ ) dot += H[ i ][ j ] / s * G[ i ][ j ]; vh::near_( ty + ".agree", std::fabs( dot ), 1, tol * 100, id );
    // functors
    UM::Matrix< T, 3, 3 > viaF; UA::GetFundamentalMatrix< T >()( viaF, fa, fb ); if ( step == 1 ) { vh::small( ty + ".functor", maxdiff( fromM( viaF ), F ), 0, id ); } int q = r.in( 0, n - 1 ), w = r.in( 0, n - 1 ); double ev = UA::EvaluateFundamentalMatrix< T >()( F0, fa[ q ], fb[ w ] ), l = lineDist( F, V2( fa[ q ]( 0 ), fa[ q ]( 1 ) ), V2( fb[ w ]( 0 ), fb[ w ]( 1 ) ) ), e2 = UA::pointToPointDist( fa[ q ], fb[ w ], F0 ); double h = r.uni( 0.5, 2 ); UM::Vector< T, 3 > h1( fa[ q ]( 0 ) * T( h ), fa[ q ]( 1 ) * T( h ), T( h ) ), h2( fb[ w ]( 0 ), fb[ w ]( 1 ), 1 ); double e3 = UA::pointToPointDist( h1, h2, F0 ); double ts = ( fl ? 3e-3 : 1e-9 ), f1 = v[ 1 ].f; vh::near_( ty + ".distance", std::sqrt( ev ) / f1, l / f1, ts, id ); vh::near_( ty + ".distance2", std::sqrt( e2 ) / f1, l / f1, ts, id ); vh::near_( ty + ".distance3", std::sqrt( e3 ) / f1, l / f1, ts, id );
    if ( !fl ) { // relative motion from the matrix: up to the length of the baseline
        UM::Matrix< double, 3, 3 > Fd = m34< M33 >( F, r.sgn() * r.logu( 0.01, 100 ) ); for ( int which = 0; which < 2; which++ ) { M33 X = which ? UA::fundamentalMatrixFromPoses( v[ 0 ].cam, v[ 1 ].cam, k0, k1 ) : Fd; if ( which && r.coin() ) for ( int i = 0; i < 3; i++ ) for ( int j = 0; j < 3; j++ ) X( i, j ) = -X( i, j ); const M33 X0( X ); int i = r.in( 0, n - 1 ); UM::Pose rel = UA::poseFromFundamentalMatrix( X, a[ i ], b[ i ], k0, k1 ); DM E1 = v[ 0 ].E, E2 = v[ 1 ].E; DM R1 = dm( 3, 3 ), R2 = dm( 3, 3 ); for ( int x = 0; x < 3; x++ ) for ( int y = 0; y < 3; y++ ) { R1[ x ][ y ] = E1[ x ][ y ]; R2[ x ][ y ] = E2[ x ][ y ]; } DM R = mul( R2, trans( R1 ) ); double t[ 3 ], tn = 0; for ( int x = 0; x < 3; x++ ) { t[ x ] = E2[ x ][ 3 ]; for ( int y = 0; y < 3; y++ ) t[ x ] -= R[ x ][ y ] * E1[ y ][ 3 ]; tn += t[ x ] * t[ x ]; } tn = std::sqrt( tn ); R3 Q = refMatrix( rel.rotation() ); double dr = 0, dt = 0; for ( int x = 0; x < 3; x++ ) { dt = std::max( dt, std::fabs( rel.translation()( x ) - t[ x ] / tn ) ); for ( int y = 0; y < 3; y++ ) dr = std::max( dr, std::fabs( Q.m[ x ][ y ] - R[ x ][ y ] ) ); } std::string k = which ? "motion.poses" : "motion.points"; vh::small( k + ".rotation", dr, tol * 30 + 1e-10, id ); vh::small( k + ".direction", dt, tol * 30 + 1e-10, id ); vh::small( k + ".unit", qnorm( rel.rotation() ) - 1, 1e-10, id ); vh::ok( k + ".input", maxdiff( fromM( X ), fromM( X0 ) ) == 0 ); } }
}
SECTION( "fundamental.double", 3000, 60000 ) { fundamental< double >( r, "fundamental" ); }
SECTION( "fundamental.float", 2000, 30000 ) { fundamental< float >( r, "fundamentalf" ); }
/// special camera pairs: pure translations, equal orientation, small and large rotations
SECTION( "fundamental.special", 2000, 40000 )
{
    double size = r.logu( 0.1, 10 ); UM::Pose c0 = r.coin() ? UM::Pose( UM::Quaternion(), V3( 0, 0, -4 * size ) ) : aim( r, V3( 0, 0, 4 * size ), uniVec( r, 0.2 * size ) ); A3 ax = genAxis( r ); double an = r.coin( 0.4 ) ? 0 : r.uni( -0.5, 0.5 ); UM::Quaternion dq = refQuat( ax, an ); int k = r.in( 0, 4 ); V3 t; do { t = k == 0 ? V3( r.uni( 0.3, 1.5 ), 0, 0 ) : k == 1 ? V3( 0, r.uni( 0.3, 1.5 ), 0 ) : k == 2 ? V3( 0, 0, r.uni( -1.5, 1.5 ) ) : uniVec( r, 1.2 ); } while ( norm( t ) < 0.3 ); t = V3( t( 0 ) * size, t( 1 ) * size, t( 2 ) * size ); R3 D = refMatrix( dq ); 
    // second camera: rotate about the middle of the scene (0,0,-4 size in the first camera's frame) and shift
    A3 mid = { { 0, 0, -4 * size } }, rm = D * mid; UM::Pose rel( dq, V3( mid[ 0 ] - rm[ 0 ] + t( 0 ), mid[ 1 ] - rm[ 1 ] + t( 1 ), mid[ 2 ] - rm[ 2 ] + t( 2 ) ) ); V3 rt = rel.translation(); if ( norm( rt ) < 0.2 * size ) return; UM::Pose c1; { R3 A = refMatrix( c0.rotation() ); R3 B = D * A; (void)B; c1 = rel * c0; }
    View v0 = view( r, c0 ), v1 = view( r, c1 ); M33 k0 = m34< M33 >( v0.K ), k1 = m34< M33 >( v1.K ); M33 F = UA::fundamentalMatrixFromPoses( c0, c1, k0, k1 ); DM Fd = fromM( F ); std::string id = vh::fmt( "size %.3g kind %d angle %.3g ", size, k, an ) + str( rel ); vh::sample( id );
    for ( int q = 0; q < 8; q++ ) { V3 x = uniVec( r, size ); V3 cc = act( c0, x ); if ( cc( 2 ) > -size || act( c1, x )( 2 ) > -size ) continue; V2 a = pix( v0.P, x ), b = pix( v1.P, x ); double par; { V3 u = act( c1, x ); double ca = ( u( 0 ) * rt( 0 ) + u( 1 ) * rt( 1 ) + u( 2 ) * rt( 2 ) ) / ( norm( u ) * norm( rt ) ); par = std::sqrt( std::max( 0.0, 1 - ca * ca ) ); } if ( par < 0.05 ) { vh::event( "near-epipole" ); continue; } vh::small( "special.line", lineDist( Fd, a, b ) / v1.f, 1e-11 / par, id );
        UM::Pose got = UA::poseFromFundamentalMatrix( F, a, b, k0, k1 ); double n = norm( rt ); vh::small( "special.rotation", rotDist( got.rotation(), rel.rotation() ), 1e-9, id ); vh::small( "special.direction", dist( got.translation(), V3( rt( 0 ) / n, rt( 1 ) / n, rt( 2 ) / n ) ), 1e-9, id ); }
}
template< class T > static void triangulate( Rng& r, const std::string& ty )
{
    bool fl = std::is_same< T, float >::value; double size = fl ? r.logu( 0.1, 10 ) : r.logu( 1e-3, 1e3 ); int n = r.coin() ? 2 : r.in( 3, 8 ); std::vector< View > v = rig( r, n, size, 0.12 ); V3 x = genVec( r, size ); { double l = norm( x ); if ( l > size ) x = V3( x( 0 ) * size / l, x( 1 ) * size / l, x( 2 ) * size / l ); } std::vector< UM::Matrix< T, 3, 4 > > P; std::vector< TV2< T > > y; for ( auto& c : v ) { P.push_back( m34< UM::Matrix< T, 3, 4 > >( c.P, r.coin() ? 1 : r.sgn() * r.uni( 0.3, 3 ) ) ); V2 p = pix( fromM( P.back() ), x ); y.push_back( TV2< T >( T( p( 0 ) ), T( p( 1 ) ) ) ); } const auto P0 = P; const auto y0 = y; std::string id = ty + vh::fmt( " %d views size %.3g ", n, size ) + str( x ); vh::sample( id ); vh::event( vh::fmt( "views-%d", n ) ); double fm = 0; for ( auto& c : v ) fm = std::max( fm, c.f ); double tol = fl ? ( fm > 1 ? 0.05 : 3e-3 ) : 1e-7; auto D = [&]( const TV3< T >& g ) { return dist( V3( g( 0 ), g( 1 ), g( 2 ) ), x ) / size; };
    if ( n == 2 ) vh::small( ty + ".pair", D( UA::get3DPosition( P[ 0 ], P[ 1 ], y[ 0 ], y[ 1 ] ) ), tol, id ); bool lin = !fl || fm == 1; if ( lin ) vh::small( ty + ".linear", D( UA::get3DPosition( P, y, 0 ) ), tol, id ); if ( lin ) vh::small( ty + ".refined", D( UA::get3DPosition( P, y, 1 ) ), tol, id ); if ( n > 2 && lin ) { std::vector< std::size_t > o; for ( int i = 0; i < n; i++ ) o.push_back( i ); r.shuffle( o ); std::vector< UM::Matrix< T, 3, 4 > > P2; std::vector< TV2< T > > y2; for ( auto i : o ) { P2.push_back( P[ i ] ); y2.push_back( y[ i ] ); } vh::small( ty + ".order", D( UA::get3DPosition( P2, y2, 0 ) ), tol, id ); }
    bool same = true; for ( int i = 0; i < n; i++ ) same &= maxdiff( fromM( P[ i ] ), fromM( P0[ i ] ) ) == 0 && y[ i ]( 0 ) == y0[ i ]( 0 ) && y[ i ]( 1 ) == y0[ i ]( 1 ); vh::ok( ty + ".inputs", same, id );
}
SECTION( "triangulate.double", 4000, 80000 ) { triangulate< double >( r, "triangulate" ); }
SECTION( "triangulate.float", 3000, 40000 ) { triangulate< float >( r, "triangulatef" ); }
SECTION( "triangulate.noisy", 1500, 30000 )
{
    double size = r.logu( 0.1, 10 ); int n = r.in( 2, 8 ); std::vector< View > v = rig( r, n, size ); double f = v[ 0 ].f; for ( auto& c : v ) { c = view( r, c.cam, false ); while ( c.f != f ) c = view( r, c.cam, false ); } V3 x = uniVec( r, size ); double noise = f * r.logu( 1e-5, 1e-2 ); std::vector< UM::Matrix< double, 3, 4 > > P; std::vector< V2 > y; for ( auto& c : v ) { P.push_back( m34< UM::Matrix< double, 3, 4 > >( c.P ) ); V2 p = pix( c.P, x ); y.push_back( V2( p( 0 ) + r.gauss() * noise, p( 1 ) + r.gauss() * noise ) ); } auto cost = [&]( const V3& g ) { double s = 0; for ( int i = 0; i < n; i++ ) { double d = dist( pix( v[ i ].P, g ), y[ i ] ); s += d * d; } return s; }; double res = -1; V3 l = UA::get3DPosition( P, y, 0 ), g = UA::get3DPositionWithResidual( P, y, 1, &res ), h = UA::get3DPosition( P, y, 1 ); std::string id = vh::fmt( "%d views noise %.3g", n, noise / f ); vh::sample( id ); double cl = cost( l ), cg = cost( g ); vh::ok( "noisy.notWorse", cg <= cl * ( 1 + 1e-9 ) + 1e-18 * f * f, id + vh::fmt( " %.17g -> %.17g", cl, cg ) ); if ( noise < 1e-3 * f ) vh::ok( "noisy.notWorseThanTruth", cg <= cost( x ) * ( 1 + 1e-2 ) + 1e-13 * f * f, id ); vh::small( "noisy.same", dist( g, h ) / size, 1e-12, id ); vh::near_( "noisy.residual", res / ( f * f ), cg / ( f * f ), 1e-9 + 1e-3 * cg / ( f * f ), id ); if ( noise < 2e-4 * f ) vh::small( "noisy.near", dist( l, x ) / size, 1000 * noise / f / 0.12, id );
}
SECTION( "match", 1500, 30000 )
{
    double size = r.logu( 0.1, 10 ); std::vector< View > v = rig( r, 2, size ); int n = r.in( 1, 12 ), e1 = r.coin() ? 0 : r.in( 0, 3 ), e2 = e1 || r.coin() ? 0 : r.in( 0, 3 ); M33 F = UA::fundamentalMatrixFromPoses( v[ 0 ].cam, v[ 1 ].cam, m34< M33 >( v[ 0 ].K ), m34< M33 >( v[ 1 ].K ) ); DM Fd = fromM( F ); std::vector< V3 > p; for ( int i = 0; i < n; i++ ) p.push_back( uniVec( r, size ) ); std::vector< V2 > a, b; for ( auto& x : p ) { a.push_back( pix( v[ 0 ].P, x ) ); b.push_back( pix( v[ 1 ].P, x ) ); } std::vector< int > own; for ( int i = 0; i < n; i++ ) own.push_back( i ); for ( int i = 0; i < e1; i++ ) { a.push_back( pix( v[ 0 ].P, uniVec( r, size ) ) ); own.push_back( -1 ); } for ( int i = 0; i < e2; i++ ) b.push_back( pix( v[ 1 ].P, uniVec( r, size ) ) );
    // keep only scenes whose matching is unique: every false pair clearly off its epipolar line
    for ( std::size_t i = 0; i < a.size(); i++ ) for ( std::size_t j = 0; j < b.size(); j++ ) if ( int( i ) >= n || i != j ) if ( lineDist( Fd, a[ i ], b[ j ] ) < 1e-5 * v[ 1 ].f ) { vh::event( "ambiguous" ); return; }
    std::vector< std::size_t > o; for ( std::size_t i = 0; i < a.size(); i++ ) o.push_back( i ); r.shuffle( o ); std::vector< V2 > as; std::vector< int > os; for ( auto i : o ) { as.push_back( a[ i ] ); os.push_back( own[ i ] ); } r.shuffle( b ); std::string id = vh::fmt( "%zu and %zu points, %d common", as.size(), b.size(), n ); vh::sample( id ); auto g = UA::reconstruct3DPoints( as, b, m34< UM::Matrix< double, 3, 4 > >( v[ 0 ].P ), m34< UM::Matrix< double, 3, 4 > >( v[ 1 ].P ), F ); vh::ok( "match.count", g.size() == std::size_t( n ), id + vh::fmt( " found %zu", g.size() ) ); std::size_t k = 0; for ( int w : os ) if ( w >= 0 && k < g.size() ) vh::small( "match.point", dist( g[ k++ ], p[ w ] ) / size, 1e-8, id );
    std::vector< UM::Vector< float, 2 > > af, bf; for ( auto& q : as ) af.push_back( UM::Vector< float, 2 >( float( q( 0 ) ), float( q( 1 ) ) ) ); for ( auto& q : b ) bf.push_back( UM::Vector< float, 2 >( float( q( 0 ) ), float( q( 1 ) ) ) ); for ( std::size_t i = 0; i < a.size(); i++ ) for ( std::size_t j = 0; j < b.size(); j++ ) if ( lineDist( Fd, as[ i ], b[ j ] ) < 5e-3 * v[ 1 ].f && lineDist( Fd, as[ i ], b[ j ] ) > 1e-9 * v[ 1 ].f ) return; double s = maxabs( Fd ); auto gf = UA::reconstruct3DPoints( af, bf, m34< UM::Matrix< float, 3, 4 > >( v[ 0 ].P ), m34< UM::Matrix< float, 3, 4 > >( v[ 1 ].P ), m34< UM::Matrix< float, 3, 3 > >( Fd, 1 / s ) ); vh::ok( "matchf.count", gf.size() == std::size_t( n ), id ); k = 0; for ( int w : os ) if ( w >= 0 && k < gf.size() ) { auto& q = gf[ k++ ]; vh::small( "matchf.point", dist( V3( q( 0 ), q( 1 ), q( 2 ) ), p[ w ] ) / size, 1e-2, id ); }
}
static double baCost( const std::vector< std::vector< V2 > >& y, const std::vector< UM::Pose >& c, const std::vector< V3 >& p ) { double s = 0; for ( std::size_t i = 0; i < c.size(); i++ ) for ( std::size_t j = 0; j < p.size(); j++ ) { V3 q = act( c[ i ], p[ j ] ); double d = std::hypot( q( 0 ) / q( 2 ) - y[ i ][ j ]( 0 ), q( 1 ) / q( 2 ) - y[ i ][ j ]( 1 ) ); s += d * d; } return s; }
SECTION( "bundle", 600, 12000 )
{
    double size = r.logu( 0.3, 3 ); int nc = r.in( 2, 5 ), np = r.in( 8, 20 ); std::vector< View > v = rig( r, nc, size, 0.2, true ); std::vector< V3 > p, p0; for ( int i = 0; i < np; i++ ) p0.push_back( uniVec( r, size ) ); std::vector< std::vector< V2 > > y; std::vector< UM::Pose > c, c0; for ( auto& w : v ) { c0.push_back( w.cam ); y.push_back( {} ); for ( auto& x : p0 ) y.back().push_back( pix( w.E, x ) ); } double pert = r.coin( 0.15 ) ? 0 : r.logu( 1e-6, 2e-2 ); bool noise = r.coin( 0.3 ); double nz = noise ? r.logu( 1e-6, 3e-3 ) : 0; if ( noise ) for ( auto& l : y ) for ( auto& q : l ) q = V2( q( 0 ) + r.gauss() * nz, q( 1 ) + r.gauss() * nz ); p = p0; for ( auto& x : p ) { V3 d = uniVec( r, pert * size ); x = V3( x( 0 ) + d( 0 ), x( 1 ) + d( 1 ), x( 2 ) + d( 2 ) ); } for ( auto& w : c0 ) { UM::Quaternion dq = refQuat( genAxis( r ), pert * r.uni( -1, 1 ) ); V3 d = uniVec( r, pert * size ); c.push_back( UM::Pose( dq * w.rotation(), V3( w.translation()( 0 ) + d( 0 ), w.translation()( 1 ) + d( 1 ), w.translation()( 2 ) + d( 2 ) ) ) ); } const auto y0 = y; double before = baCost( y, c, p ); std::string id = vh::fmt( "%d cameras %d points size %.3g start %.2g noise %.2g", nc, np, size, pert, nz ); vh::sample( id ); UA::simpleBundleAdjustment( y, c, p ); double after = baCost( y, c, p ); int m = nc * np * 2;
    vh::ok( "bundle.notWorse", after <= before * ( 1 + 1e-6 ) + 1e-20, id + vh::fmt( " cost %.6g -> %.6g", before, after ) ); vh::ok( "bundle.size", c.size() == std::size_t( nc ) && p.size() == std::size_t( np ) ); for ( auto& w : c ) vh::small( "bundle.unit", qnorm( w.rotation() ) - 1, 1e-12, id ); if ( !noise ) vh::small( "bundle.converged", std::sqrt( after / m ), 1e-6, id + vh::fmt( " cost %.6g -> %.6g", before, after ) ); else vh::ok( "bundle.noisy", after <= baCost( y, c0, p0 ) * 1.02 + 1e-10, id + vh::fmt( " cost %.6g -> %.6g, truth %.6g", before, after, baCost( y, c0, p0 ) ) );
    std::vector< std::vector< UM::Vector< float, 2 > > > yf; for ( auto& l : y0 ) { yf.push_back( {} ); for ( auto& q : l ) yf.back().push_back( UM::Vector< float, 2 >( float( q( 0 ) ), float( q( 1 ) ) ) ); } std::vector< UM::Vector< float, 3 > > pf; for ( auto& x : p0 ) pf.push_back( UM::Vector< float, 3 >( float( x( 0 ) + pert * 0.3 * size * r.uni( -1, 1 ) ), float( x( 1 ) ), float( x( 2 ) ) ) ); std::vector< UM::Pose > cf = c0; auto cost = [&] { std::vector< V3 > q; for ( auto& x : pf ) q.push_back( V3( x( 0 ), x( 1 ), x( 2 ) ) ); return baCost( y0, cf, q ); }; double bf = cost(); UA::simpleBundleAdjustment( yf, cf, pf ); vh::ok( "bundlef.notWorse", cost() <= bf * 1.02 + m * 1e-11, id + vh::fmt( " cost %.6g -> %.6g", bf, cost() ) );
    if ( !noise && pert > 0 ) { // shape up to a similarity
        double s = 0; int k = 0; for ( int i = 1; i < np; i++ ) { s += dist( p[ i ], p[ 0 ] ) / dist( p0[ i ], p0[ 0 ] ); k++; } s /= k; for ( int i = 1; i < np; i++ ) vh::near_( "bundle.shape", dist( p[ i ], p[ i - 1 ] ) / ( s * size ), dist( p0[ i ], p0[ i - 1 ] ) / size, 1e-4, id ); }
}
SECTION( "multicam", 1500, 30000 )
{
    double size = r.logu( 0.05, 20 ); int nc = r.in( 1, 4 ); bool init = r.coin( 0.6 ), bundles = !init && r.coin( 0.4 ); int nb = bundles ? r.in( 1, 3 ) : 1; std::vector< View > v = rig( r, nc, size * 2, 0.2 ); { double f = r.pick( std::vector< double >{ 1, 400, 800 } ); for ( auto& c : v ) while ( c.f != f ) c = view( r, c.cam ); } std::vector< V3 > p; std::vector< std::vector< V2 > > y( nc ); std::vector< std::vector< UM::Scalar< double > > > w( nc ); std::vector< UM::Scalar< int > > bs; std::vector< UM::Pose > T; 
    for ( int b = 0; b < nb; b++ ) { int np = r.in( init ? 4 : 4, 10 ); UM::Pose t; bool flat = !init; for ( int tries = 0; ; tries++ ) { t = uniPose( r, 0.5 * size ); bool good = true; if ( flat ) for ( auto& c : v ) { UM::Pose q = c.cam * t; R3 R = refMatrix( q.rotation() ); V3 o = q.translation(); double cs = std::fabs( R.m[ 0 ][ 2 ] * o( 0 ) + R.m[ 1 ][ 2 ] * o( 1 ) + R.m[ 2 ][ 2 ] * o( 2 ) ) / norm( o ); if ( cs < 0.35 ) good = false; } if ( good ) break; if ( tries > 300 ) { vh::event( "no-view" ); return; } } T.push_back( t ); bs.push_back( UM::Scalar< int >( np ) );
        for ( int i = 0; i < np; i++ ) { V3 x = uniVec( r, size ); if ( flat ) { if ( i < 4 ) x = V3( ( i & 1 ? 1 : -1 ) * size * r.uni( 0.6, 1 ), ( i & 2 ? 1 : -1 ) * size * r.uni( 0.6, 1 ), 0 ); x( 2 ) = 0; } else if ( i < 4 ) x = V3( ( i & 1 ? 1 : -1 ) * size * r.uni( 0.6, 1 ), ( i & 2 ? 1 : -1 ) * size * r.uni( 0.6, 1 ), x( 2 ) ); p.push_back( x ); for ( int c = 0; c < nc; c++ ) { bool seen = i < 4 || r.coin( 0.7 ); V2 q = pix( v[ c ].P, act( t, x ) ); y[ c ].push_back( seen ? q : r.coin() ? V2( 0, 0 ) : V2( q( 0 ) + 1e3, q( 1 ) - 7e2 ) ); w[ c ].push_back( UM::Scalar< double >( seen ? r.uni( 0.5, 1 ) : 0.0 ) ); } } }
    std::vector< UM::Pose > cams; std::vector< M33 > K; for ( auto& c : v ) { cams.push_back( c.cam ); K.push_back( m34< M33 >( c.K ) ); } double pert = r.logu( 1e-6, 0.05 ); std::string id = vh::fmt( "%d cameras %zu points size %.3g f %g %s pert %.2g", nc, p.size(), size, v[ 0 ].f, init ? "started near" : bundles ? "bundles" : "no start", pert ); vh::sample( id ); vh::event( init ? "with-start" : bundles ? "bundles" : "no-start" );
    auto judge = [&]( const UM::ErrorPose& g, double wt, const UM::Pose& t, const std::string& k ) { vh::small( k + ".rotation", rotDist( g.rotation(), t.rotation() ), 1e-5, id + vh::fmt( " residual %.3g", wt ) ); vh::small( k + ".translation", dist( g.translation(), t.translation() ) / size, 1e-5, id ); vh::ok( k + ".residual", wt >= 0 && wt < 1e-9 * v[ 0 ].f * v[ 0 ].f, id ); vh::small( k + ".unit", qnorm( g.rotation() ) - 1, 1e-9, id ); };
    int minC = r.in( 0, 4 ); if ( bundles ) { std::vector< UM::ErrorPose > ps; std::vector< UM::Scalar< double > > ws; UA::multipleCameraPoseEstimationWithLocalBundles( p, y, w, cams, K, minC, ps, ws, bs ); vh::ok( "bundles.count", ps.size() == std::size_t( nb ) && ws.size() == std::size_t( nb ), id ); for ( std::size_t i = 0; i < ps.size() && i < T.size(); i++ ) judge( ps[ i ], ws[ i ], T[ i ], "bundles" ); }
    else { UM::ErrorPose g; UM::Scalar< double > wt; UM::Pose t = T[ 0 ]; if ( init ) { V3 d = uniVec( r, pert * size ); UM::Pose s( refQuat( genAxis( r ), pert ) * t.rotation(), V3( t.translation()( 0 ) + d( 0 ), t.translation()( 1 ) + d( 1 ), t.translation()( 2 ) + d( 2 ) ) ); UA::multipleCameraPoseEstimation( p, y, w, cams, K, minC, g, wt, true, s ); } else UA::multipleCameraPoseEstimation( p, y, w, cams, K, minC, g, wt ); judge( g, wt, t, init ? "multicam" : "multicam.nostart" ); }
    // asking for more observations than a camera has: reported by a negative weight
    { UM::ErrorPose g; UM::Scalar< double > wt; UA::multipleCameraPoseEstimation( p, y, w, cams, K, int( p.size() ) + 1, g, wt ); vh::ok( "multicam.tooFew", double( wt ) < 0, id ); }
}
SECTION( "errors", 800, 8000 )
{
    int n = r.in( 0, 9 ), m = r.in( 0, 9 ); std::vector< V2 > a, b; for ( int i = 0; i < n; i++ ) a.push_back( V2( r.uni( -1, 1 ), r.uni( -1, 1 ) ) ); for ( int i = 0; i < m; i++ ) b.push_back( V2( r.uni( -1, 1 ), r.uni( -1, 1 ) ) ); std::vector< UM::Vector< float, 2 > > af, bf; for ( auto& q : a ) af.push_back( UM::Vector< float, 2 >( float( q( 0 ) ), float( q( 1 ) ) ) ); for ( auto& q : b ) bf.push_back( UM::Vector< float, 2 >( float( q( 0 ) ), float( q( 1 ) ) ) ); std::string id = vh::fmt( "%d and %d", n, m ); vh::sample( id ); std::size_t step = r.in( 0, 3 ); if ( n != m || n < 8 || step < 1 ) { vh::ok( "errors.fundamental", vh::throws( [&] { UA::getFundamentalMatrix( a, b, step ); } ), id ); vh::ok( "errors.fundamentalf", vh::throws( [&] { UA::getFundamentalMatrix( af, bf, step ); } ), id ); } else if ( n / step < 8 ) vh::ok( "errors.step", vh::throws( [&] { UA::getFundamentalMatrix( a, b, step ); } ), id + vh::fmt( " step %zu", step ) );
    std::vector< UM::Matrix< double, 3, 4 > > P( n, m34< UM::Matrix< double, 3, 4 > >( dm( 3, 4, 0.5 ) ) ); std::vector< UM::Matrix< float, 3, 4 > > Pf( n, m34< UM::Matrix< float, 3, 4 > >( dm( 3, 4, 0.5 ) ) ); if ( n != m || n < 2 ) for ( std::size_t flag = 0; flag < 2; flag++ ) { vh::ok( "errors.triangulate", vh::throws( [&] { UA::get3DPosition( P, b, flag ); } ), id ); vh::ok( "errors.triangulatef", vh::throws( [&] { UA::get3DPosition( Pf, bf, flag ); } ), id ); double q = 0; vh::ok( "errors.triangulateR", vh::throws( [&] { UA::get3DPositionWithResidual( P, b, flag, &q ); } ), id ); }
    // bundle adjustment: one pose per camera, one observation per camera and point
    { int nc = r.in( 1, 4 ), np = r.in( 1, 6 ); std::vector< UM::Pose > c; for ( int i = 0; i < nc; i++ ) c.push_back( UM::Pose( UM::Quaternion(), V3( i, 0, 5 ) ) ); std::vector< V3 > p; for ( int i = 0; i < np; i++ ) p.push_back( uniVec( r ) ); std::vector< std::vector< V2 > > y( nc, std::vector< V2 >( np, V2( 0.1, 0.1 ) ) ); int k = r.in( 0, 3 ); if ( k == 0 ) y.pop_back(); else if ( k == 1 ) y.push_back( y[ 0 ] ); else if ( k == 2 ) y[ r.in( 0, nc - 1 ) ].pop_back(); else y[ r.in( 0, nc - 1 ) ].push_back( V2( 0, 0 ) ); if ( r.coin() ) vh::ok( "errors.bundle", vh::throws( [&] { UA::simpleBundleAdjustment( y, c, p ); } ), vh::fmt( "%d cameras %d points kind %d", nc, np, k ) ); else { std::vector< std::vector< UM::Vector< float, 2 > > > yf; for ( auto& l : y ) yf.push_back( std::vector< UM::Vector< float, 2 > >( l.size(), UM::Vector< float, 2 >( 0.1f, 0.1f ) ) ); std::vector< UM::Vector< float, 3 > > pf( np, UM::Vector< float, 3 >( 0, 0, 0 ) ); vh::ok( "errors.bundlef", vh::throws( [&] { UA::simpleBundleAdjustment( yf, c, pf ); } ), vh::fmt( "%d cameras %d points kind %d", nc, np, k ) ); } }
    { int nc = r.in( 1, 3 ), np = r.in( 3, 6 ); std::vector< V3 > p; for ( int i = 0; i < np; i++ ) p.push_back( uniVec( r ) ); std::vector< std::vector< V2 > > y( nc, std::vector< V2 >( np, V2( 0.1, 0.1 ) ) ); std::vector< std::vector< UM::Scalar< double > > > w( nc, std::vector< UM::Scalar< double > >( np, UM::Scalar< double >( 1.0 ) ) ); std::vector< UM::Pose > c( nc ); std::vector< M33 > K( nc, M33::identity() ); std::vector< UM::Scalar< int > > bs( 1, UM::Scalar< int >( np ) ); int k = r.in( 0, 10 ); switch ( k ) { case 0: p.pop_back(); break; case 1: y.pop_back(); break; case 2: w.pop_back(); break; case 3: c.pop_back(); break; case 4: K.pop_back(); break; case 5: y[ r.in( 0, nc - 1 ) ].pop_back(); break; case 6: w[ r.in( 0, nc - 1 ) ].pop_back(); break; case 7: { int keep = r.in( 0, 2 ); p.resize( keep ); for ( auto& l : y ) l.resize( keep ); for ( auto& l : w ) l.resize( keep ); } break; case 8: bs.push_back( UM::Scalar< int >( r.in( 1, 3 ) ) ); break; case 9: bs[ 0 ] = UM::Scalar< int >( r.in( -1, 0 ) ); break; default: y.clear(); w.clear(); c.clear(); K.clear(); } UM::ErrorPose g; UM::Scalar< double > wt; std::vector< UM::ErrorPose > ps; std::vector< UM::Scalar< double > > ws; if ( k < 8 || k == 10 ) vh::ok( "errors.multicam", vh::throws( [&] { UA::multipleCameraPoseEstimation( p, y, w, c, K, 0, g, wt ); } ), vh::fmt( "kind %d", k ) ); vh::ok( "errors.bundles", vh::throws( [&] { UA::multipleCameraPoseEstimationWithLocalBundles( p, y, w, c, K, k != 8 ? 0 : 100, ps, ws, bs ); } ), vh::fmt( "kind %d", k ) ); }
}
VH_MAIN
