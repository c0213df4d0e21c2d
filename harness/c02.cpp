// C02: rigid poses compose, invert and act on points as one group
#include "um.h"
#include <utMath/Geometry/container_traits.h>
#include <utMath/Geometry/PointTransformation.h>
using namespace um;
using UM::Quaternion; using UM::Pose;

static double mag( const Pose& p ) { return norm( p.translation() ); }
/// same rigid motion, translation tolerance relative to scale s
static void same( const std::string& key, const Pose& a, const Quaternion& q, const V3& t, double s, const std::string& m, double tol = 1e-13 )
{
    vh::small( key + ".rot", diff( refMatrix( a.rotation() ), refMatrix( q ) ), tol, m );
    vh::small( key + ".unit", qnorm( a.rotation() ) - 1, 1e-12, m );
    vh::small( key + ".trans", dist( a.translation(), t ) / ( s + 1e-300 ), tol, m );
}
SECTION( "compose", 30000, 400000 )
{
    double sc = genScale( r ), sp = genScale( r );
    Pose a = genPose( r, sc ), b = genPose( r, r.coin() ? sc : genScale( r ) ), c = genPose( r, sc ); V3 x = genVec( r, sp );
    std::string m = str( a ) + " * " + str( b ) + " x " + str( x ); vh::sample( m );
    double s = mag( a ) + mag( b ) + mag( c ) + norm( x );
    V3 ax = act( a, x ); vh::small( "act", dist( a * x, ax ) / ( s + 1e-300 ), 1e-14, m );
    Pose ab = a * b; V3 abx = act( a, act( b, x ) );
    vh::small( "composeAct", dist( ab * x, abx ) / ( s + 1e-300 ), 1e-14, m );
    same( "compose", ab, Quaternion( a.rotation() * b.rotation() ), act( a, b.translation() ), s, m );
    Pose l = ( a * b ) * c, rr = a * ( b * c ); same( "assoc", l, rr.rotation(), rr.translation(), s, m );
    Pose i = ~a; vh::small( "inverseAct", dist( act( i, ax ), x ) / ( s + 1e-300 ), 1e-14, m );
    same( "inverseLeft", i * a, Quaternion(), V3( 0, 0, 0 ), s, m ); same( "inverseRight", a * i, Quaternion(), V3( 0, 0, 0 ), s, m );
    Pose ii = ~i; same( "inverseTwice", ii, a.rotation(), a.translation(), s, m );
    Pose iab = ~ab, ibia = ~b * ~a; same( "inverseOfProduct", iab, ibia.rotation(), ibia.translation(), s, m );
    Pose id; same( "identity", id, Quaternion(), V3( 0, 0, 0 ), 1, m ); Pose ai = a * id, ia = id * a;
    same( "identityRight", ai, a.rotation(), a.translation(), s, m ); same( "identityLeft", ia, a.rotation(), a.translation(), s, m );
    Pose an( neg( a.rotation() ), a.translation() ), abn = an * b; same( "signFree", abn, ab.rotation(), ab.translation(), s, m );
    vh::small( "signFreeAct", dist( an * x, a * x ) / ( s + 1e-300 ), 1e-15, m );
    // rigid: distances are kept
    V3 y = genVec( r, sp ); vh::small( "rigid", ( dist( a * x, a * y ) - dist( x, y ) ) / ( s + norm( y ) + 1e-300 ), 1e-14, m );
    vh::ok( "equal", a == a && !( a != a ), m );
    Pose a2( a.rotation(), V3( a.translation()( 0 ) + sc * 1e-3 + 1e-12, a.translation()( 1 ), a.translation()( 2 ) ) );
    vh::ok( "unequalTranslation", a != a2 && !( a == a2 ), m );
    A3 n = genAxis( r ); Pose a3( Quaternion( a.rotation() * refQuat( n, 0.01 ) ), a.translation() );
    vh::ok( "unequalRotation", a != a3 && !( a == a3 ), m );
}
SECTION( "chain", 400, 6000 )
{   // long chains stay a rigid motion and equal the reference composition
    int n = r.in( 2, 300 ); Pose p; R3 R; A3 t{ { 0, 0, 0 } }; double s = 0; std::vector< Pose > all;
    for ( int i = 0; i < n; i++ )
    {
        Pose q = genPose( r, 1 ); all.push_back( q ); p = p * q; A3 qt = R * toA3( q.translation() ); for ( int k = 0; k < 3; k++ ) t[ k ] += qt[ k ]; R = R * refMatrix( q.rotation() ); s += mag( q );
    }
    vh::event( "poses_composed", n );
    vh::small( "chain.rot", diff( refMatrix( p.rotation() ), R ), 1e-12 ); vh::small( "chain.trans", dist( p.translation(), toV3( t ) ) / ( s + 1 ), 1e-12 );
    for ( int i = n - 1; i >= 0; i-- ) p = p * ~all[ i ];
    vh::small( "unchain.rot", diff( refMatrix( p.rotation() ), R3() ), 1e-11 ); vh::small( "unchain.trans", mag( p ) / ( s + 1 ), 1e-11 );
}
SECTION( "forms", 20000, 300000 )
{
    double sc = genScale( r ); Pose a = genPose( r, sc ); std::string m = str( a ); vh::sample( m ); double s = mag( a );
    // homogeneous matrices
    UM::Matrix< double, 4, 4 > h( a ); UM::Matrix< double, 3, 4 > h3( a ); R3 R = refMatrix( a.rotation() );
    for ( int i = 0; i < 3; i++ ) vh::ok( "matrix.trans", h( i, 3 ) == a.translation()( i ) && h3( i, 3 ) == a.translation()( i ), m );
    vh::small( "matrix44.rot", diff( toR3( h ), R ), 1e-13, m ); vh::small( "matrix34.rot", diff( toR3( h3 ), R ), 1e-13, m );
    vh::ok( "matrix44.last", h( 3, 0 ) == 0 && h( 3, 1 ) == 0 && h( 3, 2 ) == 0 && h( 3, 3 ) == 1, m );
    UM::Matrix< double, 3, 3 > h33( a.rotation() ); vh::small( "matrix33", diff( toR3( h33 ), R ), 1e-13, m );
    same( "fromMatrix44", Pose( h ), a.rotation(), a.translation(), s, m, 2e-12 );
    same( "fromMatrix34", Pose( h3 ), a.rotation(), a.translation(), s, m, 2e-12 );
    UM::Matrix< double, 3, 4 > qt( a.rotation(), a.translation() ); vh::small( "matrixQT", diff( toR3( qt ), R ), 1e-13, m );
    for ( int i = 0; i < 3; i++ ) vh::ok( "matrixQT.trans", qt( i, 3 ) == a.translation()( i ), m );
    UM::Matrix< double, 4, 4 > qt4( a.rotation(), a.translation() ); vh::small( "matrixQT44", diff( toR3( qt4 ), R ), 1e-13, m );
    vh::ok( "matrixQT44.last", qt4( 3, 0 ) == 0 && qt4( 3, 1 ) == 0 && qt4( 3, 2 ) == 0 && qt4( 3, 3 ) == 1, m );
    // matrices act as the pose
    V3 x = genVec( r, genScale( r ) ); V3 e = act( a, x ); double ss = s + norm( x ) + 1e-300;
    V3 y; for ( int i = 0; i < 3; i++ ) y( i ) = h( i, 0 ) * x( 0 ) + h( i, 1 ) * x( 1 ) + h( i, 2 ) * x( 2 ) + h( i, 3 ); vh::small( "matrixAct", dist( y, e ) / ss, 1e-13, m );
    // 7-vector
    UM::Vector< double, 7 > v; a.toVector( v ); bool okv = true; for ( int i = 0; i < 3; i++ ) okv = okv && v( i ) == a.translation()( i );
    okv = okv && v( 3 ) == a.rotation().x() && v( 4 ) == a.rotation().y() && v( 5 ) == a.rotation().z() && v( 6 ) == a.rotation().w(); vh::ok( "toVector", okv, m );
    vh::ok( "fromVector", Pose::fromVector( v ) == a, m );
    UM::Vector< double, 0 > vd( 7 ); a.toVector( vd ); vh::ok( "fromVectorDyn", Pose::fromVector( vd ) == a, m );
    UM::Vector< float, 7 > vf; a.toVector( vf ); vh::ok( "toVectorFloat", vf( 0 ) == float( a.translation()( 0 ) ) && vf( 2 ) == float( a.translation()( 2 ) ) && vf( 6 ) == float( a.rotation().w() ) && vf( 3 ) == float( a.rotation().x() ), m );
    // scaling
    double f = r.sgn() * r.logu( 1e-3, 1e3 ); Pose p( a ); p.scalePose( f ); vh::ok( "scaleKeepsRotation", p.rotation() == a.rotation(), m );
    V3 w; for ( int i = 0; i < 3; i++ ) w( i ) = a.translation()( i ) * f; vh::small( "scale", dist( p.translation(), w ) / ( s * std::fabs( f ) + 1e-300 ), 1e-15, m );
}
VH_MAIN
