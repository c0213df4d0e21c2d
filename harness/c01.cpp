// C01: all representations of a rotation describe the same rotation
#include "um.h"
#include <utMath/RotationVelocity.h>
#include <utMath/Util/RotationCast.h>
using namespace um;
using UM::Quaternion;
namespace U = Ubitrack::Math::Util;

static UM::Matrix< double, 0, 0 > dynMat( const R3& m, int rows, int cols )
{
    UM::Matrix< double, 0, 0 > d( rows, cols ); for ( int i = 0; i < rows; i++ ) for ( int j = 0; j < cols; j++ ) d( i, j ) = i < 3 && j < 3 ? m.m[ i ][ j ] : ( i == j ? 1 : 7.5 + i - j ); return d;
}
/// the rotation carried by q must be the reference matrix
static void same( const char* key, const Quaternion& q, const R3& want, double tol, const std::string& msg )
{
    vh::small( std::string( key ) + ".unit", qnorm( q ) - 1, std::max( tol, 1e-9 ), msg );
    vh::small( key, diff( refMatrix( q ), want ), tol, msg );
}
template< class T > static double mdiff( const T& m, const R3& w ) { return diff( toR3( m ), w ); }

SECTION( "construct", 20000, 400000 )
{
    A3 n; double a; Quaternion q = genQuat( r, &n, &a ); R3 R = rodrigues( n, a );
    std::string m = vh::fmt( "axis (%.17g,%.17g,%.17g) angle %.17g ", n[ 0 ], n[ 1 ], n[ 2 ], a );
    vh::sample( m );
    // axis-angle constructor, any axis length
    double len = r.coin() ? 1 : r.logu( 1e-6, 1e6 );
    same( "axisAngleCtor", Quaternion( V3( n[ 0 ] * len, n[ 1 ] * len, n[ 2 ] * len ), a ), R, 1e-13, m );
    // to matrix: 3x3, 4x4, 3x4 and dynamic
    UM::Matrix< double, 3, 3 > m3; q.toMatrix( m3 ); vh::small( "toMatrix33", mdiff( m3, R ), 1e-13, m );
    UM::Matrix< double, 4, 4 > m4 = boost::numeric::ublas::identity_matrix< double >( 4 ); q.toMatrix( m4 ); vh::small( "toMatrix44", mdiff( m4, R ), 1e-13, m );
    vh::ok( "toMatrix44.rest", m4( 3, 3 ) == 1 && m4( 0, 3 ) == 0 && m4( 3, 0 ) == 0, m );
    UM::Matrix< float, 3, 3 > mf; q.toMatrix( mf ); vh::small( "toMatrixFloat", mdiff( mf, R ), 2e-6, m );
    // from matrix
    Quaternion qm( dynMat( R, 3, 3 ) ); same( "fromMatrix", qm, R, 2e-12, m );
    Quaternion qm4( dynMat( R, 4, 4 ) ); same( "fromMatrix44", qm4, R, 2e-12, m );
    Quaternion qm34( dynMat( R, 3, 4 ) ); same( "fromMatrix34", qm34, R, 2e-12, m );
    Quaternion qfix( m3 ); same( "fromFixedMatrix", qfix, R, 2e-12, m );
    // action on vectors
    V3 v = genVec( r, genScale( r ) ); double s = norm( v ) + 1e-300;
    V3 w = q * v; A3 e = R * toA3( v ); vh::small( "rotateVector", dist( w, toV3( e ) ) / s, 1e-14, m );
    V3 w2 = neg( q ) * v; vh::small( "rotateVectorSign", dist( w, w2 ) / s, 1e-15, m );
    // angle(): magnitude in [0,pi]
    double ref = std::fabs( std::remainder( a, 2 * PI ) );
    vh::near_( "angle", q.angle(), ref, 6e-8, m );
    // logarithm / exponential
    V3 l = q.toLogarithm(); vh::small( "logLength", norm( l ) - ref, 1e-7, m );
    A3 ln = toA3( l ); double al = norm( ln ); if ( al > 0 ) { for ( double& x : ln ) x /= al; }
    vh::small( "logDirection", diff( rodrigues( ln, al ), R ), 1e-7, m );
    same( "expLog", Quaternion::fromLogarithm( l ), R, 1e-7, m );
    V3 rv( n[ 0 ] * a, n[ 1 ] * a, n[ 2 ] * a ); same( "exp", Quaternion::fromLogarithm( rv ), R, 2e-12, m );
    same( "expNeg", ~Quaternion::fromLogarithm( -rv ), R, 2e-12, m );
    // axis/angle output
    V3 ax( 9, 9, 9 ); double an = 77; Quaternion qc( q ); qc.toAxisAngle( ax, an );
    A3 an3 = toA3( ax ); double alen = norm( an3 );
    vh::ok( "toAxisAngle.finite", std::isfinite( alen ) && std::isfinite( an ), m );
    if ( alen > 0 ) { for ( double& x : an3 ) x /= alen; vh::small( "toAxisAngle", diff( rodrigues( an3, an ), R ), 1e-7, m ); }
    else vh::small( "toAxisAngle.zero", diff( rodrigues( A3{ { 1, 0, 0 } }, an ), R ), 1e-7, m );
    same( "axisAngleRoundTrip", Quaternion( ax, an ), R, 1e-7, m );
    // vector forms
    UM::Vector< double, 4 > v4; q.toVector( v4 ); vh::ok( "toVector", v4( 0 ) == q.x() && v4( 1 ) == q.y() && v4( 2 ) == q.z() && v4( 3 ) == q.w(), m );
    vh::ok( "fromVector", Quaternion::fromVector( v4 ) == q, m );
    UM::Vector< float, 4 > f4; q.toVector( f4 ); vh::ok( "toVectorFloat", f4( 0 ) == float( q.x() ) && f4( 3 ) == float( q.w() ) && f4( 1 ) == float( q.y() ) && f4( 2 ) == float( q.z() ), m );
}

SECTION( "nearUnit", 6000, 100000 )
{   // quaternions that are unit only up to rounding (products of many): nothing may become non-finite
    Quaternion q = genQuat( r ); double s = 1 + r.in( -8, 8 ) * 2.220446e-16;
    q = Quaternion( q.x() * s, q.y() * s, q.z() * s, q.w() * s );
    std::string m = str( q );
    R3 R = refMatrix( q );
    vh::finite( "nearUnit.angle", q.angle(), m );
    vh::small( "nearUnit.log", diff( refMatrix( Quaternion::fromLogarithm( q.toLogarithm() ) ), R ), 4e-7, m );
    V3 ax; double an; q.toAxisAngle( ax, an ); vh::ok( "nearUnit.axisAngle", std::isfinite( an ) && std::isfinite( norm( ax ) ), m );
    V4 aa = U::RotationCast< V4 >()( q ); vh::ok( "nearUnit.castAxisAngle", std::isfinite( aa( 0 ) ) && std::isfinite( aa( 1 ) ) && std::isfinite( aa( 2 ) ) && std::isfinite( aa( 3 ) ), m );
    for ( int sq = 0; sq < 6; sq++ ) { V3 e = q.getEulerAngles( Quaternion::t_EulerSequence( sq ) ); vh::ok( "nearUnit.euler", std::isfinite( norm( e ) ), m ); }
    V3 e = q.getEulerAngles(); vh::ok( "nearUnit.euler", std::isfinite( norm( e ) ), m );
}

SECTION( "algebra", 20000, 300000 )
{
    Quaternion a = genQuat( r ), b = genQuat( r ), c = genQuat( r );
    R3 A = refMatrix( a ), B = refMatrix( b ), C = refMatrix( c ); std::string m = str( a ) + " " + str( b ) + " " + str( c ); vh::sample( m );
    same( "product", a * b, A * B, 1e-14, m );
    same( "assoc", ( a * b ) * c, A * ( B * C ), 1e-14, m );
    same( "conj", ~a, A.t(), 1e-14, m );
    Quaternion i( a ); Quaternion& ir = i.invert(); same( "invert", i, A.t(), 1e-14, m ); vh::ok( "invertReturnsSelf", &ir == &i, m );
    same( "inverseLeft", ~a * a, R3(), 1e-14, m ); same( "inverseRight", a * ~a, R3(), 1e-14, m );
    same( "inverseOfProduct", ~Quaternion( a * b ), ( A * B ).t(), 1e-14, m );
    Quaternion id; vh::ok( "identity", id.w() == 1 && id.x() == 0 && id.y() == 0 && id.z() == 0, "default is not the identity" );
    vh::ok( "identityNeutral", rotDist( a * id, a ) < 1e-15 && rotDist( id * a, a ) < 1e-15, m );
    Quaternion q( a ); q *= b; same( "timesAssign", q, A * B, 1e-14, m );
    double s = r.sgn() * r.logu( 1e-9, 1e9 ); Quaternion u( a.x() * s, a.y() * s, a.z() * s, a.w() * s ); Quaternion& ur = u.normalize();
    same( "normalize", u, A, 1e-14, m ); vh::ok( "normalizeReturnsSelf", &ur == &u, m );
    vh::ok( "normalizeKeepsSign", ( u.w() * a.w() + u.x() * a.x() + u.y() * a.y() + u.z() * a.z() ) * s > 0, m );
    // negateIfCloser: same rotation, non-negative product with the reference
    Quaternion n = a.negateIfCloser( b ); double d = n.x() * b.x() + n.y() * b.y() + n.z() * b.z() + n.w() * b.w();
    same( "negateIfCloser", n, A, 1e-14, m ); vh::ok( "negateIfCloser.sign", d >= -1e-15, m );
    // vector action of a product
    V3 v = genVec( r, genScale( r ) ); double sc = norm( v ) + 1e-300;
    vh::small( "productAction", dist( Quaternion( a * b ) * v, a * ( b * v ) ) / sc, 1e-14, m );
    vh::small( "isometry", ( norm( a * v ) - norm( v ) ) / sc, 1e-14, m );
    // construction from the boost base type
    boost::math::quaternion< double > bq( a ); vh::ok( "fromBase", Quaternion( bq ) == a, m );
}

static R3 eulerRef( int seq, const V3& e )
{
    static const int ax[ 6 ][ 3 ] = { { 0, 1, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 }, { 0, 2, 1 }, { 1, 0, 2 } };
    return axisRot( ax[ seq ][ 2 ], e( 2 ) ) * axisRot( ax[ seq ][ 1 ], e( 1 ) ) * axisRot( ax[ seq ][ 0 ], e( 0 ) );
}
SECTION( "euler", 20000, 300000 )
{
    Quaternion q; int seq = r.in( 0, 5 );
    if ( r.coin() ) q = genQuat( r );
    else
    {   // built around the singular middle angle of this sequence
        V3 e( genAngle( r ), r.sgn() * ( PI / 2 - ( r.coin( 0.3 ) ? 0 : r.logu( 1e-9, 0.3 ) ) ), genAngle( r ) );
        static const int ax[ 6 ][ 3 ] = { { 0, 1, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 }, { 0, 2, 1 }, { 1, 0, 2 } };
        A3 n0{ { 0, 0, 0 } }, n1 = n0, n2 = n0; n0[ ax[ seq ][ 0 ] ] = n1[ ax[ seq ][ 1 ] ] = n2[ ax[ seq ][ 2 ] ] = 1;
        Quaternion p = refQuat( n2, e( 2 ) ), s = refQuat( n1, e( 1 ) ), t = refQuat( n0, e( 0 ) );
        q = Quaternion( p * s * t );
    }
    R3 R = refMatrix( q ); std::string m = str( q ) + vh::fmt( " seq %d", seq ); vh::sample( m );
    V3 e = q.getEulerAngles( Quaternion::t_EulerSequence( seq ) );
    // sine of the middle angle, from the reference matrix
    static const int ax[ 6 ][ 3 ] = { { 0, 1, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 }, { 0, 2, 1 }, { 1, 0, 2 } };
    double sb = std::fabs( R.m[ ax[ seq ][ 2 ] ][ ax[ seq ][ 0 ] ] );
    // documented approximation near gimbal lock: the middle angle is taken as 90 degrees there
    bool lock = sb > 0.9975;
    vh::small( lock ? "eulerSeq.lock" : "eulerSeq", diff( eulerRef( seq, e ), R ), lock ? 0.13 : 1e-12, m );
    vh::ok( "eulerSeq.range", std::fabs( e( 1 ) ) <= PI / 2 + 1e-12 && std::isfinite( norm( e ) ), m );
    // away from the range boundary, the sign of the quaternion does not matter
    V3 e2 = neg( q ).getEulerAngles( Quaternion::t_EulerSequence( seq ) );
    vh::small( lock ? "eulerSeqSign.lock" : "eulerSeqSign", diff( eulerRef( seq, e2 ), R ), lock ? 0.13 : 1e-12, m );
    V3 d = q.getEulerAngles(); double sy = std::fabs( R.m[ 2 ][ 0 ] ); bool lock2 = sy > 1 - 1e-9;
    vh::small( lock2 ? "euler.lock" : "euler", diff( eulerRef( 0, d ), R ), lock2 ? 2e-4 : 1e-9, m );
    // angle constructor: heading about y, then z, then x, in the order the class uses
    double ex = genAngle( r ), ey = genAngle( r ), ez = genAngle( r );
    same( "eulerCtor", Quaternion( ex, ey, ez ), axisRot( 1, ey ) * axisRot( 2, ex ) * axisRot( 0, ez ), 1e-13, vh::fmt( "%.17g %.17g %.17g", ex, ey, ez ) );
}

template< class T > static void castAll( Rng& r, double tol, double tolEdge, const char* pfx )
{
    A3 n; double a; Quaternion q = genQuat( r, &n, &a ); R3 R = rodrigues( n, a );
    std::string m = vh::fmt( "axis (%.17g,%.17g,%.17g) angle %.17g ", n[ 0 ], n[ 1 ], n[ 2 ], a ) + str( q ), p = pfx; vh::sample( m );
    typedef UM::Vector< T, 4 > W4; typedef UM::Vector< T, 3 > W3; typedef UM::Matrix< T, 3, 3 > W33; typedef UM::Matrix< T, 4, 4 > W44; typedef UM::Matrix< T, 3, 4 > W34;
    double an = std::remainder( a, 2 * PI );
    W4 aa; for ( int i = 0; i < 3; i++ ) aa( i ) = T( n[ i ] ); aa( 3 ) = T( an );
    W3 rv; for ( int i = 0; i < 3; i++ ) rv( i ) = T( n[ i ] * an );
    W33 M; W44 M4 = boost::numeric::ublas::identity_matrix< T >( 4 ); W34 M34x = boost::numeric::ublas::zero_matrix< T >( 3, 4 ); for ( int i = 0; i < 3; i++ ) for ( int j = 0; j < 3; j++ ) M( i, j ) = M4( i, j ) = M34x( i, j ) = T( R.m[ i ][ j ] );
    M34x( 0, 3 ) = 3; M4( 1, 3 ) = -5;
    auto aaM = []( const W4& x ) { A3 v{ { x( 0 ), x( 1 ), x( 2 ) } }; double l = norm( v ); if ( l > 0 ) for ( double& y : v ) y /= l; else v = A3{ { 1, 0, 0 } }; return rodrigues( v, l > 0 ? double( x( 3 ) ) : 0.0 ); };
    auto rvM = []( const W3& x ) { A3 v{ { x( 0 ), x( 1 ), x( 2 ) } }; double l = norm( v ); if ( l > 0 ) for ( double& y : v ) y /= l; return rodrigues( v, l ); };
    // -> quaternion
    vh::small( p + "q<-q", diff( refMatrix( U::RotationCast< Quaternion >()( q ) ), R ), 1e-13, m );
    vh::small( p + "q<-aa", diff( refMatrix( U::RotationCast< Quaternion >()( aa ) ), R ), tol, m );
    vh::small( p + "q<-rv", diff( refMatrix( U::RotationCast< Quaternion >()( rv ) ), R ), tol, m );
    vh::small( p + "q<-m33", diff( refMatrix( U::RotationCast< Quaternion >()( M ) ), R ), tolEdge, m );
    vh::small( p + "q<-m44", diff( refMatrix( U::RotationCast< Quaternion >()( M4 ) ), R ), tolEdge, m );
    vh::small( p + "q<-m34", diff( refMatrix( U::RotationCast< Quaternion >()( M34x ) ), R ), tolEdge, m );
    // -> axis angle
    vh::small( p + "aa<-q", diff( aaM( U::RotationCast< W4 >()( q ) ), R ), tolEdge, m );
    vh::small( p + "aa<-rv", diff( aaM( U::RotationCast< W4 >()( rv ) ), R ), tol, m );
    vh::small( p + "aa<-m33", diff( aaM( U::RotationCast< W4 >()( M ) ), R ), tolEdge, m );
    vh::small( p + "aa<-m44", diff( aaM( U::RotationCast< W4 >()( M4 ) ), R ), tolEdge, m );
    vh::small( p + "aa<-aa", diff( aaM( U::RotationCast< W4 >()( aa ) ), R ), tol, m );
    // -> rotation vector
    vh::small( p + "rv<-q", diff( rvM( U::RotationCast< W3 >()( q ) ), R ), tolEdge, m );
    vh::small( p + "rv<-aa", diff( rvM( U::RotationCast< W3 >()( aa ) ), R ), tol, m );
    vh::small( p + "rv<-m33", diff( rvM( U::RotationCast< W3 >()( M ) ), R ), tolEdge, m );
    vh::small( p + "rv<-rv", diff( rvM( U::RotationCast< W3 >()( rv ) ), R ), tol, m );
    // -> matrix
    vh::small( p + "m<-q", diff( toR3( U::RotationCast< W33 >()( q ) ), R ), tol, m );
    vh::small( p + "m44<-q", diff( toR3( U::RotationCast< W44 >()( q ) ), R ), tol, m );
    vh::small( p + "m<-aa", diff( toR3( U::RotationCast< W33 >()( aa ) ), R ), tol, m );
    vh::small( p + "m<-rv", diff( toR3( U::RotationCast< W33 >()( rv ) ), R ), tol, m );
    vh::small( p + "m<-m", diff( toR3( U::RotationCast< W33 >()( M ) ), R ), tol, m );
}
SECTION( "castDouble", 20000, 300000 ) { castAll< double >( r, 1e-9, 3e-7, "d:" ); }
SECTION( "castFloat", 8000, 100000 ) { castAll< float >( r, 3e-6, 3e-3, "f:" ); }

SECTION( "velocity", 10000, 150000 )
{
    // true angular velocity (body frame) w; b = a * exp(w dt)
    A3 n = genAxis( r ); double dt = r.logu( 1e-4, 10 ), ang = r.coin( 0.2 ) ? 0 : r.coin( 0.3 ) ? r.logu( 1e-9, 1e-2 ) : r.uni( 0, PI - 1e-3 );
    if ( r.coin( 0.2 ) ) ang = PI - r.logu( 1e-7, 1e-2 );
    Quaternion a = genQuat( r ), d = refQuat( n, ang ), b( a * d ); if ( r.coin() ) b = neg( b );
    std::string m = str( a ) + str( b ) + vh::fmt( " dt %.17g", dt ); vh::sample( m );
    UM::RotationVelocity v( a, b, dt );
    V3 w( n[ 0 ] * ang / dt, n[ 1 ] * ang / dt, n[ 2 ] * ang / dt );
    vh::small( "velocity", dist( v, w ) * dt, 3e-7, m );
    vh::small( "velocityIntegrates", rotDist( a * v.integrate( dt ), b ), 3e-7, m );
    double f = r.uni( -2, 2 );
    vh::small( "integrateScales", rotDist( UM::RotationVelocity( w ).integrate( dt * f ), refQuat( n, ang * f ) ), 1e-9, m );
    vh::near_( "angularVelocity", UM::RotationVelocity( w ).angularVelocity() * dt, ang, 1e-12, m );
    if ( ang > 1e-8 ) vh::small( "axis", dist( UM::RotationVelocity( w ).axis(), toV3( n ) ), 1e-9, m );
    UM::RotationVelocity z( 0, 0, 0 ); vh::ok( "zeroAxis", norm( z.axis() ) == 0 && z.angularVelocity() == 0 && rotDist( z.integrate( dt ), Quaternion() ) == 0, "" );
}
VH_MAIN
