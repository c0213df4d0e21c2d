// C03: interpolated rotations and poses stay on the shortest arc
#include "um.h"
using namespace um;
using UM::Quaternion; using UM::Pose;

/// reference point on the shorter arc from a to b, through the axis-angle form of the difference
struct Arc { A3 n; double ang; };
static double genT( Rng& r ) { switch ( r.in( 0, 5 ) ) { case 0: return 0; case 1: return 1; case 2: return 0.5; case 3: return r.logu( 1e-9, 1 ); default: return r.u01(); } }

SECTION( "slerp", 40000, 600000 )
{
    Quaternion a = genQuat( r ); A3 n = genAxis( r ); double ang;
    switch ( r.in( 0, 6 ) ) { case 0: ang = 0; break; case 1: ang = r.logu( 1e-16, 1e-3 ); break; case 2: ang = PI - r.logu( 1e-9, 1e-2 ); break; case 3: ang = r.uni( 0.02, 0.04 ); break; case 4: ang = r.in( 1, 11 ) * PI / 12; break; default: ang = r.uni( 0, PI ); }
    Quaternion b( a * refQuat( n, ang ) ); bool sa = r.coin(), sb = r.coin(); Quaternion A = sa ? neg( a ) : a, B = sb ? neg( b ) : b;
    double t = genT( r ); std::string m = str( A ) + str( B ) + vh::fmt( " t %.17g angle %.17g", t, ang ); vh::sample( m );
    Quaternion want( a * refQuat( n, ang * t ) );
    Quaternion s = slerp( A, B, t );
    vh::small( "unit", qnorm( s ) - 1, 1e-13, m );
    // nearly equal rotations are interpolated linearly (deviation third order in the angle)
    double tol = ang < 0.03 ? 1e-13 + ang * ang * ang : 1e-12 / std::max( 1e-3, PI - ang );
    vh::small( ang < 0.03 ? "arc.near" : "arc", rotDist( s, want ), tol + 1e-13, m );
    // same result whichever sign: as rotations
    vh::small( "sign", rotDist( s, slerp( a, b, t ) ), 1e-12 / std::max( 1e-3, PI - ang ), m );
    vh::small( "start", rotDist( slerp( A, B, 0 ), a ), 1e-13, m ); vh::small( "end", rotDist( slerp( A, B, 1 ), b ), 1e-13, m );
    // reversal
    vh::small( "reverse", rotDist( slerp( B, A, 1 - t ), s ), 1e-12 / std::max( 1e-3, PI - ang ), m );
    vh::ok( "sameAsLinear", linearInterpolate( A, B, t ) == s, m );
    // never farther from the ends than the ends are from each other, and additive along the arc
    vh::small( "additive", rotDist( s, a ) + rotDist( s, b ) - ang, 1e-11 / std::max( 1e-3, PI - ang ) + ( ang < 0.03 ? 1e-12 : 0 ), m );
}
SECTION( "halfTurn", 10000, 100000 )
{   // opposite orientations: either of the two arcs, but a finite unit rotation on one of them
    Quaternion a = genQuat( r ); A3 n = genAxis( r ); Quaternion b( a * refQuat( n, PI ) ); if ( r.coin() ) b = neg( b ); if ( r.coin() ) a = neg( a );
    double t = genT( r ); std::string m = str( a ) + str( b ) + vh::fmt( " t %.17g", t ); Quaternion s = slerp( a, b, t );
    vh::small( "half.unit", qnorm( s ) - 1, 1e-12, m );
    double d1 = rotDist( s, Quaternion( a * refQuat( n, PI * t ) ) ), d2 = rotDist( s, Quaternion( a * refQuat( n, -PI * t ) ) );
    vh::small( "half.arc", std::min( d1, d2 ), 1e-12, m );
}
SECTION( "pose", 20000, 300000 )
{
    double sc = genScale( r ); Pose a = genPose( r, sc ), b = genPose( r, sc ); double t = genT( r );
    std::string m = str( a ) + str( b ) + vh::fmt( " t %.17g", t ); vh::sample( m );
    double s = norm( a.translation() ) + norm( b.translation() ) + 1e-300;
    Pose p = linearInterpolate( a, b, t ); V3 w; for ( int i = 0; i < 3; i++ ) w( i ) = a.translation()( i ) * ( 1 - t ) + b.translation()( i ) * t;
    vh::small( "pose.trans", dist( p.translation(), w ) / s, 1e-14, m );
    vh::small( "pose.rot", rotDist( p.rotation(), slerp( a.rotation(), b.rotation(), t ) ), 1e-13, m );
    vh::small( "pose.unit", qnorm( p.rotation() ) - 1, 1e-12, m );
    V3 v = linearInterpolate( a.translation(), b.translation(), t ); vh::small( "vec", dist( v, w ) / s, 1e-14, m );
    Pose p0 = linearInterpolate( a, b, 0 ), p1 = linearInterpolate( a, b, 1 );
    vh::small( "pose.start", rotDist( p0.rotation(), a.rotation() ) + dist( p0.translation(), a.translation() ) / s, 1e-13, m );
    vh::small( "pose.end", rotDist( p1.rotation(), b.rotation() ) + dist( p1.translation(), b.translation() ) / s, 1e-13, m );
}
SECTION( "list", 3000, 40000 )
{
    int n = r.in( 0, 12 ); std::vector< Pose > a, b; for ( int i = 0; i < n; i++ ) { a.push_back( genPose( r ) ); b.push_back( genPose( r ) ); }
    double t = genT( r ); std::vector< Pose > p = linearInterpolate( a, b, t );
    vh::ok( "list.size", int( p.size() ) == n );
    for ( int i = 0; i < n && i < int( p.size() ); i++ ) { Pose e = linearInterpolate( a[ i ], b[ i ], t ); vh::small( "list.item", rotDist( p[ i ].rotation(), e.rotation() ) + dist( p[ i ].translation(), e.translation() ), 1e-13 ); }
}
VH_MAIN
