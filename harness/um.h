// Generators and independent reference arithmetic (plain arrays, long double where useful) shared by
// the harnesses. Nothing here calls the library to compute a reference value.
#pragma once
#include "vh.h"
#include <utMath/Vector.h>
#include <utMath/Matrix.h>
#include <utMath/Quaternion.h>
#include <utMath/Pose.h>
#include <array>

namespace um {
using vh::Rng;
namespace UM = Ubitrack::Math;
typedef UM::Vector< double, 2 > V2;
typedef UM::Vector< double, 3 > V3;
typedef UM::Vector< double, 4 > V4;
typedef UM::Matrix< double, 3, 3 > M33;
typedef UM::Matrix< double, 3, 4 > M34;
typedef UM::Matrix< double, 4, 4 > M44;

const double PI = 3.14159265358979323846;

struct R3 // reference rotation/matrix
{
    double m[ 3 ][ 3 ];
    R3() { for ( int i = 0; i < 3; i++ ) for ( int j = 0; j < 3; j++ ) m[ i ][ j ] = i == j; }
    R3 operator*( const R3& o ) const { R3 r; for ( int i = 0; i < 3; i++ ) for ( int j = 0; j < 3; j++ ) { double s = 0; for ( int k = 0; k < 3; k++ ) s += m[ i ][ k ] * o.m[ k ][ j ]; r.m[ i ][ j ] = s; } return r; }
    R3 t() const { R3 r; for ( int i = 0; i < 3; i++ ) for ( int j = 0; j < 3; j++ ) r.m[ i ][ j ] = m[ j ][ i ]; return r; }
    std::array< double, 3 > operator*( const std::array< double, 3 >& v ) const { std::array< double, 3 > r; for ( int i = 0; i < 3; i++ ) r[ i ] = m[ i ][ 0 ] * v[ 0 ] + m[ i ][ 1 ] * v[ 1 ] + m[ i ][ 2 ] * v[ 2 ]; return r; }
};
typedef std::array< double, 3 > A3;
typedef std::array< double, 4 > A4; // quaternion x y z w

/// reference: Rodrigues formula, unit axis
inline R3 rodrigues( const A3& n, double a )
{
    R3 r; double c = std::cos( a ), s = std::sin( a ), t = 2 * std::sin( a / 2 ) * std::sin( a / 2 );
    double K[ 3 ][ 3 ] = { { 0, -n[ 2 ], n[ 1 ] }, { n[ 2 ], 0, -n[ 0 ] }, { -n[ 1 ], n[ 0 ], 0 } };
    for ( int i = 0; i < 3; i++ ) for ( int j = 0; j < 3; j++ ) r.m[ i ][ j ] = ( i == j ? c : 0 ) + s * K[ i ][ j ] + t * n[ i ] * n[ j ];
    return r;
}
inline R3 axisRot( int axis, double a ) { A3 n = { { 0, 0, 0 } }; n[ axis ] = 1; return rodrigues( n, a ); }
/// reference: matrix of a (normalised) quaternion through q p q*
inline R3 refMatrix( double x, double y, double z, double w )
{
    R3 r; double n = x * x + y * y + z * z + w * w, s = 2 / n;
    r.m[ 0 ][ 0 ] = 1 - s * ( y * y + z * z ); r.m[ 0 ][ 1 ] = s * ( x * y - z * w ); r.m[ 0 ][ 2 ] = s * ( x * z + y * w );
    r.m[ 1 ][ 0 ] = s * ( x * y + z * w ); r.m[ 1 ][ 1 ] = 1 - s * ( x * x + z * z ); r.m[ 1 ][ 2 ] = s * ( y * z - x * w );
    r.m[ 2 ][ 0 ] = s * ( x * z - y * w ); r.m[ 2 ][ 1 ] = s * ( y * z + x * w ); r.m[ 2 ][ 2 ] = 1 - s * ( x * x + y * y );
    return r;
}
inline R3 refMatrix( const UM::Quaternion& q ) { return refMatrix( q.x(), q.y(), q.z(), q.w() ); }
template< class M > R3 toR3( const M& m ) { R3 r; for ( int i = 0; i < 3; i++ ) for ( int j = 0; j < 3; j++ ) r.m[ i ][ j ] = m( i, j ); return r; }
inline double diff( const R3& a, const R3& b ) { double d = 0; for ( int i = 0; i < 3; i++ ) for ( int j = 0; j < 3; j++ ) { double e = std::fabs( a.m[ i ][ j ] - b.m[ i ][ j ] ); if ( !( e <= d ) ) d = e; } return d; }
inline A3 toA3( const V3& v ) { A3 r = { { v( 0 ), v( 1 ), v( 2 ) } }; return r; }
inline V3 toV3( const A3& v ) { return V3( v[ 0 ], v[ 1 ], v[ 2 ] ); }
inline double norm( const A3& v ) { return std::sqrt( v[ 0 ] * v[ 0 ] + v[ 1 ] * v[ 1 ] + v[ 2 ] * v[ 2 ] ); }
inline double norm( const V3& v ) { return norm( toA3( v ) ); }
inline double dist( const V3& a, const V3& b ) { A3 d = { { a( 0 ) - b( 0 ), a( 1 ) - b( 1 ), a( 2 ) - b( 2 ) } }; return norm( d ); }
inline double dist( const V2& a, const V2& b ) { return std::hypot( a( 0 ) - b( 0 ), a( 1 ) - b( 1 ) ); }
/// angle of the relative rotation, accurate at 0 and pi, sign free
inline double rotDist( const UM::Quaternion& a, const UM::Quaternion& b )
{
    double dm = 0, dp = 0; double p[ 4 ] = { a.x(), a.y(), a.z(), a.w() }, q[ 4 ] = { b.x(), b.y(), b.z(), b.w() };
    for ( int i = 0; i < 4; i++ ) { dm += ( p[ i ] - q[ i ] ) * ( p[ i ] - q[ i ] ); dp += ( p[ i ] + q[ i ] ) * ( p[ i ] + q[ i ] ); }
    if ( !std::isfinite( dm ) || !std::isfinite( dp ) ) return std::numeric_limits< double >::quiet_NaN();
    return 4 * std::asin( std::min( 1.0, std::sqrt( std::min( dm, dp ) ) / 2 ) );
}
inline double qnorm( const UM::Quaternion& q ) { return std::sqrt( q.x() * q.x() + q.y() * q.y() + q.z() * q.z() + q.w() * q.w() ); }

/// axes with structure: coordinate axes, diagonals, nearly aligned, generic
inline A3 genAxis( Rng& r )
{
    A3 v;
    switch ( r.in( 0, 5 ) )
    {
    case 0: v = A3{ { 0, 0, 0 } }; v[ r.in( 0, 2 ) ] = r.sgn(); return v;
    case 1: for ( int i = 0; i < 3; i++ ) v[ i ] = r.in( -1, 1 ); if ( norm( v ) == 0 ) v[ r.in( 0, 2 ) ] = 1; break;
    case 2: { int k = r.in( 0, 2 ); for ( int i = 0; i < 3; i++ ) v[ i ] = r.sgn() * r.logu( 1e-14, 1e-2 ); v[ k ] = r.sgn(); break; }
    default: do { for ( int i = 0; i < 3; i++ ) v[ i ] = r.gauss(); } while ( norm( v ) < 1e-3 );
    }
    double n = norm( v ); for ( int i = 0; i < 3; i++ ) v[ i ] /= n;
    return v;
}
/// angles in [-2pi,2pi] with emphasis on 0, tiny, pi/2, pi and their neighbourhoods
inline double genAngle( Rng& r )
{
    switch ( r.in( 0, 9 ) )
    {
    case 0: return 0;
    case 1: return r.sgn() * r.logu( 1e-16, 1e-3 );
    case 2: return r.sgn() * PI;
    case 3: return r.sgn() * ( PI + r.sgn() * r.logu( 1e-16, 1e-2 ) );
    case 4: return r.sgn() * PI / 2;
    case 5: return r.in( -12, 12 ) * PI / 6;
    case 6: return r.sgn() * ( 2 * PI - r.logu( 1e-14, 1e-2 ) );
    default: return r.uni( -2 * PI, 2 * PI );
    }
}
/// moderate generic angle (no special values)
inline UM::Quaternion refQuat( const A3& n, double a ) { double s = std::sin( a / 2 ); return UM::Quaternion( n[ 0 ] * s, n[ 1 ] * s, n[ 2 ] * s, std::cos( a / 2 ) ); }
inline UM::Quaternion genQuat( Rng& r, A3* axis = 0, double* angle = 0 )
{
    A3 n = genAxis( r ); double a = genAngle( r );
    if ( axis ) *axis = n; if ( angle ) *angle = a;
    UM::Quaternion q = refQuat( n, a );
    if ( r.coin( 0.3 ) ) q = UM::Quaternion( -q.x(), -q.y(), -q.z(), -q.w() );
    return q;
}
inline UM::Quaternion neg( const UM::Quaternion& q ) { return UM::Quaternion( -q.x(), -q.y(), -q.z(), -q.w() ); }
/// uniformly distributed rotation
inline UM::Quaternion uniQuat( Rng& r )
{
    double v[ 4 ], n; do { n = 0; for ( int i = 0; i < 4; i++ ) { v[ i ] = r.gauss(); n += v[ i ] * v[ i ]; } n = std::sqrt( n ); } while ( n < 1e-3 );
    return UM::Quaternion( v[ 0 ] / n, v[ 1 ] / n, v[ 2 ] / n, v[ 3 ] / n );
}
inline double genScale( Rng& r, double lo = 1e-6, double hi = 1e6 ) { return r.coin( 0.3 ) ? 1.0 : r.logu( lo, hi ); }
inline V3 genVec( Rng& r, double scale = 1 )
{
    V3 v;
    for ( int i = 0; i < 3; i++ ) switch ( r.in( 0, 5 ) ) { case 0: v( i ) = 0; break; case 1: v( i ) = r.in( -2, 2 ) * scale; break; default: v( i ) = r.uni( -1, 1 ) * scale; }
    return v;
}
inline V3 uniVec( Rng& r, double scale = 1 ) { return V3( r.uni( -1, 1 ) * scale, r.uni( -1, 1 ) * scale, r.uni( -1, 1 ) * scale ); }
inline UM::Pose genPose( Rng& r, double scale = 1 ) { return UM::Pose( genQuat( r ), genVec( r, scale ) ); }
inline UM::Pose uniPose( Rng& r, double scale = 1 ) { return UM::Pose( uniQuat( r ), uniVec( r, scale ) ); }
/// reference action of a pose on a point
inline V3 act( const UM::Pose& p, const V3& x ) { A3 v = refMatrix( p.rotation() ) * toA3( x ); return V3( v[ 0 ] + p.translation()( 0 ), v[ 1 ] + p.translation()( 1 ), v[ 2 ] + p.translation()( 2 ) ); }
inline std::string str( const UM::Quaternion& q ) { return vh::fmt( "q(%.17g,%.17g,%.17g;%.17g)", q.x(), q.y(), q.z(), q.w() ); }
inline std::string str( const V3& v ) { return vh::fmt( "(%.17g,%.17g,%.17g)", v( 0 ), v( 1 ), v( 2 ) ); }
inline std::string str( const V2& v ) { return vh::fmt( "(%.17g,%.17g)", v( 0 ), v( 1 ) ); }
inline std::string str( const UM::Pose& p ) { return str( p.rotation() ) + str( p.translation() ); }

/// reference: dense matrix as vector of rows with Gauss elimination
typedef std::vector< std::vector< double > > DM;
inline DM dm( int a, int b, double v = 0 ) { return DM( a, std::vector< double >( b, v ) ); }
template< class M > DM fromM( const M& m ) { DM r = dm( m.size1(), m.size2() ); for ( std::size_t i = 0; i < m.size1(); i++ ) for ( std::size_t j = 0; j < m.size2(); j++ ) r[ i ][ j ] = m( i, j ); return r; }
inline DM mul( const DM& a, const DM& b ) { DM r = dm( a.size(), b.empty() ? 0 : b[ 0 ].size() ); for ( std::size_t i = 0; i < a.size(); i++ ) for ( std::size_t k = 0; k < b.size(); k++ ) for ( std::size_t j = 0; j < b[ 0 ].size(); j++ ) r[ i ][ j ] += a[ i ][ k ] * b[ k ][ j ]; return r; }
inline DM trans( const DM& a ) { DM r = dm( a.empty() ? 0 : a[ 0 ].size(), a.size() ); for ( std::size_t i = 0; i < a.size(); i++ ) for ( std::size_t j = 0; j < a[ 0 ].size(); j++ ) r[ j ][ i ] = a[ i ][ j ]; return r; }
inline DM add( const DM& a, const DM& b, double s = 1 ) { DM r = a; for ( std::size_t i = 0; i < a.size(); i++ ) for ( std::size_t j = 0; j < a[ 0 ].size(); j++ ) r[ i ][ j ] += s * b[ i ][ j ]; return r; }
inline double maxabs( const DM& a ) { double d = 0; for ( auto& r : a ) for ( double x : r ) if ( !( std::fabs( x ) <= d ) ) d = std::fabs( x ); return d; }
inline double maxdiff( const DM& a, const DM& b ) { if ( a.size() != b.size() ) return 1e300; double d = 0; for ( std::size_t i = 0; i < a.size(); i++ ) { if ( a[ i ].size() != b[ i ].size() ) return 1e300; for ( std::size_t j = 0; j < a[ i ].size(); j++ ) { double e = std::fabs( a[ i ][ j ] - b[ i ][ j ] ); if ( !( e <= d ) ) d = e; } } return d; }
/// Gauss-Jordan with pivoting; returns determinant
inline double ginv( DM a, DM& inv )
{
    int n = a.size(); inv = dm( n, n ); for ( int i = 0; i < n; i++ ) inv[ i ][ i ] = 1; double det = 1;
    for ( int c = 0; c < n; c++ )
    {
        int p = c; for ( int i = c + 1; i < n; i++ ) if ( std::fabs( a[ i ][ c ] ) > std::fabs( a[ p ][ c ] ) ) p = i;
        if ( a[ p ][ c ] == 0 ) return 0;
        if ( p != c ) { std::swap( a[ p ], a[ c ] ); std::swap( inv[ p ], inv[ c ] ); det = -det; }
        det *= a[ c ][ c ]; double d = a[ c ][ c ];
        for ( int j = 0; j < n; j++ ) { a[ c ][ j ] /= d; inv[ c ][ j ] /= d; }
        for ( int i = 0; i < n; i++ ) if ( i != c ) { double f = a[ i ][ c ]; if ( f != 0 ) for ( int j = 0; j < n; j++ ) { a[ i ][ j ] -= f * a[ c ][ j ]; inv[ i ][ j ] -= f * inv[ c ][ j ]; } }
    }
    return det;
}
/// smallest eigenvalue of a symmetric matrix (Jacobi)
inline std::vector< double > symEig( DM a )
{
    int n = a.size();
    for ( int s = 0; s < 60; s++ )
    {
        double off = 0; for ( int i = 0; i < n; i++ ) for ( int j = 0; j < i; j++ ) off += a[ i ][ j ] * a[ i ][ j ];
        if ( !( off > 1e-300 ) ) break;
        for ( int p = 0; p < n; p++ ) for ( int q = p + 1; q < n; q++ )
        {
            if ( a[ p ][ q ] == 0 ) continue;
            double th = ( a[ q ][ q ] - a[ p ][ p ] ) / ( 2 * a[ p ][ q ] ), t = ( th >= 0 ? 1 : -1 ) / ( std::fabs( th ) + std::sqrt( th * th + 1 ) ), c = 1 / std::sqrt( t * t + 1 ), sn = t * c;
            for ( int k = 0; k < n; k++ ) { double x = a[ k ][ p ], y = a[ k ][ q ]; a[ k ][ p ] = c * x - sn * y; a[ k ][ q ] = sn * x + c * y; }
            for ( int k = 0; k < n; k++ ) { double x = a[ p ][ k ], y = a[ q ][ k ]; a[ p ][ k ] = c * x - sn * y; a[ q ][ k ] = sn * x + c * y; }
        }
    }
    std::vector< double > e; for ( int i = 0; i < n; i++ ) e.push_back( a[ i ][ i ] );
    std::sort( e.begin(), e.end() ); return e;
}
} // namespace um
