// C22: point mappings, conics and quadrics against plain matrix products and parametric ellipses/ellipsoids.
#include "um.h"
#include <utMath/CameraIntrinsics.h>
#include <utMath/Geometry/Conic.h>
#include <utMath/Geometry/ConicCovariance.h>
#include <utMath/Geometry/PointNormalization.h>
#include <utMath/Geometry/PointProjection.h>
#include <utMath/Geometry/PointTransformation.h>
#include <utMath/Geometry/PointUndistortion.h>
#include <utMath/Geometry/QuadricFunctors.h>
#include <deque>
#include <list>
using namespace um; namespace UG = UM::Geometry;
template< class T, std::size_t M, std::size_t N > static UM::Matrix< T, M, N > randM( Rng& r, double s ) { UM::Matrix< T, M, N > m; for ( std::size_t i = 0; i < M; i++ ) for ( std::size_t j = 0; j < N; j++ ) m( i, j ) = T( r.coin( 0.1 ) ? 0 : r.uni( -1, 1 ) * s ); return m; }
/// the homogeneous form of a point with K of N columns: planar points lie in z=0
template< class T, std::size_t D > static std::vector< long double > homog( const UM::Vector< T, D >& v, std::size_t N ) { std::vector< long double > h( N, 0 ); if ( D >= N ) for ( std::size_t i = 0; i < N; i++ ) h[ i ] = v( i ); else { for ( std::size_t i = 0; i < D; i++ ) h[ i ] = v( i ); h[ N - 1 ] = 1; } return h; }
template< class T, std::size_t M, std::size_t N, std::size_t D > static void transf( Rng& r, const std::string& ty )
{
    double s = r.logu( 1e-3, 1e3 ), eps = std::is_same< T, float >::value ? 2e-6 : 4e-15; auto m = randM< T, M, N >( r, s ); int n = r.in( 0, 9 ); std::vector< UM::Vector< T, D > > in; for ( int i = 0; i < n; i++ ) { UM::Vector< T, D > v; for ( std::size_t k = 0; k < D; k++ ) v( k ) = T( r.coin( 0.1 ) ? 0 : r.uni( -1, 1 ) * s ); in.push_back( v ); }
    std::string id = ty + vh::fmt( " %dx%d times %d, %d points scale %.3g", int( M ), int( N ), int( D ), n, s ); vh::sample( id ); std::vector< UM::Vector< T, M > > out, pre( n ); UG::transform_points( m, in.begin(), in.end(), std::back_inserter( out ) ); UG::transform_points( m, in.begin(), in.end(), pre.begin() ); std::list< UM::Vector< T, D > > li( in.begin(), in.end() ); std::deque< UM::Vector< T, M > > lo; UG::transform_points( m, li.begin(), li.end(), std::back_inserter( lo ) ); vh::ok( ty + ".count", int( out.size() ) == n && int( lo.size() ) == n, id ); if ( int( out.size() ) != n || int( lo.size() ) != n ) return;
    for ( int i = 0; i < n; i++ ) { auto h = homog( in[ i ], N ); auto one = UG::TransformPoint()( m, in[ i ] ); for ( std::size_t a = 0; a < M; a++ ) { long double w = 0, mag = 0; for ( std::size_t k = 0; k < N; k++ ) { w += m( a, k ) * h[ k ]; mag += std::fabs( double( m( a, k ) * h[ k ] ) ); } double tol = eps * double( mag ) + 1e-300; vh::near_( ty + ".functor", one( a ), w, tol, id ); vh::near_( ty + ".range", out[ i ]( a ), w, tol, id ); vh::near_( ty + ".inplace", pre[ i ]( a ), w, tol, id ); vh::near_( ty + ".list", lo[ i ]( a ), w, tol, id ); } }
}
SECTION( "transform", 4000, 200000 )
{
    switch ( r.in( 0, 12 ) ) { case 0: transf< double, 2, 3, 2 >( r, "transform" ); break; case 1: transf< double, 2, 3, 3 >( r, "transform" ); break; case 2: transf< double, 3, 3, 2 >( r, "transform" ); break; case 3: transf< double, 3, 3, 3 >( r, "transform" ); break; case 4: transf< double, 3, 4, 2 >( r, "transform" ); break; case 5: transf< double, 3, 4, 3 >( r, "transform" ); break; case 6: transf< double, 3, 4, 4 >( r, "transform" ); break; case 7: transf< double, 4, 4, 2 >( r, "transform" ); break; case 8: transf< double, 4, 4, 3 >( r, "transform" ); break; case 9: transf< double, 4, 4, 4 >( r, "transform" ); break; case 10: transf< float, 4, 4, 4 >( r, "transformf" ); break; case 11: transf< float, 3, 4, 3 >( r, "transformf" ); break; default: transf< float, 2, 3, 2 >( r, "transformf" ); }
}
template< class T, std::size_t N, std::size_t D > static void proj( Rng& r, const std::string& ty )
{
    double s = r.logu( 1e-2, 1e2 ), eps = std::is_same< T, float >::value ? 4e-6 : 8e-15; auto m = randM< T, 3, N >( r, s ); int n = r.in( 0, 9 ); std::vector< UM::Vector< T, D > > in; std::vector< V2 > want; std::vector< double > tol; for ( int i = 0; i < n; i++ ) { UM::Vector< T, D > v; for ( std::size_t k = 0; k < D; k++ ) v( k ) = T( r.uni( -1, 1 ) * s ); auto h = homog( v, N ); long double w[ 3 ] = { 0, 0, 0 }, mag[ 3 ] = { 0, 0, 0 }; for ( int a = 0; a < 3; a++ ) for ( std::size_t k = 0; k < N; k++ ) { w[ a ] += m( a, k ) * h[ k ]; mag[ a ] += std::fabs( double( m( a, k ) * h[ k ] ) ); } if ( !( std::fabs( double( w[ 2 ] ) ) > 1e-2 * double( mag[ 2 ] ) ) || mag[ 2 ] == 0 ) continue; in.push_back( v ); want.push_back( V2( double( w[ 0 ] / w[ 2 ] ), double( w[ 1 ] / w[ 2 ] ) ) ); double l = std::fabs( double( w[ 2 ] ) ); tol.push_back( eps * ( double( std::max( mag[ 0 ], mag[ 1 ] ) ) / l + std::max( std::fabs( want.back()( 0 ) ), std::fabs( want.back()( 1 ) ) ) * double( mag[ 2 ] ) / l ) * 2 + 1e-300 ); }
    std::string id = ty + vh::fmt( " 3x%d times %d, %d points scale %.3g", int( N ), int( D ), int( in.size() ), s ); vh::sample( id ); std::vector< UM::Vector< T, 2 > > out; std::list< UM::Vector< T, D > > li( in.begin(), in.end() ); std::deque< UM::Vector< T, 2 > > lo( in.size() ); UG::project_points( m, in.begin(), in.end(), std::back_inserter( out ) ); UG::project_points( m, li.begin(), li.end(), lo.begin() ); vh::ok( ty + ".count", out.size() == in.size(), id ); if ( out.size() != in.size() ) return;
    for ( std::size_t i = 0; i < in.size(); i++ ) { auto a = UG::ProjectPoint()( m, in[ i ] ), b = UG::ProjectPoint()( in[ i ], m ); for ( int k = 0; k < 2; k++ ) { vh::near_( ty + ".functor", a( k ), want[ i ]( k ), tol[ i ], id ); vh::near_( ty + ".swapped", b( k ), want[ i ]( k ), tol[ i ], id ); vh::near_( ty + ".range", out[ i ]( k ), want[ i ]( k ), tol[ i ], id ); vh::near_( ty + ".list", lo[ i ]( k ), want[ i ]( k ), tol[ i ], id ); } }
}
SECTION( "project", 3000, 150000 ) { switch ( r.in( 0, 5 ) ) { case 0: proj< double, 3, 2 >( r, "project" ); break; case 1: proj< double, 4, 2 >( r, "project" ); break; case 2: proj< double, 4, 3 >( r, "project" ); break; case 3: proj< double, 4, 4 >( r, "project" ); break; case 4: proj< float, 4, 3 >( r, "projectf" ); break; default: proj< float, 3, 2 >( r, "projectf" ); } }
/// lens distortion applied to pixels of an OpenGL style camera (third entry of the third column -1)
SECTION( "lens", 2000, 100000 )
{
    double f = r.logu( 10, 2000 ), fy = f * r.uni( 0.8, 1.25 ), cx = r.uni( -0.5, 0.5 ) * f, cy = r.uni( -0.5, 0.5 ) * f, k[ 6 ], p[ 2 ]; M33 K; for ( int i = 0; i < 9; i++ ) K( i / 3, i % 3 ) = 0; K( 0, 0 ) = f; K( 1, 1 ) = fy; K( 0, 2 ) = -cx; K( 1, 2 ) = -cy; K( 2, 2 ) = -1; int n = r.pick( std::vector< int >{ 2, 3, 6 } ); for ( int i = 0; i < 6; i++ ) k[ i ] = i < n ? r.uni( -0.2, 0.2 ) : 0; for ( double& x : p ) x = r.uni( -0.02, 0.02 ); V2 tp( p[ 0 ], p[ 1 ] ); UM::CameraIntrinsics< double > ci; if ( n == 2 ) ci = UM::CameraIntrinsics< double >( K, V2( k[ 0 ], k[ 1 ] ), tp ); else { UM::Vector< double, 6 > kv; for ( int i = 0; i < 6; i++ ) kv( i ) = k[ i ]; ci = UM::CameraIntrinsics< double >( K, kv, tp ); } std::string id = vh::fmt( "f %.4g c (%.3g,%.3g) k %.3g %.3g %.3g %.3g %.3g %.3g", f, cx, cy, k[ 0 ], k[ 1 ], k[ 2 ], k[ 3 ], k[ 4 ], k[ 5 ] ); vh::sample( id ); std::vector< V2 > in, want, out; for ( int i = r.in( 0, 6 ); i > 0; i-- ) { double x = r.uni( -0.8, 0.8 ), y = r.uni( -0.8, 0.8 ), q = x * x + y * y, sc = ( 1 + q * ( k[ 0 ] + q * ( k[ 1 ] + q * k[ 2 ] ) ) ) / ( 1 + q * ( k[ 3 ] + q * ( k[ 4 ] + q * k[ 5 ] ) ) ); in.push_back( V2( f * x + cx, fy * y + cy ) ); want.push_back( V2( f * ( x * sc + 2 * p[ 0 ] * x * y + p[ 1 ] * ( q + 2 * x * x ) ) + cx, fy * ( y * sc + 2 * p[ 1 ] * x * y + p[ 0 ] * ( q + 2 * y * y ) ) + cy ) ); }
    UG::undistort_points( ci, in.begin(), in.end(), std::back_inserter( out ) ); vh::ok( "lens.count", out.size() == in.size(), id ); for ( std::size_t i = 0; i < out.size() && i < in.size(); i++ ) { V2 o; UG::undistort_point( ci, in[ i ], o ); vh::small( "lens.range", dist( out[ i ], want[ i ] ) / f, 1e-12, id ); vh::small( "lens.single", dist( o, want[ i ] ) / f, 1e-12, id ); }
}
/// points shifted and scaled to zero mean and unit deviation and back
template< std::size_t N, class T > static void normal( Rng& r, const std::string& ty )
{
    double eps = std::is_same< T, float >::value ? 1e-3 : 1e-10, s = r.logu( 1e-3, 1e3 ); int n = r.in( 2, 40 ); V3 off = uniVec( r, s ), sc( r.uni( 0.3, 3 ), r.uni( 0.3, 3 ), r.uni( 0.3, 3 ) ); std::vector< UM::Vector< T, N > > v; for ( int i = 0; i < n; i++ ) { UM::Vector< T, N > x; for ( std::size_t k = 0; k < N; k++ ) x( k ) = T( off( k ) + ( i == 0 ? 1 : i == 1 ? -1 : r.uni( -1, 1 ) ) * sc( k ) * s ); v.push_back( x ); } std::string id = ty + vh::fmt( " %d points of dimension %d scale %.3g", n, int( N ), s ); vh::sample( id );
    UM::Vector< T, N > sh, sd; UG::estimateNormalizationParameters( v.begin(), v.end(), sh, sd ); UM::Matrix< T, N + 1, N + 1 > F = UG::generateNormalizationMatrix( sh, sd, false ), B = UG::generateNormalizationMatrix( sh, sd, true ); long double m[ N ], q[ N ]; for ( std::size_t k = 0; k < N; k++ ) { m[ k ] = q[ k ] = 0; for ( auto& x : v ) m[ k ] += x( k ); m[ k ] /= n; for ( auto& x : v ) q[ k ] += ( x( k ) - m[ k ] ) * ( x( k ) - m[ k ] ); q[ k ] = std::sqrt( q[ k ] / n ); vh::near_( ty + ".mean", sh( k ), m[ k ], eps * s, id ); vh::near_( ty + ".deviation", sd( k ), q[ k ], eps * s * 10, id ); }
    for ( auto& x : v ) for ( std::size_t k = 0; k < N; k++ ) { long double a = F( k, N ), b = 0; for ( std::size_t j = 0; j < N; j++ ) a += F( k, j ) * x( j ); vh::near_( ty + ".normalised", a, ( x( k ) - m[ k ] ) / q[ k ], eps * 30, id ); b = B( k, N ); for ( std::size_t j = 0; j < N; j++ ) b += B( k, j ) * ( F( j, N ) + F( j, j ) * x( j ) ); vh::near_( ty + ".back", b, x( k ), eps * s * 10, id ); } for ( std::size_t j = 0; j <= N; j++ ) { vh::ok( ty + ".affine", F( N, j ) == T( j == N ) && B( N, j ) == T( j == N ), id ); }
}
SECTION( "normalise", 2000, 100000 ) { switch ( r.in( 0, 2 ) ) { case 0: normal< 2, double >( r, "normalise" ); break; case 1: normal< 3, double >( r, "normalise" ); break; default: normal< 2, float >( r, "normalisef" ); } }

struct Ell { double a, b, th, x, y, s; std::string id; };
static Ell genEll( Rng& r ) { Ell e; e.a = r.logu( 0.05, 50 ); int k = r.in( 0, 3 ); e.b = k == 0 ? e.a : k == 1 ? e.a * r.uni( 0.02, 0.3 ) : e.a * r.uni( 0.3, 0.98 ); int t = r.in( 0, 5 ); e.th = k == 0 ? 0 : t == 0 ? 0 : t == 1 ? PI / 2 : t == 2 ? r.sgn() * PI / 4 : t == 3 ? r.in( -2, 2 ) * PI / 4 + r.sgn() * r.logu( 1e-9, 1e-2 ) : r.uni( -PI / 2, PI / 2 ); double o = r.coin( 0.2 ) ? 0 : r.uni( 0.1, 5 ) * e.a; e.x = r.uni( -1, 1 ) * o; e.y = r.uni( -1, 1 ) * o; e.s = r.coin( 0.3 ) ? 1 : r.sgn() * r.logu( 1e-2, 1e2 ); vh::event( k == 0 ? "circle" : k == 1 ? "elongated" : "ellipse" ); if ( e.s < 0 ) vh::event( "negative multiple" ); if ( t == 2 && k ) vh::event( "diagonal" ); e.id = vh::fmt( "ellipse axes %.6g %.6g angle %.9g centre (%.4g,%.4g) factor %.3g", e.a, e.b, e.th, e.x, e.y, e.s ); vh::sample( e.id ); return e; }
template< class T > static UM::Vector< T, 6 > conicOf( const Ell& e ) { bool dg = e.th == PI / 4 || e.th == -PI / 4; long double c = dg ? std::sqrt( 0.5L ) : std::cos( (long double)e.th ), s = dg ? ( e.th > 0 ? c : -c ) : std::sin( (long double)e.th ), ia = 1 / ( (long double)e.a * e.a ), ib = 1 / ( (long double)e.b * e.b ), A = dg ? ( ia + ib ) / 2 : c * c * ia + s * s * ib, B = 2 * c * s * ( ia - ib ), C = dg ? A : s * s * ia + c * c * ib, D = -2 * A * e.x - B * e.y, E = -2 * C * e.y - B * e.x, F = A * e.x * e.x + B * e.x * e.y + C * e.y * e.y - 1; UM::Vector< T, 6 > v; long double k[] = { A, B, C, D, E, F }; for ( int i = 0; i < 6; i++ ) v( i ) = T( k[ i ] * e.s * e.a * e.b ); return v; }
template< class V > static double on( const V& c, double x, double y ) { long double t[] = { (long double)c( 0 ) * x * x, (long double)c( 1 ) * x * y, (long double)c( 2 ) * y * y, (long double)c( 3 ) * x, (long double)c( 4 ) * y, (long double)c( 5 ) }, s = 0, m = 0; for ( long double k : t ) { s += k; m += std::fabs( double( k ) ); } return m == 0 ? NAN : double( std::fabs( double( s ) ) / m ); }
static V2 pointOn( const Ell& e, double t ) { double u = e.a * std::cos( t ), v = e.b * std::sin( t ), c = std::cos( e.th ), s = std::sin( e.th ); return V2( e.x + c * u - s * v, e.y + s * u + c * v ); }
SECTION( "ellipse", 5000, 250000 )
{
    Ell e = genEll( r ); auto c = conicOf< double >( e ); double q = e.a / e.b, far = 1 + ( std::fabs( e.x ) + std::fabs( e.y ) ) / e.b, tol = 1e-14 * q * q * far * far * 20; for ( int i = 0; i < 4; i++ ) { V2 p = pointOn( e, r.uni( 0, 2 * PI ) ); vh::small( "ellipse.construction", on( c, p( 0 ), p( 1 ) ), tol, e.id ); }
    V2 m = UG::ConicCenter< double >()( c ); vh::small( "ellipse.centre", dist( m, V2( e.x, e.y ) ) / e.a, tol, e.id ); V2 ax = UG::ConicSemiAxes< double >()( c ); vh::near_( "ellipse.major", ax( 0 ) / e.a, 1, tol, e.id ); vh::near_( "ellipse.minor", ax( 1 ) / e.b, 1, tol, e.id ); vh::near_( "ellipse.area", UG::ConicArea< double >()( c ) / ( PI * e.a * e.b ), 1, 2 * tol, e.id ); double an = UG::ConicAngle< double >()( c ); vh::finite( "ellipse.angleFinite", an, e.id ); if ( q > 1.01 ) { double d = std::fmod( std::fabs( an - e.th ), PI ); d = std::min( d, PI - d ); vh::small( "ellipse.angle", d, 1e-13 * q * q / ( q - 1 ) * 4, e.id ); }
    double ec = UG::ConicEccentricity< double >()( c ), we = 1 - 1 / ( q * q ); vh::near_( "ellipse.eccentricity", ec * ec, we, 1e-11 * q * q * far * far, e.id ); vh::ok( "ellipse.isEllipse", UG::IsConicEllipse< double >()( c ) && !UG::IsConicHyperbola< double >()( c ), e.id ); UM::Vector< double, 6 > cn( c ); double nn = 0; for ( int i = 0; i < 3; i++ ) nn = std::max( nn, std::fabs( c( i ) ) ); for ( int i = 0; i < 6; i++ ) cn( i ) /= nn; if ( q == 1 ) vh::ok( "ellipse.isCircle", UG::IsConicCircle< double >()( cn ), e.id ); if ( q > 1.01 ) vh::ok( "ellipse.noCircle", !UG::IsConicCircle< double >()( cn ), e.id );
    // extents
    double c2 = std::cos( e.th ) * std::cos( e.th ), s2 = 1 - c2, hx = std::sqrt( e.a * e.a * c2 + e.b * e.b * s2 ), hy = std::sqrt( e.a * e.a * s2 + e.b * e.b * c2 ); V2 lr = UG::ConicLeftRightLimit< double >()( c ), ul = UG::ConicUpperLowerLimit< double >()( c ); double te = tol * e.a * 20; vh::near_( "ellipse.left", lr( 0 ), e.x - hx, te, e.id ); vh::near_( "ellipse.right", lr( 1 ), e.x + hx, te, e.id ); vh::near_( "ellipse.lower", ul( 0 ), e.y - hy, te, e.id ); vh::near_( "ellipse.upper", ul( 1 ), e.y + hy, te, e.id );
    double y = e.y + r.uni( -0.98, 0.98 ) * hy; V2 h = UG::ConicHorizontalIntersection< double >()( c, y ); vh::small( "ellipse.rowOn", std::max( on( c, h( 0 ), y ), on( c, h( 1 ), y ) ), tol * 10, e.id ); vh::ok( "ellipse.rowOrder", h( 0 ) < h( 1 ) && h( 0 ) >= lr( 0 ) - te && h( 1 ) <= lr( 1 ) + te, e.id );
    // evaluation: same value as the form, sign tells inside from outside
    V2 p( e.x + r.uni( -2, 2 ) * e.a, e.y + r.uni( -2, 2 ) * e.a ); long double v = (long double)c( 0 ) * p( 0 ) * p( 0 ) + (long double)c( 1 ) * p( 0 ) * p( 1 ) + (long double)c( 2 ) * p( 1 ) * p( 1 ) + (long double)c( 3 ) * p( 0 ) + (long double)c( 4 ) * p( 1 ) + c( 5 ); double mg = 0; for ( int i = 0; i < 6; i++ ) mg += std::fabs( c( i ) ) * ( i < 3 ? 1 : 1 ) * std::pow( 1 + std::fabs( p( 0 ) ) + std::fabs( p( 1 ) ), i < 3 ? 2 : i < 5 ? 1 : 0 ); vh::near_( "ellipse.value", UG::ConicPixel< double >()( c, p ), v, 1e-14 * mg, e.id );
    M33 M = UG::MatrixFromConic< double >()( c ); vh::ok( "ellipse.matrixSymmetric", M( 0, 1 ) == M( 1, 0 ) && M( 0, 2 ) == M( 2, 0 ) && M( 1, 2 ) == M( 2, 1 ), e.id ); long double w = 0; double hp[ 3 ] = { p( 0 ), p( 1 ), 1 }; for ( int i = 0; i < 3; i++ ) for ( int j = 0; j < 3; j++ ) w += (long double)hp[ i ] * M( i, j ) * hp[ j ]; vh::near_( "ellipse.matrix", w, v, 1e-14 * mg, e.id ); auto cb = UG::ConicFromMatrix< double >()( M ); for ( int i = 0; i < 6; i++ ) vh::ok( "ellipse.matrixBack", cb( i ) == c( i ), e.id ); UG::Conic< double > wr( c ); for ( int i = 0; i < 6; i++ ) vh::ok( "ellipse.wrapped", wr( i ) == c( i ), e.id );
    DM I; double det = ginv( fromM( M ), I ); vh::near_( "ellipse.determinant", UG::ConicDeterminant< double >()( c ) / det, 1, tol * 10, e.id ); auto ic = UG::ConicInverse< double >()( c ); M33 IM = UG::MatrixFromConic< double >()( ic ); double im = maxabs( I ); for ( int i = 0; i < 3; i++ ) for ( int j = 0; j < 3; j++ ) vh::near_( "ellipse.inverse", IM( i, j ) / im, I[ i ][ j ] / im, tol * 10, e.id ); auto back = UG::ConicInverse< double >()( ic ); for ( int i = 0; i < 3; i++ ) { V2 z = pointOn( e, r.uni( 0, 2 * PI ) ); vh::small( "ellipse.inverseTwice", on( back, z( 0 ), z( 1 ) ), tol * 100, e.id ); double lx = 2 * c( 0 ) * z( 0 ) + c( 1 ) * z( 1 ) + c( 3 ), ly = 2 * c( 2 ) * z( 1 ) + c( 1 ) * z( 0 ) + c( 4 ), lz = c( 3 ) * z( 0 ) + c( 4 ) * z( 1 ) + 2 * c( 5 ); /* tangent line lies on the dual */ long double tt[] = { (long double)ic( 0 ) * lx * lx, (long double)ic( 1 ) * lx * ly, (long double)ic( 2 ) * ly * ly, (long double)ic( 3 ) * lx * lz, (long double)ic( 4 ) * ly * lz, (long double)ic( 5 ) * lz * lz }, sum = 0, mag = 0; for ( long double t : tt ) { sum += t; mag += std::fabs( double( t ) ); } vh::small( "ellipse.tangent", std::fabs( double( sum / mag ) ), tol * 100, e.id ); }
}
/// moved, scaled and mirrored conics contain the moved, scaled and mirrored points
SECTION( "moved", 3000, 150000 )
{
    Ell e = genEll( r ); auto c = conicOf< double >( e ); double q = e.a / e.b, sA = r.sgn() * r.logu( 0.1, 10 ), sB = r.sgn() * r.logu( 0.1, 10 ), tx = r.uni( -5, 5 ) * e.a, ty = r.uni( -5, 5 ) * e.a, hgt = r.in( 1, 20 ) * e.a; double far = 1 + ( std::fabs( e.x ) + std::fabs( e.y ) + std::fabs( tx ) + std::fabs( ty ) + hgt + 1 ) / e.b, tol = 1e-14 * q * q * far * far * 20; auto s1 = UG::ScaleConicUnsafe< double >( sA )( c ), s2 = UG::ScaleConicUnsafe< double >( sA, sB )( c ), tr = UG::TranslateConic< double >()( V2( tx, ty ), c ), fl = UG::FlipConicHorizontal< double >( hgt )( c );
    for ( int i = 0; i < 6; i++ ) { V2 p = pointOn( e, r.uni( 0, 2 * PI ) ); vh::small( "moved.scaled", on( s1, sA * p( 0 ), sA * p( 1 ) ), tol, e.id ); vh::small( "moved.scaled2", on( s2, sA * p( 0 ), sB * p( 1 ) ), tol, e.id ); vh::small( "moved.translated", on( tr, p( 0 ) + tx, p( 1 ) + ty ), tol, e.id ); vh::small( "moved.flipped", on( fl, p( 0 ), hgt - 1 - p( 1 ) ), tol, e.id ); }
    auto fc = conicOf< float >( e ); if ( q < 5 && std::hypot( e.x, e.y ) < 3 * e.a ) { UM::Vector< float, 2 > m = UG::ConicCenter< float >()( fc ), ax = UG::ConicSemiAxes< float >()( fc ); vh::small( "movedf.centre", std::hypot( m( 0 ) - e.x, m( 1 ) - e.y ) / e.a, 2e-3, e.id ); vh::near_( "movedf.major", ax( 0 ) / e.a, 1, 2e-3, e.id ); vh::near_( "movedf.minor", ax( 1 ) / e.b, 1, 2e-2, e.id ); }
}
/// conics without a centre
SECTION( "parabola", 1000, 50000 )
{
    double a = r.in( 1, 64 ) / 8., d = r.in( -20, 20 ) / 4., e = r.in( 1, 20 ) / 4. * r.sgn(); UM::Vector< double, 6 > c; int k = r.in( 0, 3 ); c( 0 ) = k == 0 ? a : k == 1 ? 0 : k == 2 ? a : 0; c( 1 ) = k == 2 ? 2 * a * r.sgn() : 0; c( 2 ) = k == 0 ? 0 : k == 1 ? a : k == 2 ? a : 0; c( 3 ) = d; c( 4 ) = e; c( 5 ) = r.uni( -3, 3 ); std::string id = vh::fmt( "parabola %g %g %g %g %g", c( 0 ), c( 1 ), c( 2 ), c( 3 ), c( 4 ) ); vh::sample( id ); vh::ok( "parabola.noCentre", vh::throws( [&] { UG::ConicCenter< double >()( c ); } ), id ); vh::ok( "parabola.class", !UG::IsConicEllipse< double >()( c ) && !UG::IsConicHyperbola< double >()( c ) && UG::IsConicParabola< double >()( c ) && !UG::IsConicCircle< double >()( c ), id );
    // hyperbola: u^2/a^2 - v^2/b^2 = 1 and pairs of lines
    double p = r.uni( 0.5, 2 ), q = r.uni( 0.5, 2 ), th = r.uni( -PI, PI ), co = std::cos( th ), si = std::sin( th ), x = r.uni( -2, 2 ), y = r.uni( -2, 2 ); double A = co * co / p / p - si * si / q / q, B = 2 * co * si * ( 1 / p / p + 1 / q / q ), C = si * si / p / p - co * co / q / q; UM::Vector< double, 6 > h; bool lines = r.coin( 0.3 ); h( 0 ) = A; h( 1 ) = B; h( 2 ) = C; h( 3 ) = -2 * A * x - B * y; h( 4 ) = -2 * C * y - B * x; h( 5 ) = A * x * x + B * x * y + C * y * y - ( lines ? 0 : 1 ); vh::ok( "hyperbola.class", UG::IsConicHyperbola< double >()( h ) && !UG::IsConicEllipse< double >()( h ) && !UG::IsConicCircle< double >()( h ), id ); vh::small( "hyperbola.centre", dist( UG::ConicCenter< double >()( h ), V2( x, y ) ), 1e-10, id ); vh::ok( "degenerate", UG::IsConicDegenerate< double >()( h ) == lines, id ); if ( !lines ) { double ec = UG::ConicEccentricity< double >()( h ); vh::near_( "hyperbola.eccentricity", ec * ec, 1 + q * q / p / p, 1e-9, id ); for ( int i = 0; i < 6; i++ ) h( i ) = -h( i ); ec = UG::ConicEccentricity< double >()( h ); vh::near_( "hyperbola.eccentricityNegative", ec * ec, 1 + q * q / p / p, 1e-9, id ); }
}
/// outline of an ellipsoid: rays touching it project onto the conic
SECTION( "quadric", 3000, 150000 )
{
    double s = r.logu( 0.01, 100 ); V3 ax( r.uni( 0.2, 1 ) * s, r.uni( 0.2, 1 ) * s, r.uni( 0.2, 1 ) * s ), ce = uniVec( r, 5 * s ); int kind = r.in( 0, 2 ); if ( kind == 1 ) ax( 1 ) = ax( 2 ) = ax( 0 ); if ( kind == 2 ) { ax( 1 ) = ax( 0 ); ce( 2 ) = ax( 2 ); } vh::event( kind == 0 ? "ellipsoid" : kind == 1 ? "sphere" : "spheroid on the plane" ); R3 R = refMatrix( uniQuat( r ) ); A3 rc = R * toA3( ce ); double z = -r.uni( 2, 8 ) * s, f = r.logu( 1, 1000 ); V3 t( -rc[ 0 ] + r.uni( -0.4, 0.4 ) * z, -rc[ 1 ] + r.uni( -0.4, 0.4 ) * z, -rc[ 2 ] + z ); M33 K; for ( int i = 0; i < 9; i++ ) K( i / 3, i % 3 ) = 0; K( 0, 0 ) = f; K( 1, 1 ) = f * r.uni( 0.8, 1.2 ); K( 0, 1 ) = r.coin() ? 0 : r.uni( -0.1, 0.1 ) * f; K( 0, 2 ) = r.uni( -0.5, 0.5 ) * f; K( 1, 2 ) = r.uni( -0.5, 0.5 ) * f; K( 2, 2 ) = -1; double fac = r.coin() ? 1 : r.sgn() * r.logu( 0.1, 10 ); M34 P; for ( int i = 0; i < 3; i++ ) for ( int j = 0; j < 4; j++ ) { double v = 0; for ( int k = 0; k < 3; k++ ) v += K( i, k ) * ( j < 3 ? R.m[ k ][ j ] : t( k ) ); P( i, j ) = v * fac; }
    std::string id = vh::fmt( "axes (%.4g,%.4g,%.4g) at ", ax( 0 ), ax( 1 ), ax( 2 ) ) + str( ce ) + vh::fmt( " f %.4g factor %.3g", f, fac ); vh::sample( id ); UM::Vector< double, 6 > el; for ( int i = 0; i < 3; i++ ) { el( i ) = ax( i ); el( 3 + i ) = ce( i ); } auto qd = UG::Ellipsoid2Quadric< double >()( el ); auto c1 = UG::ProjectEllipsoid< double >()( P, el ), c2 = UG::ProjectQuadric< double >()( P, qd ); UG::Quadric< double > qw( qd ); auto c3 = UG::ProjectQuadric< double >()( P, qw ); UM::Vector< double, 6 > c4( c1 ); if ( kind == 2 ) c4 = UG::ProjectSpheroid< double >()( P, V4( ax( 0 ), ax( 2 ), ce( 0 ), ce( 1 ) ) );
    // camera centre in the frame where the ellipsoid is the unit sphere
    A3 cc; for ( int i = 0; i < 3; i++ ) { double v = 0; for ( int k = 0; k < 3; k++ ) v -= R.m[ k ][ i ] * t( k ); cc[ i ] = ( v - ce( i ) ) / ax( i ); } double n = norm( cc ); A3 u = { { cc[ 0 ] / n, cc[ 1 ] / n, cc[ 2 ] / n } }; A3 b1 = { { 0, 0, 0 } }; int k = std::fabs( u[ 0 ] ) < 0.6 ? 0 : std::fabs( u[ 1 ] ) < 0.6 ? 1 : 2; b1[ k ] = 1; double d = u[ k ]; for ( int i = 0; i < 3; i++ ) b1[ i ] -= d * u[ i ]; double l = norm( b1 ); for ( double& x : b1 ) x /= l; A3 b2 = { { u[ 1 ] * b1[ 2 ] - u[ 2 ] * b1[ 1 ], u[ 2 ] * b1[ 0 ] - u[ 0 ] * b1[ 2 ], u[ 0 ] * b1[ 1 ] - u[ 1 ] * b1[ 0 ] } }; if ( n < 1.5 ) { vh::event( "too close" ); return; } double rad = std::sqrt( 1 - 1 / ( n * n ) );
    double cen[ 2 ] = { 0, 0 }; for ( int i = 0; i < 8; i++ ) { double a = r.uni( 0, 2 * PI ), h[ 3 ] = { 0, 0, 0 }; V3 X; for ( int j = 0; j < 3; j++ ) X( j ) = ce( j ) + ax( j ) * ( u[ j ] / n + rad * ( std::cos( a ) * b1[ j ] + std::sin( a ) * b2[ j ] ) ); for ( int j = 0; j < 3; j++ ) h[ j ] = P( j, 0 ) * X( 0 ) + P( j, 1 ) * X( 1 ) + P( j, 2 ) * X( 2 ) + P( j, 3 ); double x = h[ 0 ] / h[ 2 ], y = h[ 1 ] / h[ 2 ]; (void)cen; vh::small( "quadric.ellipsoid", on( c1, x, y ), 1e-9, id ); vh::small( "quadric.quadric", on( c2, x, y ), 1e-9, id ); vh::small( "quadric.wrapped", on( c3, x, y ), 1e-9, id ); if ( kind == 2 ) vh::small( "quadric.spheroid", on( c4, x, y ), 1e-9, id ); }
    vh::ok( "quadric.isEllipse", UG::IsConicEllipse< double >()( c1 ), id );
    // a point off the outline is off the conic
    double h[ 3 ]; for ( int j = 0; j < 3; j++ ) h[ j ] = P( j, 0 ) * ce( 0 ) + P( j, 1 ) * ce( 1 ) + P( j, 2 ) * ce( 2 ) + P( j, 3 ); vh::ok( "quadric.inside", on( c1, h[ 0 ] / h[ 2 ], h[ 1 ] / h[ 2 ] ) > 1e-7, id );
}
/// covariance of a conic estimated from points on it (parameters a,2b,c,2d,2e,f): Fisher information of the points
SECTION( "covariance", 800, 40000 )
{
    Ell e = genEll( r ); double sc = 1 / e.a; e.a *= sc; e.b *= sc; e.x *= sc; e.y *= sc; if ( e.a / e.b > 3 ) e.b = e.a / r.uni( 1, 3 ); double o = std::max( 1.0, std::hypot( e.x, e.y ) ); e.x /= o; e.y /= o; e.s = 1; auto c = conicOf< double >( e ); UM::Vector< double, 6 > hc( c ); for ( int i : { 1, 3, 4 } ) hc( i ) *= 0.5; double nn = 0; for ( int i = 0; i < 6; i++ ) nn += hc( i ) * hc( i ); nn = std::sqrt( nn ); int n = r.in( 8, 40 ); std::vector< V2 > p, p2; for ( int i = 0; i < n; i++ ) p.push_back( pointOn( e, 2 * PI * ( i + r.uni( 0, 0.5 ) ) / n ) ); p2 = p; p2.insert( p2.end(), p.begin(), p.end() ); UM::Matrix< double, 6, 6 > C, C2; vh::ok( "covariance.done", UG::estimateCovariance( p.begin(), p.end(), hc, C ) && UG::estimateCovariance( p2.begin(), p2.end(), hc, C2 ), e.id ); double m = maxabs( fromM( C ) ); vh::ok( "covariance.finite", std::isfinite( m ) && m > 0, e.id ); if ( !( m > 0 ) || !std::isfinite( m ) ) return;
    for ( int i = 0; i < 6; i++ ) { double z = 0; for ( int j = 0; j < 6; j++ ) { z += C( i, j ) * hc( j ) / nn; vh::near_( "covariance.symmetric", C( i, j ) / m, C( j, i ) / m, 1e-6, e.id ); vh::near_( "covariance.twice", C2( i, j ) / m, C( i, j ) / m / 2, 1e-5, e.id ); } vh::small( "covariance.scale", std::fabs( z ) / m, 1e-5, e.id ); } auto ev = symEig( fromM( C ) ); for ( double x : ev ) vh::ok( "covariance.positive", x > -1e-6 * m, e.id );
    // first order: a point moved by sigma changes the algebraic distance by the spread the covariance predicts on average
    DM inf = dm( 6, 6 ); for ( auto& q : p ) { double x = q( 0 ), y = q( 1 ), t[ 6 ] = { x * x, 2 * x * y, y * y, 2 * x, 2 * y, 1 }, gx = 2 * ( hc( 0 ) * x + hc( 1 ) * y + hc( 3 ) ) / nn, gy = 2 * ( hc( 1 ) * x + hc( 2 ) * y + hc( 4 ) ) / nn, v = 1e-4 * ( gx * gx + gy * gy ); for ( int i = 0; i < 6; i++ ) for ( int j = 0; j < 6; j++ ) inf[ i ][ j ] += t[ i ] * t[ j ] / v; } DM CI = mul( mul( fromM( C ), inf ), fromM( C ) ); vh::small( "covariance.information", maxdiff( CI, fromM( C ) ) / m, 1e-4, e.id );
}
VH_MAIN
