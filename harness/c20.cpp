// C20: averages, statistics, clustering, mixture estimation and random generators against textbook definitions.
#include "um.h"
#include <utMath/Scalar.h>
#include <utMath/ErrorVector.h>
#include <utMath/ErrorPose.h>
#include <utMath/Blas1.h>
#include <utMath/Random/Scalar.h>
#include <utMath/Random/Vector.h>
#include <utMath/Random/Matrix.h>
#include <utMath/Random/Rotation.h>
#include <utMath/Stochastic/Average.h>
#include <utMath/Stochastic/Correlation.h>
#include <utMath/Stochastic/Gaussian.h>
#include <utMath/Stochastic/MahalanobisDistance.h>
#include <utMath/Stochastic/Weighted.h>
#include <utMath/Stochastic/k_means.h>
#include <utMath/Stochastic/expectation_maximization.h>
#include <utAlgorithm/Correlation.h>
#include <iostream>
#include <sstream>
using namespace um; namespace US = UM::Stochastic; namespace UR = UM::Random; using namespace Ubitrack::Math;
struct Quiet { std::streambuf* o; std::ostringstream s; Quiet() : o( std::cout.rdbuf( s.rdbuf() ) ) {} ~Quiet() { std::cout.rdbuf( o ); } };
static int genN( Rng& r ) { switch ( r.in( 0, 4 ) ) { case 0: return 1; case 1: return 2; case 2: return r.in( 3, 6 ); default: return r.in( 7, 60 ); } }
template< class T, std::size_t N > static std::vector< UM::Vector< T, N > > samples( Rng& r, int n, double s, double off ) { std::vector< UM::Vector< T, N > > v; int kind = r.in( 0, 4 ); UM::Vector< T, N > a, b; for ( std::size_t k = 0; k < N; k++ ) { a( k ) = T( r.uni( -1, 1 ) * s + off ); b( k ) = T( r.gauss() * s ); } for ( int i = 0; i < n; i++ ) { UM::Vector< T, N > x; double t = r.gauss(); for ( std::size_t k = 0; k < N; k++ ) x( k ) = kind == 0 ? a( k ) : kind == 1 ? T( a( k ) + t * b( k ) ) : kind == 2 ? T( r.in( -3, 3 ) ) : T( off + r.gauss() * s ); v.push_back( x ); } vh::event( kind == 0 ? "identical" : kind == 1 ? "collinear" : kind == 2 ? "integer" : "generic" ); return v; }
template< class T, std::size_t N > static void means( Rng& r, const std::string& ty )
{
    double eps = std::is_same< T, float >::value ? 1e-5 : 1e-13, s = r.logu( 1e-3, 1e3 ), off = r.coin() ? 0 : r.uni( -10, 10 ) * s; int n = genN( r ); auto v = samples< T, N >( r, n, s, off ); std::string id = ty + vh::fmt( " %d samples of dimension %d scale %.3g", n, int( N ), s ); vh::sample( id ); std::vector< long double > m( N ); double mx = 0; for ( auto& x : v ) for ( std::size_t k = 0; k < N; k++ ) { m[ k ] += x( k ); mx = std::max( mx, std::fabs( double( x( k ) ) ) ); } for ( auto& x : m ) x /= n; std::vector< std::vector< long double > > C( N, std::vector< long double >( N ) ); for ( auto& x : v ) for ( std::size_t i = 0; i < N; i++ ) for ( std::size_t j = 0; j < N; j++ ) C[ i ][ j ] += ( x( i ) - m[ i ] ) * ( x( j ) - m[ j ] ) / n;
    US::Average< UM::Vector< T, N > > av; for ( auto& x : v ) av( x ); auto g = av.getAverage(); for ( std::size_t k = 0; k < N; k++ ) vh::near_( ty + ".mean", g( k ), m[ k ], eps * n * mx, id ); auto av2 = std::for_each( v.rbegin(), v.rend(), US::Average< UM::Vector< T, N > >() ); auto g2 = av2.getAverage(); for ( std::size_t k = 0; k < N; k++ ) vh::near_( ty + ".order", g2( k ), g( k ), eps * n * mx, id );
    US::Average< UM::ErrorVector< T, N > > ae; for ( auto& x : v ) ae( x ); auto e = ae.getAverage(); double tc = eps * n * mx * mx; for ( std::size_t i = 0; i < N; i++ ) { vh::near_( ty + ".errorMean", e.value( i ), m[ i ], eps * n * mx, id ); for ( std::size_t j = 0; j < N; j++ ) vh::near_( ty + ".errorCovariance", e.covariance( i, j ), C[ i ][ j ], tc, id ); }
    US::Average< T > as; long double sm = 0; for ( auto& x : v ) { as( x( 0 ) ); sm += x( 0 ); } vh::near_( ty + ".scalar", as.getAverage(), sm / n, eps * n * mx, id );
    // Gaussian: plain, weighted, by index
    { Quiet q; US::Gaussian< T, N > gs, gw, gi; bool ok = US::estimate_gaussian( v.begin(), v.end(), gs ); vh::ok( ty + ".gaussianOk", ok, id ); long double tr = 0; for ( std::size_t i = 0; i < N; i++ ) { vh::near_( ty + ".gaussianMean", gs.mean[ i ], m[ i ], eps * n * mx, id ); tr += C[ i ][ i ]; for ( std::size_t j = 0; j < N; j++ ) { vh::near_( ty + ".gaussianCovariance", gs.covariance[ i * N + j ], C[ i ][ j ], tc, id ); vh::ok( ty + ".gaussianSymmetric", gs.covariance[ i * N + j ] == gs.covariance[ j * N + i ], id ); } } vh::near_( ty + ".variance", gs.variance, tr, tc * N, id ); vh::near_( ty + ".deviation", gs.standardDeviation * gs.standardDeviation, gs.variance, tc * N, id );
      std::vector< T > w; double ws = 0; for ( int i = 0; i < n; i++ ) { w.push_back( T( r.coin( 0.2 ) ? 0 : r.uni( 0.01, 1 ) ) ); ws += w.back(); } if ( ws > 0.05 ) { for ( auto& x : w ) x = T( x / ws ); std::vector< long double > wm( N ); std::vector< std::vector< long double > > wc( N, std::vector< long double >( N ) ); for ( int i = 0; i < n; i++ ) for ( std::size_t k = 0; k < N; k++ ) wm[ k ] += (long double)w[ i ] * v[ i ]( k ); for ( int i = 0; i < n; i++ ) for ( std::size_t a = 0; a < N; a++ ) for ( std::size_t b = 0; b < N; b++ ) wc[ a ][ b ] += w[ i ] * ( v[ i ]( a ) - wm[ a ] ) * ( v[ i ]( b ) - wm[ b ] ); US::estimate_gaussian( v.begin(), v.end(), w.begin(), gw ); long double wt = 0; for ( std::size_t i = 0; i < N; i++ ) { vh::near_( ty + ".weightedMean", gw.mean[ i ], wm[ i ], eps * n * mx, id ); wt += wc[ i ][ i ]; for ( std::size_t j = 0; j < N; j++ ) vh::near_( ty + ".weightedCovariance", gw.covariance[ i * N + j ], wc[ i ][ j ], tc, id ); } vh::near_( ty + ".weightedVariance", gw.variance, wt, tc * N, id ); }
      std::vector< std::size_t > ix; for ( int i = 0; i < n; i++ ) ix.push_back( r.in( 0, 2 ) ); std::size_t sel = ix[ r.in( 0, n - 1 ) ]; std::vector< UM::Vector< T, N > > sub; for ( int i = 0; i < n; i++ ) if ( ix[ i ] == sel ) sub.push_back( v[ i ] ); US::Gaussian< T, N > gsub; US::estimate_gaussian( sub.begin(), sub.end(), gsub ); US::estimate_gaussian_index( v.begin(), v.end(), ix.begin(), sel, gi ); for ( std::size_t i = 0; i < N; i++ ) vh::near_( ty + ".indexMean", gi.mean[ i ], gsub.mean[ i ], eps * n * mx, id ); for ( std::size_t i = 0; i < N * N; i++ ) vh::near_( ty + ".indexCovariance", gi.covariance[ i ], gsub.covariance[ i ], tc, id ); vh::near_( ty + ".indexVariance", gi.variance, gsub.variance, tc * N, id ); US::Gaussian< T, N > ge; std::vector< UM::Vector< T, N > > none; vh::ok( ty + ".emptyReported", !US::estimate_gaussian( none.begin(), none.end(), ge ), id ); }
}
SECTION( "means", 1200, 60000 ) { switch ( r.in( 0, 3 ) ) { case 0: means< double, 3 >( r, "mean" ); break; case 1: means< double, 2 >( r, "mean" ); break; case 2: means< float, 3 >( r, "meanf" ); break; default: means< double, 4 >( r, "mean" ); } }
/// densities: Mahalanobis distance and probability
template< std::size_t N > static void density( Rng& r )
{
    US::Gaussian< double, N > g; DM a = dm( N, N ); double s = r.logu( 0.3, 10 ); for ( auto& row : a ) for ( double& x : row ) x = r.gauss() * s; DM C = mul( a, trans( a ) ); for ( std::size_t i = 0; i < N; i++ ) C[ i ][ i ] += 0.05 * s * s; DM I; double det = ginv( C, I ); for ( std::size_t i = 0; i < N; i++ ) { g.mean[ i ] = r.uni( -5, 5 ) * s; for ( std::size_t j = 0; j < N; j++ ) g.covariance[ i * N + j ] = C[ i ][ j ]; } g.variance = 0; g.standardDeviation = 0; std::string id = vh::fmt( "dimension %d scale %.3g", int( N ), s ); vh::sample( id );
    for ( int k = 0; k < 5; k++ ) { UM::Vector< double, N > x; for ( std::size_t i = 0; i < N; i++ ) x( i ) = g.mean[ i ] + ( k ? r.gauss() * s : 0 ); double d = 0; for ( std::size_t i = 0; i < N; i++ ) for ( std::size_t j = 0; j < N; j++ ) d += ( x( i ) - g.mean[ i ] ) * I[ i ][ j ] * ( x( j ) - g.mean[ j ] ); US::MahalanobisDistance< US::Gaussian< double, N > > md( g ); vh::near_( "density.mahalanobis", md( x ), std::sqrt( d ), 1e-8 * ( 1 + std::sqrt( d ) ), id ); US::Probability< US::Gaussian< double, N > > p( g ); double ref = std::exp( -d / 2 ) / std::sqrt( std::pow( 2 * PI, double( N ) ) * det ); vh::near_( "density.probability", p( x ) / ref, 1, 1e-6, id ); }
    US::Gaussian< double, N > z( g ); for ( std::size_t i = 0; i < N * N; i++ ) z.covariance[ i ] = 0; vh::ok( "density.singular", vh::throws( [&] { US::MahalanobisDistance< US::Gaussian< double, N > > m( z ); } ), id );
}
SECTION( "density", 600, 30000 ) { if ( r.coin() ) density< 2 >( r ); else density< 3 >( r ); }
static UM::Quaternion mulq( const UM::Quaternion& q, const UM::Quaternion& d ) { return UM::Quaternion( q.w() * d.x() + q.x() * d.w() + q.y() * d.z() - q.z() * d.y(), q.w() * d.y() - q.x() * d.z() + q.y() * d.w() + q.z() * d.x(), q.w() * d.z() + q.x() * d.y() - q.y() * d.x() + q.z() * d.w(), q.w() * d.w() - q.x() * d.x() - q.y() * d.y() - q.z() * d.z() ); }
/// rotations spread around a centre: the average is the normalised sum of the representatives of one hemisphere
SECTION( "rotations", 1500, 60000 )
{
    int n = genN( r ); UM::Quaternion c = genQuat( r ); double sp = r.coin( 0.15 ) ? 0 : r.logu( 1e-6, 0.3 ); std::vector< UM::Pose > v; double S[ 4 ] = { 0, 0, 0, 0 }; V3 ts( 0, 0, 0 ); double sc = r.logu( 1e-2, 1e2 ); for ( int i = 0; i < n; i++ ) { UM::Quaternion q = mulq( c, refQuat( genAxis( r ), r.uni( -1, 1 ) * sp ) ); V3 t = uniVec( r, sc ); S[ 0 ] += q.x(); S[ 1 ] += q.y(); S[ 2 ] += q.z(); S[ 3 ] += q.w(); for ( int k = 0; k < 3; k++ ) ts( k ) += t( k ) / n; v.push_back( UM::Pose( r.coin() ? q : neg( q ), t ) ); } double l = std::sqrt( S[ 0 ] * S[ 0 ] + S[ 1 ] * S[ 1 ] + S[ 2 ] * S[ 2 ] + S[ 3 ] * S[ 3 ] ); UM::Quaternion ref( S[ 0 ] / l, S[ 1 ] / l, S[ 2 ] / l, S[ 3 ] / l ); std::string id = vh::fmt( "%d rotations spread %.3g around ", n, sp ) + str( c ); vh::sample( id ); if ( std::fabs( c.w() ) < 0.1 ) vh::event( "near-half-turn" );
    US::Average< UM::Quaternion > a, b; US::Average< UM::Pose > p; US::Average< UM::ErrorPose > e; for ( auto& x : v ) { a( x.rotation() ); p( x ); e( x ); } for ( auto i = v.rbegin(); i != v.rend(); ++i ) b( r.coin() ? i->rotation() : neg( i->rotation() ) ); vh::small( "rotations.mean", rotDist( a.getAverage(), ref ), 1e-9, id ); vh::near_( "rotations.unit", qnorm( a.getAverage() ), 1, 1e-12, id ); vh::small( "rotations.order", rotDist( a.getAverage(), b.getAverage() ), 1e-9, id ); vh::small( "poses.rotation", rotDist( p.getAverage().rotation(), ref ), 1e-9, id ); vh::small( "poses.translation", dist( p.getAverage().translation(), ts ), 1e-12 * n * sc, id ); UM::ErrorPose ea = e.getAverage(); vh::small( "errorposes.rotation", rotDist( ea.rotation(), ref ), 1e-9, id ); vh::small( "errorposes.translation", dist( ea.translation(), ts ), 1e-12 * n * sc, id );
    DM C = dm( 3, 3 ); for ( auto& x : v ) for ( int i = 0; i < 3; i++ ) for ( int j = 0; j < 3; j++ ) C[ i ][ j ] += ( x.translation()( i ) - ts( i ) ) * ( x.translation()( j ) - ts( j ) ) / n; for ( int i = 0; i < 3; i++ ) for ( int j = 0; j < 3; j++ ) vh::near_( "errorposes.covariance", ea.covariance()( i, j ), C[ i ][ j ], 1e-10 * n * sc * sc, id );
    // uncertainty of the orientation does not depend on the signs of the samples either
    US::Average< UM::ErrorPose > e2; for ( auto& x : v ) e2( UM::Pose( r.coin() ? x.rotation() : neg( x.rotation() ), x.translation() ) ); vh::small( "errorposes.sign", maxdiff( fromM( ea.covariance() ), fromM( e2.getAverage().covariance() ) ), 1e-10 * n * ( 1 + sc ) * ( 1 + sc ), id ); if ( n == 1 ) vh::small( "errorposes.single", maxabs( fromM( ea.covariance() ) ), 1e-10 * ( 1 + sc ) * ( 1 + sc ), id );
}
SECTION( "correlation", 2000, 100000 )
{
    int n = r.in( 2, 60 ), m = r.coin( 0.3 ) ? r.in( 2, 60 ) : n; double s = r.logu( 1e-3, 1e3 ), a = r.uni( -2, 2 ), nz = r.coin( 0.3 ) ? 0 : r.logu( 1e-3, 10 ); std::vector< double > x, y; for ( int i = 0; i < std::max( n, m ); i++ ) { double t = r.gauss(); if ( i < n ) x.push_back( t * s + 5 * a ); if ( i < m ) y.push_back( ( a * t + nz * r.gauss() ) * 3 + 1 ); } int k = std::min( n, m ); long double mx = 0, my = 0, sxy = 0, sxx = 0, syy = 0; for ( int i = 0; i < k; i++ ) { mx += x[ i ]; my += y[ i ]; } mx /= k; my /= k; for ( int i = 0; i < k; i++ ) { sxy += ( x[ i ] - mx ) * ( y[ i ] - my ); sxx += ( x[ i ] - mx ) * ( x[ i ] - mx ); syy += ( y[ i ] - my ) * ( y[ i ] - my ); } std::string id = vh::fmt( "%d and %d values scale %.3g", n, m, s ); vh::sample( id ); if ( sxx < 1e-8L * s * s || syy < 1e-8L ) { vh::event( "constant" ); return; }
    double c = Ubitrack::Algorithm::computeCorrelation( x, y ), want = double( sxy / std::sqrt( sxx * syy ) ); vh::near_( "correlation.value", c, want, 1e-7, id ); vh::near_( "correlation.swap", Ubitrack::Algorithm::computeCorrelation( y, x ), c, 1e-9, id ); vh::ok( "correlation.bounded", std::fabs( c ) <= 1 + 1e-9, id ); vh::near_( "correlation.self", Ubitrack::Algorithm::computeCorrelation( x, x ), 1, 1e-9, id ); std::vector< float > fx( x.begin(), x.begin() + k ), fy( y.begin(), y.begin() + k ); double sd = std::sqrt( double( sxx ) / k ); if ( sd > 0.01 * std::fabs( double( mx ) ) && std::sqrt( double( syy ) / k ) > 0.01 * std::fabs( double( my ) ) ) vh::near_( "correlation.float", US::correlation( fx.begin(), fx.end(), fy.begin(), fy.end() ), want, 5e-3, id ); double sg = r.sgn() * r.uni( 0.5, 3 ), of = r.uni( -2, 2 ); std::vector< double > z; for ( int i = 0; i < k; i++ ) z.push_back( sg * x[ i ] + of * s ); vh::near_( "correlation.affine", Ubitrack::Algorithm::computeCorrelation( x, z ), sg > 0 ? 1 : -1, 1e-7, id ); vh::near_( "correlation.empty", Ubitrack::Algorithm::computeCorrelation( {}, {} ), 1, 0, id );
}
template< class T > static void kmeans( Rng& r, const std::string& ty )
{
    typedef UM::Vector< T, 2 > P; UR::RNG.seed( unsigned( r.in( 1, 1000000000 ) ) ); int k = r.in( 1, 5 ), per = r.in( 2, 15 ); std::vector< P > x; std::vector< int > own; std::vector< V2 > c; bool sep = r.coin( 0.6 ); double S = r.logu( 1, 50 ); for ( int i = 0; i < k; i++ ) for ( ;; ) { V2 p( r.uni( -10, 10 ) * S, r.uni( -10, 10 ) * S ); bool ok = true; for ( auto& q : c ) ok &= dist( p, q ) > 4 * S; if ( ok ) { c.push_back( p ); break; } } for ( int i = 0; i < k; i++ ) for ( int j = 0; j < per; j++ ) { double ra = sep ? 0.3 : 3; x.push_back( P( T( c[ i ]( 0 ) + r.uni( -ra, ra ) * S ), T( c[ i ]( 1 ) + r.uni( -ra, ra ) * S ) ) ); own.push_back( i ); } std::vector< std::size_t > o; for ( std::size_t i = 0; i < x.size(); i++ ) o.push_back( i ); r.shuffle( o ); std::vector< P > y; std::vector< int > yo; for ( auto i : o ) { y.push_back( x[ i ] ); yo.push_back( own[ i ] ); } std::string id = vh::fmt( "%d groups of %d scale %.3g%s", k, per, S, sep ? " separated" : "" ); vh::sample( id ); double eps = std::is_same< T, float >::value ? 1e-4 : 1e-10;
    auto verify = [&]( const std::string& nm, const std::vector< P >& m, const std::vector< std::size_t >& ix ) { vh::ok( nm + ".count", ix.size() == y.size(), id ); for ( auto& q : m ) vh::ok( nm + ".finite", std::isfinite( q( 0 ) ) && std::isfinite( q( 1 ) ), id ); for ( std::size_t i = 0; i < y.size() && i < ix.size(); i++ ) { vh::ok( nm + ".index", ix[ i ] < m.size(), id ); if ( ix[ i ] >= m.size() ) continue; auto D = [&]( const P& q ) { return std::hypot( double( q( 0 ) ) - y[ i ]( 0 ), double( q( 1 ) ) - y[ i ]( 1 ) ); }; double d = D( m[ ix[ i ] ] ); for ( auto& q : m ) vh::ok( nm + ".nearest", d <= D( q ) + eps * S * 30, id ); } };
    { std::vector< P > m; std::vector< std::size_t > ix; US::k_means( y.begin(), y.end(), std::size_t( k ), std::back_inserter( m ), std::back_inserter( ix ) ); vh::ok( ty + ".centres", m.size() == std::size_t( k ), id ); verify( ty, m, ix ); }
    { // from given starts
        std::vector< P > m; bool near = sep && r.coin(); if ( near ) for ( auto& q : c ) m.push_back( P( T( q( 0 ) + r.uni( -1, 1 ) * S ), T( q( 1 ) + r.uni( -1, 1 ) * S ) ) ); else for ( int i = 0; i < k; i++ ) m.push_back( r.coin( 0.3 ) ? P( T( r.uni( -30, 30 ) * S ), T( r.uni( -30, 30 ) * S ) ) : y[ r.in( 0, int( y.size() ) - 1 ) ] ); std::vector< std::size_t > ix; US::k_means( y.begin(), y.end(), m.begin(), m.end(), std::back_inserter( ix ), SquaredDistance< P >() ); verify( ty + "Given", m, ix ); if ( near ) { vh::event( "separated" ); for ( std::size_t i = 0; i < y.size(); i++ ) vh::ok( ty + ".separates", int( ix[ i ] ) == yo[ i ], id ); for ( int j = 0; j < k; j++ ) { double sx = 0, sy = 0; int n = 0; for ( std::size_t i = 0; i < y.size(); i++ ) if ( yo[ i ] == j ) { sx += y[ i ]( 0 ); sy += y[ i ]( 1 ); n++; } vh::near_( ty + ".mean", m[ j ]( 0 ), sx / n, eps * S * 100, id ); vh::near_( ty + ".mean", m[ j ]( 1 ), sy / n, eps * S * 100, id ); } } std::vector< std::size_t > cnt( k ); for ( auto i : ix ) if ( i < cnt.size() ) cnt[ i ]++; for ( auto q : cnt ) if ( !q ) { vh::event( "empty-cluster" ); break; } }
    { std::vector< P > all( y.size(), y[ 0 ] ), m; std::vector< std::size_t > ix; if ( y.size() > std::size_t( k ) ) { US::k_means( all.begin(), all.end(), std::size_t( k ), std::back_inserter( m ), std::back_inserter( ix ) ); vh::ok( ty + ".identical", m.size() >= 1 && ix.size() == all.size(), id ); for ( auto& q : m ) vh::ok( ty + ".identicalCentre", std::hypot( q( 0 ) - y[ 0 ]( 0 ), q( 1 ) - y[ 0 ]( 1 ) ) < eps * S * 100, id ); } std::vector< P > g; US::copy_greedy( y.begin(), y.end(), std::size_t( k ), std::back_inserter( g ) ); bool eq = g.size() == std::size_t( k ); for ( int i = 0; i < k && eq; i++ ) eq = g[ i ]( 0 ) == y[ i ]( 0 ) && g[ i ]( 1 ) == y[ i ]( 1 ); vh::ok( ty + ".greedy", eq, id ); std::vector< P > pr; std::size_t np = US::copy_probability( y.begin(), y.end(), std::size_t( k ), std::back_inserter( pr ), Distance< P >() ); vh::ok( ty + ".selected", np == std::size_t( k ) && pr.size() == np, id ); for ( auto& q : pr ) { bool in = false; for ( auto& z : y ) in |= z( 0 ) == q( 0 ) && z( 1 ) == q( 1 ); vh::ok( ty + ".member", in, id ); } for ( std::size_t i = 0; i < pr.size(); i++ ) for ( std::size_t j = 0; j < i; j++ ) vh::ok( ty + ".distinct", pr[ i ]( 0 ) != pr[ j ]( 0 ) || pr[ i ]( 1 ) != pr[ j ]( 1 ), id ); }
}
SECTION( "kmeans", 800, 30000 ) { if ( r.coin( 0.7 ) ) kmeans< double >( r, "kmeans" ); else kmeans< float >( r, "kmeansf" ); }
SECTION( "mixture", 250, 8000 )
{
    typedef US::Weighted< US::Gaussian< double, 2 >, double > G; Quiet q; int k = r.in( 1, 4 ), per = r.in( 15, 60 ); double S = r.logu( 1, 5 ); std::vector< V2 > c, x; std::vector< int > own; for ( int i = 0; i < k; i++ ) for ( ;; ) { V2 p( r.uni( -30, 30 ) * S, r.uni( -30, 30 ) * S ); bool ok = true; for ( auto& z : c ) ok &= dist( p, z ) > 12 * S; if ( ok ) { c.push_back( p ); break; } } std::vector< std::pair< V2, int > > all; for ( int i = 0; i < k; i++ ) for ( int j = 0; j < per; j++ ) { V2 p; do { p = V2( r.gauss() * S, r.gauss() * S ); } while ( std::hypot( p( 0 ), p( 1 ) ) > 2.5 * S ); all.push_back( { V2( c[ i ]( 0 ) + p( 0 ), c[ i ]( 1 ) + p( 1 ) ), i } ); } r.shuffle( all ); for ( auto& a : all ) { x.push_back( a.first ); own.push_back( a.second ); } std::vector< G > g( k ); for ( int i = 0; i < k; i++ ) { US::reset( static_cast< US::Gaussian< double, 2 >& >( g[ i ] ) ); g[ i ].mean[ 0 ] = c[ i ]( 0 ) + r.uni( -1, 1 ) * S; g[ i ].mean[ 1 ] = c[ i ]( 1 ) + r.uni( -1, 1 ) * S; g[ i ].covariance[ 0 ] = g[ i ].covariance[ 3 ] = S * S * r.uni( 0.5, 2 ); g[ i ].weight = 1.0 / k; }
    std::string id = vh::fmt( "%d groups of %d scale %.3g", k, per, S ); vh::sample( id ); auto ll = [&]( const std::vector< G >& h ) { double s = 0; for ( auto& p : x ) { double z = 0; for ( auto& e : h ) { double a = e.covariance[ 0 ], b = e.covariance[ 1 ], d = e.covariance[ 3 ], det = a * d - b * b, u = p( 0 ) - e.mean[ 0 ], v = p( 1 ) - e.mean[ 1 ]; z += e.weight * std::exp( -( d * u * u - 2 * b * u * v + a * v * v ) / ( 2 * det ) ) / ( 2 * PI * std::sqrt( det ) ); } s += std::log( z ); } return s / x.size(); }; double before = ll( g ); vh::near_( "mixture.loglikelihood", US::log_likelihood< double >( g.begin(), g.end(), x.begin(), x.end() ), before, 1e-4 * ( 1 + std::fabs( before ) ), id ); double got = US::expectation_maximization( x.begin(), x.end(), g.begin(), g.end() ), after = ll( g ); vh::near_( "mixture.returned", got, after, 1e-3 * ( 1 + std::fabs( after ) ), id ); vh::ok( "mixture.improves", after >= before - 1e-9, id + vh::fmt( " %g -> %g", before, after ) ); double ws = 0; for ( int i = 0; i < k; i++ ) { ws += g[ i ].weight; double mx = 0, my = 0, cxx = 0, cyy = 0, cxy = 0; for ( std::size_t j = 0; j < x.size(); j++ ) if ( own[ j ] == i ) { mx += x[ j ]( 0 ) / per; my += x[ j ]( 1 ) / per; } for ( std::size_t j = 0; j < x.size(); j++ ) if ( own[ j ] == i ) { cxx += std::pow( x[ j ]( 0 ) - mx, 2 ) / per; cyy += std::pow( x[ j ]( 1 ) - my, 2 ) / per; cxy += ( x[ j ]( 0 ) - mx ) * ( x[ j ]( 1 ) - my ) / per; } vh::near_( "mixture.weight", g[ i ].weight, 1.0 / k, 1e-3, id ); vh::near_( "mixture.mean", g[ i ].mean[ 0 ], mx, 1e-3 * S, id ); vh::near_( "mixture.mean", g[ i ].mean[ 1 ], my, 1e-3 * S, id ); vh::near_( "mixture.covariance", g[ i ].covariance[ 0 ], cxx, 1e-2 * S * S, id ); vh::near_( "mixture.covariance", g[ i ].covariance[ 3 ], cyy, 1e-2 * S * S, id ); vh::near_( "mixture.covariance", g[ i ].covariance[ 1 ], cxy, 1e-2 * S * S, id ); vh::near_( "mixture.covariance", g[ i ].covariance[ 2 ], cxy, 1e-2 * S * S, id ); } vh::near_( "mixture.weights", ws, 1, 1e-9, id ); std::vector< G > srt( g ); for ( auto& e : srt ) e.weight = r.uni( 0, 1 ); std::sort( srt.begin(), srt.end() ); for ( int i = 1; i < k; i++ ) vh::ok( "weighted.order", srt[ i - 1 ].weight <= srt[ i ].weight && !( srt[ i ] < srt[ i - 1 ] ) && ( srt[ i ] > srt[ i - 1 ] || srt[ i ] == srt[ i - 1 ] ) && ( srt[ i ] != srt[ i - 1 ] ) == ( srt[ i ].weight != srt[ i - 1 ].weight ), id );
}
template< class T > static void real( Rng& r, const std::string& ty )
{
    UR::RNG.seed( unsigned( r.in( 1, 1000000000 ) ) ); T lo = T( r.uni( -10, 10 ) * r.logu( 1e-3, 1e3 ) ), hi = T( lo + r.logu( 1e-2, 1e3 ) ); int n = 4000; double m = 0, v = 0; std::string id = ty + vh::fmt( " range %.6g..%.6g", double( lo ), double( hi ) ); vh::sample( id ); std::vector< int > bin( 10 ); for ( int i = 0; i < n; i++ ) { T x = UR::distribute_uniform< T >( lo, hi ); if ( !( x >= lo && x <= hi ) ) { vh::ok( ty + ".inRange", false, id + vh::fmt( " got %.9g", double( x ) ) ); return; } double u = ( double( x ) - lo ) / ( double( hi ) - lo ); m += u / n; v += u * u / n; bin[ std::min( 9, int( u * 10 ) ) ]++; } vh::ok( ty + ".inRange", true, id ); vh::near_( ty + ".mean", m, 0.5, 0.03, id ); vh::near_( ty + ".variance", v - m * m, 1.0 / 12, 0.012, id ); for ( int b : bin ) vh::ok( ty + ".bins", b > 250 && b < 570, id );
    double mu = r.uni( -10, 10 ), sg = r.logu( 1e-2, 1e2 ), k3 = 0, k4 = 0; m = v = 0; std::vector< double > z; for ( int i = 0; i < n; i++ ) z.push_back( ( UR::distribute_normal< T >( T( mu ), T( sg ) ) - mu ) / sg ); for ( double x : z ) m += x / n; for ( double x : z ) { v += ( x - m ) * ( x - m ) / n; k3 += std::pow( x - m, 3 ) / n; k4 += std::pow( x - m, 4 ) / n; } id = ty + vh::fmt( " normal %.3g %.3g", mu, sg ); double fl = std::is_same< T, float >::value ? 1e-5 * std::fabs( mu ) / sg : 0; vh::near_( ty + ".normalMean", m, 0, 0.11 + fl, id ); vh::near_( ty + ".normalVariance", v, 1, 0.15 + fl, id ); vh::near_( ty + ".normalSkew", k3, 0, 0.3, id ); vh::near_( ty + ".normalKurtosis", k4, 3, 0.8, id );
    UM::Vector< T, 3 > a, b; for ( int i = 0; i < 3; i++ ) { a( i ) = T( r.uni( -5, 5 ) ); b( i ) = T( a( i ) + r.uni( 0.1, 3 ) ); } typename UR::Vector< T, 3 >::Uniform vu( a, b ), vs( hi, lo ); typename UR::Vector< T, 3 >::Normal vn( a, b ), vz( a, UM::Vector< T, 3 >( 0, 0, 0 ) ); double mm[ 3 ] = { 0, 0, 0 }, vv[ 3 ] = { 0, 0, 0 }, um_[ 3 ] = { 0, 0, 0 }; bool in = true, in2 = true; for ( int i = 0; i < 2000; i++ ) { auto x = vu(), y = vs(), w = vn(); for ( int k = 0; k < 3; k++ ) { in &= x( k ) >= a( k ) && x( k ) <= b( k ); in2 &= y( k ) >= lo && y( k ) <= hi; um_[ k ] += ( double( x( k ) ) - a( k ) ) / ( double( b( k ) ) - a( k ) ) / 2000; mm[ k ] += w( k ) / 2000.0; vv[ k ] += ( double( w( k ) ) - a( k ) ) * ( double( w( k ) ) - a( k ) ) / 2000; } } vh::ok( ty + ".vectorRange", in, id ); vh::ok( ty + ".vectorSwappedRange", in2, id ); for ( int k = 0; k < 3; k++ ) { vh::near_( ty + ".vectorMean", um_[ k ], 0.5, 0.05, id ); if ( std::fabs( b( k ) ) > 0.05 ) { vh::near_( ty + ".vectorNormalMean", ( mm[ k ] - a( k ) ) / std::fabs( b( k ) ), 0, 0.16, id ); vh::near_( ty + ".vectorNormalVariance", vv[ k ] / ( double( b( k ) ) * b( k ) ), 1, 0.25, id ); } } (void)vz; typename UR::Matrix< T, 2, 3 >::Uniform mu_( hi, lo ); bool in3 = true; double mmean = 0; for ( int i = 0; i < 500; i++ ) { auto M = mu_(); for ( int p = 0; p < 2; p++ ) for ( int c = 0; c < 3; c++ ) { in3 &= M( p, c ) >= lo && M( p, c ) <= hi; mmean += ( double( M( p, c ) ) - lo ) / ( double( hi ) - lo ) / 3000; } } vh::ok( ty + ".matrixRange", in3, id ); vh::near_( ty + ".matrixMean", mmean, 0.5, 0.05, id );
}
SECTION( "random.real", 24, 1500 ) { if ( r.coin() ) real< double >( r, "double" ); else real< float >( r, "float" ); }
SECTION( "random.int", 60, 3000 )
{
    UR::RNG.seed( unsigned( r.in( 1, 1000000000 ) ) ); int lo = r.in( -50, 50 ), w = r.in( 0, 20 ), n = 300 * ( w + 1 ); std::string id = vh::fmt( "integers %d..%d", lo, lo + w ); vh::sample( id ); std::vector< int > c( w + 1 ); bool in = true; for ( int i = 0; i < n; i++ ) { int x = UR::distribute_uniform< int >( lo, lo + w ); if ( x < lo || x > lo + w ) in = false; else c[ x - lo ]++; } vh::ok( "int.inRange", in, id ); for ( int k : c ) vh::ok( "int.bins", k > 180 && k < 430, id + vh::fmt( " %d", k ) ); bool in2 = true; for ( int i = 0; i < 200; i++ ) { std::size_t x = UR::distribute_uniform< std::size_t >( 0, std::size_t( w ) ); in2 &= x <= std::size_t( w ); } vh::ok( "size.inRange", in2, id );
    // the same seed gives the same sequence
    UR::RNG.seed( 77u + unsigned( w ) ); double s1 = 0, s2 = 0; for ( int i = 0; i < 20; i++ ) s1 += UR::distribute_uniform< double >( 0, 1 ) * ( i + 1 ); UR::RNG.seed( 77u + unsigned( w ) ); for ( int i = 0; i < 20; i++ ) s2 += UR::distribute_uniform< double >( 0, 1 ) * ( i + 1 ); vh::ok( "random.repeatable", s1 == s2, id );
}
SECTION( "random.rotation", 16, 800 )
{
    UR::RNG.seed( unsigned( r.in( 1, 1000000000 ) ) ); bool f = r.coin(); UR::Quaternion< double >::Uniform qd; UR::Quaternion< float >::Uniform qf; int n = 3000; double M[ 4 ][ 4 ] = {}, w2 = 0; R3 S; for ( auto& row : S.m ) for ( double& x : row ) x = 0; std::string id = f ? "float" : "double"; vh::sample( id ); for ( int i = 0; i < n; i++ ) { UM::Quaternion q = f ? qf() : qd(); double l = qnorm( q ); if ( !( std::fabs( l - 1 ) < ( f ? 1e-5 : 1e-12 ) ) ) { vh::ok( "rotation.unit", false, str( q ) ); return; } double c[ 4 ] = { q.x(), q.y(), q.z(), q.w() }; for ( int a = 0; a < 4; a++ ) for ( int b = 0; b < 4; b++ ) M[ a ][ b ] += c[ a ] * c[ b ] / n; w2 += std::pow( q.w(), 4 ) / n; R3 R = refMatrix( q ); for ( int a = 0; a < 3; a++ ) for ( int b = 0; b < 3; b++ ) S.m[ a ][ b ] += R.m[ a ][ b ] / n; } vh::ok( "rotation.unit", true ); for ( int a = 0; a < 4; a++ ) for ( int b = 0; b < 4; b++ ) vh::near_( "rotation.uniform", M[ a ][ b ], a == b ? 0.25 : 0, 0.03, id ); vh::near_( "rotation.fourth", w2, 0.125, 0.025, id ); for ( auto& row : S.m ) for ( double x : row ) vh::near_( "rotation.meanMatrix", x, 0, 0.07, id );
}
VH_MAIN
