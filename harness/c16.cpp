// C16: homographies and projection matrices are recovered and decomposed
#include "um.h"
#include <utAlgorithm/Homography.h>
#include <utAlgorithm/Projection.h>
using namespace um; namespace UA = Ubitrack::Algorithm;
template< class T > using TV2 = UM::Vector< T, 2 >; template< class T > using TV3 = UM::Vector< T, 3 >;

static V2 hmap( const DM& H, double x, double y ) { double w = H[ 2 ][ 0 ] * x + H[ 2 ][ 1 ] * y + H[ 2 ][ 2 ]; return V2( ( H[ 0 ][ 0 ] * x + H[ 0 ][ 1 ] * y + H[ 0 ][ 2 ] ) / w, ( H[ 1 ][ 0 ] * x + H[ 1 ][ 1 ] * y + H[ 1 ][ 2 ] ) / w ); }
static double area( const V2& a, const V2& b, const V2& c ) { return std::fabs( ( b( 0 ) - a( 0 ) ) * ( c( 1 ) - a( 1 ) ) - ( b( 1 ) - a( 1 ) ) * ( c( 0 ) - a( 0 ) ) ); }
/// unit-square-sized sets determining a homography: some four points pairwise far from collinear
static std::vector< V2 > planar( Rng& r, int n ) { std::vector< V2 > p; for ( ;; ) { p.clear(); int k = r.in( 0, 2 ); for ( int i = 0; i < n; i++ ) p.push_back( k == 0 ? V2( r.in( -2, 2 ) * 0.5, r.in( -2, 2 ) * 0.5 ) : V2( r.uni( -1, 1 ), r.uni( -1, 1 ) ) ); if ( k == 2 ) { p[ 0 ] = V2( -1, 1 ); p[ 1 ] = V2( -1, -1 ); p[ 2 ] = V2( 1, -1 ); p[ 3 ] = V2( 1, 1 ); } double a = std::min( std::min( area( p[ 0 ], p[ 1 ], p[ 2 ] ), area( p[ 0 ], p[ 1 ], p[ 3 ] ) ), std::min( area( p[ 0 ], p[ 2 ], p[ 3 ] ), area( p[ 1 ], p[ 2 ], p[ 3 ] ) ) ); if ( a > 0.2 ) return p; } }
template< class T > static void homography( Rng& r, const std::string& ty )
{
    bool fl = std::is_same< T, float >::value; int n = r.coin( 0.3 ) ? 4 : r.in( 4, 30 ); std::vector< V2 > p = planar( r, n ); double an = r.uni( -M_PI, M_PI ), sx = r.uni( 0.5, 2 ), sy = r.uni( 0.5, 2 ) * r.sgn(), sk = r.uni( -0.5, 0.5 ), g = r.coin( 0.2 ) ? 0 : r.uni( -0.4, 0.4 ), h = r.coin( 0.2 ) ? 0 : r.uni( -0.4, 0.4 ); if ( r.coin( 0.1 ) ) { an = r.in( 0, 3 ) * M_PI / 2; sx = sy = 1; sk = 0; } double fs = fl ? r.logu( 0.1, 100 ) : r.logu( 1e-3, 1e4 ), ts = fl ? r.logu( 0.1, 100 ) : r.logu( 1e-3, 1e4 ), fx = r.coin( 0.4 ) ? 0 : r.uni( -1, 1 ) * ( fl ? 3 : 100 ), fy = r.uni( -1, 1 ) * ( fl ? 3 : 100 ), tx = r.coin( 0.4 ) ? 0 : r.uni( -1, 1 ) * ( fl ? 3 : 100 ), tY = r.uni( -1, 1 ) * ( fl ? 3 : 100 );
    DM A = dm( 3, 3 ); A[ 0 ][ 0 ] = sx * std::cos( an ); A[ 0 ][ 1 ] = sx * sk - sy * std::sin( an ); A[ 1 ][ 0 ] = sx * std::sin( an ); A[ 1 ][ 1 ] = sy * std::cos( an ); A[ 2 ][ 0 ] = g; A[ 2 ][ 1 ] = h; A[ 2 ][ 2 ] = 1; if ( std::fabs( A[ 0 ][ 0 ] * A[ 1 ][ 1 ] - A[ 0 ][ 1 ] * A[ 1 ][ 0 ] ) < 0.1 ) return;
    auto F = [&]( const V2& v ) { return TV2< T >( T( fs * ( v( 0 ) + fx ) ), T( fs * ( v( 1 ) + fy ) ) ); }; auto G = [&]( const V2& v ) { V2 w = hmap( A, v( 0 ), v( 1 ) ); return TV2< T >( T( ts * ( w( 0 ) + tx ) ), T( ts * ( w( 1 ) + tY ) ) ); };
    std::vector< TV2< T > > a, b; r.shuffle( p ); for ( auto& v : p ) { a.push_back( F( v ) ); b.push_back( G( v ) ); } const std::vector< TV2< T > > a0( a ), b0( b ); std::string id = ty + vh::fmt( " n %d scales %.3g %.3g offsets (%.3g,%.3g)(%.3g,%.3g) angle %.3f g %.3f h %.3f", n, fs, ts, fx, fy, tx, tY, an, g, h ); vh::sample( id ); UM::Matrix< T, 3, 3 > H = UA::homographyDLT( a, b ); DM D = fromM( H ); double tol = fl ? 0.05 : 1e-9;
    for ( std::size_t i = 0; i < a.size(); i++ ) vh::small( ty + ".maps", dist( hmap( D, a[ i ]( 0 ), a[ i ]( 1 ) ), V2( b[ i ]( 0 ), b[ i ]( 1 ) ) ) / ts, tol, id ); for ( int k = 0; k < 5; k++ ) { V2 q( r.uni( -1, 1 ), r.uni( -1, 1 ) ); TV2< T > f = F( q ), t = G( q ); vh::small( ty + ".others", dist( hmap( D, f( 0 ), f( 1 ) ), V2( t( 0 ), t( 1 ) ) ) / ts, tol * 4, id ); }
    bool same = true; for ( std::size_t i = 0; i < a.size(); i++ ) for ( int k = 0; k < 2; k++ ) same &= a[ i ]( k ) == a0[ i ]( k ) && b[ i ]( k ) == b0[ i ]( k ); vh::ok( ty + ".inputs", same, id );
    // square: corners in the documented order
    static const V2 sq[ 4 ] = { V2( -0.5, 0.5 ), V2( -0.5, -0.5 ), V2( 0.5, -0.5 ), V2( 0.5, 0.5 ) }; std::vector< TV2< T > > c, s; for ( int i = 0; i < 4; i++ ) { c.push_back( G( sq[ i ] ) ); s.push_back( TV2< T >( T( sq[ i ]( 0 ) ), T( sq[ i ]( 1 ) ) ) ); } DM S = fromM( UA::squareHomography( c ) ); for ( int k = 0; k < 8; k++ ) { V2 q = k < 4 ? sq[ k ] : V2( r.uni( -0.5, 0.5 ), r.uni( -0.5, 0.5 ) ); TV2< T > t = G( q ); vh::small( ty + ".square", dist( hmap( S, q( 0 ), q( 1 ) ), V2( t( 0 ), t( 1 ) ) ) / ts, fl ? 0.02 : 1e-10, id ); }
}
SECTION( "homography.double", 5000, 100000 ) { homography< double >( r, "homography" ); }
SECTION( "homography.float", 3000, 50000 ) { homography< float >( r, "homographyf" ); }

struct Cam { DM K, R, E, P; V3 t; double f; };
/// OpenGL style camera: looks along -z, K(2,2) = -1
static Cam camera( Rng& r, double depth, bool flip = true )
{
    Cam c; c.K = dm( 3, 3 ); c.f = r.pick( std::vector< double >{ 1, 300, 800, 1500 } ); c.K[ 0 ][ 0 ] = c.f; c.K[ 1 ][ 1 ] = c.f * r.uni( 0.8, 1.25 ) * ( flip ? r.sgn() : 1 ); c.K[ 0 ][ 1 ] = r.coin() ? 0 : r.uni( -0.05, 0.05 ) * c.f; c.K[ 0 ][ 2 ] = r.coin( 0.2 ) ? 0 : -r.uni( -0.1, 0.7 ) * c.f; c.K[ 1 ][ 2 ] = r.coin( 0.2 ) ? 0 : -r.uni( -0.1, 0.6 ) * c.f; c.K[ 2 ][ 2 ] = -1; R3 R = refMatrix( genQuat( r ) ); c.R = dm( 3, 3 ); for ( int i = 0; i < 3; i++ ) for ( int j = 0; j < 3; j++ ) c.R[ i ][ j ] = R.m[ i ][ j ]; c.t = V3( r.uni( -0.3, 0.3 ) * depth, r.uni( -0.3, 0.3 ) * depth, -depth ); c.E = dm( 3, 4 ); for ( int i = 0; i < 3; i++ ) { for ( int j = 0; j < 3; j++ ) c.E[ i ][ j ] = c.R[ i ][ j ]; c.E[ i ][ 3 ] = c.t( i ); } c.P = mul( c.K, c.E ); return c;
}
static A3 pmap( const DM& P, const V3& x ) { A3 o; for ( int i = 0; i < 3; i++ ) o[ i ] = P[ i ][ 0 ] * x( 0 ) + P[ i ][ 1 ] * x( 1 ) + P[ i ][ 2 ] * x( 2 ) + P[ i ][ 3 ]; return o; }
static V2 pix( const DM& P, const V3& x ) { A3 a = pmap( P, x ); return V2( a[ 0 ] / a[ 2 ], a[ 1 ] / a[ 2 ] ); }
template< class T > static UM::Matrix< T, 3, 4 > m34( const DM& P, double s = 1 ) { UM::Matrix< T, 3, 4 > m; for ( int i = 0; i < 3; i++ ) for ( int j = 0; j < 4; j++ ) m( i, j ) = T( P[ i ][ j ] * s ); return m; }
template< class T > static void dlt( Rng& r, const std::string& ty )
{
    bool fl = std::is_same< T, float >::value; double size = fl ? r.logu( 0.1, 100 ) : r.logu( 1e-3, 1e3 ); Cam c = camera( r, size * r.uni( 2.5, 6 ) ); int n = r.coin( 0.2 ) ? 8 : r.in( 7, 40 ); std::vector< V3 > p; int k = r.in( 0, 1 ); for ( int tries = 0; ; tries++ ) { p.clear(); for ( int i = 0; i < n; i++ ) { V3 v = k ? uniVec( r ) : V3( r.in( -1, 1 ), r.in( -1, 1 ), r.in( -1, 1 ) ); p.push_back( V3( v( 0 ) * size, v( 1 ) * size, v( 2 ) * size ) ); }
        // the points must determine the matrix: conditioning of the normalised linear system
        DM N = dm( 12, 12 ); for ( auto& v : p ) { double X[ 4 ] = { v( 0 ) / size, v( 1 ) / size, v( 2 ) / size, 1 }; A3 y = pmap( c.P, v ); double a = y[ 0 ] / y[ 2 ] / c.f, b = y[ 1 ] / y[ 2 ] / c.f; for ( int q = 0; q < 2; q++ ) { double row[ 12 ]; for ( int i = 0; i < 4; i++ ) { row[ i ] = q ? 0 : X[ i ]; row[ 4 + i ] = q ? X[ i ] : 0; row[ 8 + i ] = -( q ? b : a ) * X[ i ]; } for ( int i = 0; i < 12; i++ ) for ( int j = 0; j < 12; j++ ) N[ i ][ j ] += row[ i ] * row[ j ]; } } std::vector< double > e = symEig( N ); std::sort( e.begin(), e.end() ); if ( e[ 1 ] > ( fl ? 5e-3 : 1e-4 ) * e[ 11 ] ) break; if ( tries > 30 ) { vh::event( "weak-points" ); return; } }
    // shift the world: the camera moves along
    V3 o = r.coin() ? V3( 0, 0, 0 ) : uniVec( r, size * ( fl ? 2 : 50 ) ); std::vector< TV3< T > > a; std::vector< TV2< T > > b; auto F = [&]( const V3& v ) { return TV3< T >( T( v( 0 ) + o( 0 ) ), T( v( 1 ) + o( 1 ) ), T( v( 2 ) + o( 2 ) ) ); }; for ( auto& v : p ) { a.push_back( F( v ) ); V2 y = pix( c.P, v ); b.push_back( TV2< T >( T( y( 0 ) ), T( y( 1 ) ) ) ); }
    const std::vector< TV3< T > > a0( a ); const std::vector< TV2< T > > b0( b ); std::string id = ty + vh::fmt( " n %d kind %d size %.3g f %g offset ", n, k, size, c.f ) + str( o ); vh::sample( id ); DM P = fromM( UA::projectionDLT( a, b ) ); double tol = fl ? 0.02 : 1e-8; for ( std::size_t i = 0; i < a.size(); i++ ) vh::small( ty + ".maps", dist( pix( P, V3( a[ i ]( 0 ), a[ i ]( 1 ), a[ i ]( 2 ) ) ), V2( b[ i ]( 0 ), b[ i ]( 1 ) ) ) / c.f, tol, id ); for ( int q = 0; q < 5; q++ ) { V3 v = uniVec( r, size ); TV3< T > w = F( v ); vh::small( ty + ".others", dist( pix( P, V3( w( 0 ), w( 1 ), w( 2 ) ) ), pix( c.P, v ) ) / c.f, tol * 5, id ); vh::ok( ty + ".depth", pmap( P, V3( w( 0 ), w( 1 ), w( 2 ) ) )[ 2 ] > 0, id ); if ( !fl ) vh::near_( ty + ".depthValue", pmap( P, V3( w( 0 ), w( 1 ), w( 2 ) ) )[ 2 ] / size, pmap( c.P, v )[ 2 ] / size, 1e-5, id ); }
    vh::near_( ty + ".viewDirection", std::sqrt( P[ 2 ][ 0 ] * P[ 2 ][ 0 ] + P[ 2 ][ 1 ] * P[ 2 ][ 1 ] + P[ 2 ][ 2 ] * P[ 2 ][ 2 ] ), 1, fl ? 1e-5 : 1e-12, id ); bool same = true; for ( std::size_t i = 0; i < a.size(); i++ ) { for ( int q = 0; q < 3; q++ ) same &= a[ i ]( q ) == a0[ i ]( q ); for ( int q = 0; q < 2; q++ ) same &= b[ i ]( q ) == b0[ i ]( q ); } vh::ok( ty + ".inputs", same, id );
}
SECTION( "projection.double", 3000, 60000 ) { dlt< double >( r, "projection" ); }
SECTION( "projection.float", 2000, 30000 ) { dlt< float >( r, "projectionf" ); }
template< class T > static void decompose( Rng& r, const std::string& ty )
{
    bool fl = std::is_same< T, float >::value; double depth = fl ? r.logu( 0.1, 100 ) : r.logu( 1e-3, 1e4 ); Cam c = camera( r, depth ); double s = r.sgn() * ( fl ? r.logu( 0.01, 100 ) : r.logu( 1e-6, 1e6 ) ); UM::Matrix< T, 3, 4 > P = m34< T >( c.P, s ); const UM::Matrix< T, 3, 4 > P0( P ); UM::Matrix< T, 3, 3 > K, R; UM::Vector< T, 3 > t; UA::decomposeProjection( K, R, t, P ); std::string id = vh::fmt( "f %g depth %.3g scale %.3g", c.f, depth, s ); vh::sample( id ); double tol = fl ? 3e-4 : 1e-11;
    DM k = fromM( K ), q = fromM( R ); vh::ok( ty + ".triangular", K( 1, 0 ) == 0 && K( 2, 0 ) == 0 && K( 2, 1 ) == 0, id ); vh::small( ty + ".orthogonal", maxdiff( mul( q, trans( q ) ), fromM( UM::Matrix< double, 3, 3 >::identity() ) ), fl ? 1e-5 : 1e-13, id ); double det = q[ 0 ][ 0 ] * ( q[ 1 ][ 1 ] * q[ 2 ][ 2 ] - q[ 1 ][ 2 ] * q[ 2 ][ 1 ] ) - q[ 0 ][ 1 ] * ( q[ 1 ][ 0 ] * q[ 2 ][ 2 ] - q[ 1 ][ 2 ] * q[ 2 ][ 0 ] ) + q[ 0 ][ 2 ] * ( q[ 1 ][ 0 ] * q[ 2 ][ 1 ] - q[ 1 ][ 1 ] * q[ 2 ][ 0 ] ); vh::near_( ty + ".proper", det, 1, 1e-4, id );
    vh::small( ty + ".intrinsics", maxdiff( k, c.K ) / c.f, tol, id ); vh::small( ty + ".rotation", maxdiff( q, c.R ), tol, id ); double d = 0; for ( int i = 0; i < 3; i++ ) d = std::max( d, std::fabs( t( i ) - c.t( i ) ) ); 
    // the translation: K [R|t] reproduces the matrix up to scale
    DM E = dm( 3, 4 ); for ( int i = 0; i < 3; i++ ) { for ( int j = 0; j < 3; j++ ) E[ i ][ j ] = q[ i ][ j ]; E[ i ][ 3 ] = t( i ); } DM B = mul( k, E ), Q = fromM( P0 ); double na = 0, nb = 0, ab = 0; for ( int i = 0; i < 3; i++ ) for ( int j = 0; j < 4; j++ ) { na += B[ i ][ j ] * B[ i ][ j ]; nb += Q[ i ][ j ] * Q[ i ][ j ]; ab += B[ i ][ j ] * Q[ i ][ j ]; } vh::near_( ty + ".product", std::fabs( ab ) / std::sqrt( na * nb ), 1, fl ? 1e-5 : 1e-12, id ); vh::small( ty + ".translation", d / depth, tol * 3, id ); vh::ok( ty + ".input", maxdiff( fromM( P ), fromM( P0 ) ) == 0, id );
}
SECTION( "decompose.double", 5000, 100000 ) { decompose< double >( r, "decompose" ); }
SECTION( "decompose.float", 3000, 50000 ) { decompose< float >( r, "decomposef" ); }

template< class T > static void render( Rng& r, const std::string& ty )
{
    bool fl = std::is_same< T, float >::value; Cam c = camera( r, r.logu( 1, 100 ), true ); double w = r.in( 100, 2000 ), h = r.in( 100, 2000 ), n = r.logu( 0.01, 10 ), f = n * r.logu( 1.5, 1000 ), l = r.coin() ? 0 : r.uni( -100, 100 ), b = r.coin() ? 0 : r.uni( -100, 100 ), rr = l + w, t = b + h; if ( r.coin( 0.2 ) ) std::swap( t, b ); double sc = r.coin() ? 1 : r.logu( 0.1, 10 ); std::string id = ty + vh::fmt( " %gx%g at (%g,%g) near %.3g far %.3g scale %.3g", w, h, l, b, n, f, sc ); vh::sample( id );
    UM::Matrix< T, 3, 3 > k3; for ( int i = 0; i < 3; i++ ) for ( int j = 0; j < 3; j++ ) k3( i, j ) = T( c.K[ i ][ j ] * sc ); DM G = fromM( UA::projectionMatrixToOpenGL( T( l ), T( rr ), T( b ), T( t ), T( n ), T( f ), m34< T >( c.P, sc ) ) ), G3 = fromM( UA::projectionMatrixToOpenGL( T( l ), T( rr ), T( b ), T( t ), T( n ), T( f ), k3 ) ); double last = -2; std::vector< double > ds; for ( int q = 0; q < 6; q++ ) ds.push_back( q == 0 ? n : q == 5 ? f : n * std::pow( f / n, r.uni( 0, 1 ) ) ); std::sort( ds.begin(), ds.end() );
    for ( double d : ds ) { // camera-frame point at depth d projecting to a pixel inside the image
        double u = l + r.uni( 0, 1 ) * w, v = std::min( b, t ) + r.uni( 0, 1 ) * h; double y = d * ( v + c.K[ 1 ][ 2 ] ) / c.K[ 1 ][ 1 ], x = ( d * ( u + c.K[ 0 ][ 2 ] ) - c.K[ 0 ][ 1 ] * y ) / c.K[ 0 ][ 0 ]; V3 cam( x, y, -d ), wd; for ( int i = 0; i < 3; i++ ) { wd( i ) = 0; for ( int j = 0; j < 3; j++ ) wd( i ) += c.R[ j ][ i ] * ( cam( j ) - c.t( j ) ); }
        double tl = fl ? 2e-3 * ( 1 + norm( wd ) / d ) : 1e-9 * ( 1 + norm( wd ) / d ); double m = 0; for ( int which = 0; which < 2; which++ ) { const DM& g = which ? G3 : G; V3 p = which ? cam : wd; double o[ 4 ]; for ( int i = 0; i < 4; i++ ) o[ i ] = g[ i ][ 0 ] * p( 0 ) + g[ i ][ 1 ] * p( 1 ) + g[ i ][ 2 ] * p( 2 ) + g[ i ][ 3 ]; vh::ok( ty + ".front", o[ 3 ] > 0, id ); double px = l + ( o[ 0 ] / o[ 3 ] + 1 ) / 2 * ( rr - l ), py = b + ( o[ 1 ] / o[ 3 ] + 1 ) / 2 * ( t - b ); vh::small( ty + ".pixel", std::max( std::fabs( px - u ) / w, std::fabs( py - v ) / h ) / ( 1 + c.f / w ), tl, id ); double z = o[ 2 ] / o[ 3 ], zw = ( ( f + n ) * d - 2 * f * n ) / ( ( f - n ) * d ); vh::near_( ty + ".depth", z, zw, tl * 4 * ( 1 + n / d ), id ); if ( which ) m = z; }
        if ( !fl ) { vh::ok( ty + ".order", m >= last - 1e-12, id ); last = m; } }
}
SECTION( "render.double", 3000, 60000 ) { render< double >( r, "render" ); }
SECTION( "render.float", 2000, 30000 ) { render< float >( r, "renderf" ); }
SECTION( "origin", 3000, 60000 )
{
    Cam c = camera( r, 10 ); int h = r.in( 1, 4000 ); UM::Matrix< double, 3, 3 > k, k0; UM::Matrix< float, 3, 3 > kf; for ( int i = 0; i < 3; i++ ) for ( int j = 0; j < 3; j++ ) { k( i, j ) = k0( i, j ) = c.K[ i ][ j ]; kf( i, j ) = float( c.K[ i ][ j ] ); } bool top = r.coin(); vh::sample( vh::fmt( "height %d top %d f %g k11 %g", h, top, c.f, c.K[ 1 ][ 1 ] ) ); UA::correctOrigin( k, top ? 0 : r.in( 1, 3 ), h ); UA::correctOrigin( kf, top ? 0 : 1, h ); for ( int q = 0; q < 4; q++ ) { double x = r.uni( -1, 1 ), y = r.uni( -1, 1 ), z = -r.uni( 0.5, 5 ); auto px = [&]( const DM& m ) { return V2( ( m[ 0 ][ 0 ] * x + m[ 0 ][ 1 ] * y + m[ 0 ][ 2 ] * z ) / ( m[ 2 ][ 2 ] * z ), ( m[ 1 ][ 1 ] * y + m[ 1 ][ 2 ] * z ) / ( m[ 2 ][ 2 ] * z ) ); }; V2 a = px( c.K ), b = px( fromM( k ) ), f = px( fromM( kf ) ), want( a( 0 ), top ? h - 1 - a( 1 ) : a( 1 ) ); vh::small( "origin", dist( b, want ) / ( h + c.f ), 1e-12, vh::fmt( "height %d top %d", h, top ) ); vh::small( "origin.float", dist( f, want ) / ( h + c.f ), 1e-4, vh::fmt( "height %d top %d", h, top ) ); }
    if ( top ) { UA::correctOrigin( k, 0, h ); vh::small( "origin.twice", maxdiff( fromM( k ), fromM( k0 ) ) / ( h + c.f ), 1e-12 ); }
}
SECTION( "offaxis", 3000, 60000 )
{
    UM::Pose s = uniPose( r, 5 ); double sw = r.logu( 0.1, 10 ), sh = r.logu( 0.1, 10 ), D = r.logu( 0.2, 20 ), n = r.logu( 0.01, 1 ) * D, f = D * r.logu( 1.2, 100 ); V3 e( r.uni( -1, 2 ) * sw, r.uni( -1, 2 ) * sh, D ), ll = act( s, V3( 0, 0, 0 ) ), ul = act( s, V3( 0, sh, 0 ) ), lr = act( s, V3( sw, 0, 0 ) ), eye = act( s, e ); const V3 e0( eye ), l0( ll ); std::string id = vh::fmt( "screen %.3gx%.3g eye (%.3g,%.3g,%.3g) near %.3g far %.3g ", sw, sh, e( 0 ), e( 1 ), e( 2 ), n, f ) + str( s ); vh::sample( id ); DM M = fromM( UA::offAxisProjectionMatrix( eye, ll, ul, lr, n, f, sw, sh ) ); double last = -2; std::vector< double > ds = { n, f }; for ( int q = 0; q < 4; q++ ) ds.push_back( n * std::pow( f / n, r.uni( 0, 1 ) ) ); ds.push_back( D ); std::sort( ds.begin(), ds.end() );
    for ( double d : ds ) { double u = r.coin( 0.2 ) ? r.in( 0, 1 ) : r.uni( 0, 1 ), v = r.coin( 0.2 ) ? r.in( 0, 1 ) : r.uni( 0, 1 ); V3 on( u * sw, v * sh, 0 ), p = act( s, V3( e( 0 ) + ( on( 0 ) - e( 0 ) ) * d / D, e( 1 ) + ( on( 1 ) - e( 1 ) ) * d / D, D - d ) ); double o[ 4 ]; for ( int i = 0; i < 4; i++ ) o[ i ] = M[ i ][ 0 ] * p( 0 ) + M[ i ][ 1 ] * p( 1 ) + M[ i ][ 2 ] * p( 2 ) + M[ i ][ 3 ]; double tl = 1e-10 * ( 1 + ( 10 + norm( eye ) ) / std::min( d, std::min( sw, sh ) * d / D ) ); vh::near_( "offaxis.x", o[ 0 ] / o[ 3 ], 2 * u - 1, tl, id ); vh::near_( "offaxis.y", o[ 1 ] / o[ 3 ], 2 * v - 1, tl, id ); vh::near_( "offaxis.depth", o[ 2 ] / o[ 3 ], ( ( f + n ) * d - 2 * f * n ) / ( ( f - n ) * d ), tl * 10, id ); vh::ok( "offaxis.front", o[ 3 ] > 0, id ); vh::ok( "offaxis.order", o[ 2 ] / o[ 3 ] >= last - 1e-9, id ); last = o[ 2 ] / o[ 3 ]; }
    vh::ok( "offaxis.inputs", dist( e0, eye ) == 0 && dist( l0, ll ) == 0, id );
}
template< class T > static void errors( Rng& r )
{
    int n = r.in( 0, 8 ), m = r.in( 0, 8 ); std::vector< TV2< T > > a, b; std::vector< TV3< T > > c; for ( int i = 0; i < n; i++ ) { V3 v = uniVec( r ); a.push_back( TV2< T >( T( v( 0 ) ), T( v( 1 ) ) ) ); c.push_back( TV3< T >( T( v( 0 ) ), T( v( 1 ) ), T( v( 2 ) ) ) ); } for ( int i = 0; i < m; i++ ) b.push_back( TV2< T >( T( r.uni( -1, 1 ) ), T( r.uni( -1, 1 ) ) ) ); std::string id = vh::fmt( "%d and %d points", n, m ); vh::sample( id );
    if ( n != m || n < 4 ) vh::ok( "errors.homography", vh::throws( [&] { UA::homographyDLT( a, b ); } ), id ); if ( n != m || n < 6 ) vh::ok( "errors.projection", vh::throws( [&] { UA::projectionDLT( c, b ); } ), id ); if ( n != 4 ) vh::ok( "errors.square", vh::throws( [&] { UA::squareHomography( a ); } ), id );
}
SECTION( "errors", 600, 6000 ) { errors< double >( r ); errors< float >( r ); }
VH_MAIN
