// C18: lens distortion and its removal are inverse to each other and follow the documented polynomial
#include "um.h"
#include <utMath/CameraIntrinsics.h>
#include <utMath/Optimization/Optimization.h>
#include <utAlgorithm/CameraLens/Correction.h>
#include <utAlgorithm/CameraLens/Distortion.h>
#include <utAlgorithm/LensDistortion.h>
using namespace um; namespace UA = Ubitrack::Algorithm; namespace CL = Ubitrack::Algorithm::CameraLens;
template< class T > using TV2 = UM::Vector< T, 2 >;
template< class T > struct Lens { UM::Matrix< T, 3, 3 > K; double k[ 6 ], p[ 2 ]; int n; double f; std::string id; };
static V2 model( const double* k, const double* p, double x, double y ) { double r2 = x * x + y * y, g = ( 1 + r2 * ( k[ 0 ] + r2 * ( k[ 1 ] + r2 * k[ 2 ] ) ) ) / ( 1 + r2 * ( k[ 3 ] + r2 * ( k[ 4 ] + r2 * k[ 5 ] ) ) ); return V2( x * g + 2 * p[ 0 ] * x * y + p[ 1 ] * ( r2 + 2 * x * x ), y * g + 2 * p[ 1 ] * x * y + p[ 0 ] * ( r2 + 2 * y * y ) ); }
template< class T > static Lens< T > lens( Rng& r, int n )
{
    Lens< T > l; l.n = n; l.f = r.pick( std::vector< double >{ 1, 500, 900 } ); UM::Matrix< T, 3, 3 > K; for ( int i = 0; i < 9; i++ ) K( i / 3, i % 3 ) = 0; double sg = r.sgn(); K( 0, 0 ) = T( l.f ); K( 1, 1 ) = T( l.f * r.uni( 0.8, 1.25 ) ); K( 0, 1 ) = r.coin() ? T( 0 ) : T( r.uni( -0.05, 0.05 ) * l.f ); K( 0, 2 ) = T( sg * r.uni( 0, 0.7 ) * l.f ); K( 1, 2 ) = T( sg * r.uni( 0, 0.6 ) * l.f ); K( 2, 2 ) = T( sg ); l.K = K; for ( double& x : l.k ) x = 0; for ( int i = 0; i < n; i++ ) l.k[ i ] = r.coin( 0.15 ) ? 0 : r.uni( -1, 1 ) * ( i % 3 == 0 ? 0.25 : i % 3 == 1 ? 0.1 : 0.04 ); for ( double& x : l.p ) x = r.coin( 0.25 ) ? 0 : r.uni( -0.01, 0.01 ); if ( r.coin( 0.05 ) ) { for ( double& x : l.k ) x = 0; l.p[ 0 ] = l.p[ 1 ] = 0; } for ( double& x : l.k ) x = double( T( x ) ); for ( double& x : l.p ) x = double( T( x ) ); l.id = vh::fmt( "f %g K22 %g k(%.4g %.4g %.4g %.4g %.4g %.4g) p(%.3g %.3g)", l.f, sg, l.k[ 0 ], l.k[ 1 ], l.k[ 2 ], l.k[ 3 ], l.k[ 4 ], l.k[ 5 ], l.p[ 0 ], l.p[ 1 ] ); return l;
}
template< class T > static V2 toPix( const Lens< T >& l, const V2& s ) { return V2( s( 0 ) * l.K( 0, 0 ) + s( 1 ) * l.K( 0, 1 ) + double( l.K( 0, 2 ) ) * l.K( 2, 2 ), s( 1 ) * l.K( 1, 1 ) + double( l.K( 1, 2 ) ) * l.K( 2, 2 ) ); }
/// sensor point of moderate eccentricity where the model is far from folding over
template< class T > static bool usable( const Lens< T >& l, const V2& s ) { double h = 1e-5; V2 a = model( l.k, l.p, s( 0 ) + h, s( 1 ) ), b = model( l.k, l.p, s( 0 ) - h, s( 1 ) ), c = model( l.k, l.p, s( 0 ), s( 1 ) + h ), d = model( l.k, l.p, s( 0 ), s( 1 ) - h ); double j00 = ( a( 0 ) - b( 0 ) ) / ( 2 * h ), j10 = ( a( 1 ) - b( 1 ) ) / ( 2 * h ), j01 = ( c( 0 ) - d( 0 ) ) / ( 2 * h ), j11 = ( c( 1 ) - d( 1 ) ) / ( 2 * h ); return j00 > 0.6 && j11 > 0.6 && j00 * j11 - j01 * j10 > 0.5 && std::fabs( j00 - 1 ) < 0.45 && std::fabs( j11 - 1 ) < 0.45; }
static V2 sensor( Rng& r ) { int k = r.in( 0, 9 ); if ( k == 0 ) return V2( 0, 0 ); if ( k == 1 ) return V2( r.uni( -0.6, 0.6 ), 0 ); if ( k == 2 ) return V2( 0, r.uni( -0.6, 0.6 ) ); if ( k == 3 ) return V2( r.sgn() * r.logu( 1e-8, 1e-2 ), r.sgn() * r.logu( 1e-8, 1e-2 ) ); double a = r.uni( 0, 6.3 ), m = r.uni( 0, 0.75 ); return V2( m * std::cos( a ), m * std::sin( a ) ); }
template< class T > static UM::CameraIntrinsics< T > intrinsics( Rng& r, const Lens< T >& l )
{
    UM::Vector< T, 2 > tg( T( l.p[ 0 ] ), T( l.p[ 1 ] ) ); UM::Vector< T, 6 > k6; for ( int i = 0; i < 6; i++ ) k6( i ) = T( l.k[ i ] ); std::size_t w = r.in( 1, 4000 ), h = r.in( 1, 4000 ); UM::CameraIntrinsics< T > c; if ( r.coin( 0.25 ) ) { c = UM::CameraIntrinsics< T >( UM::Vector< std::size_t, 2 >( w, h ), l.K, l.n, k6, tg ); } else if ( l.n == 2 ) c = UM::CameraIntrinsics< T >( l.K, UM::Vector< T, 2 >( k6( 0 ), k6( 1 ) ), tg, w, h ); else if ( l.n == 3 ) c = UM::CameraIntrinsics< T >( l.K, UM::Vector< T, 3 >( k6( 0 ), k6( 1 ), k6( 2 ) ), tg, w, h ); else c = UM::CameraIntrinsics< T >( l.K, k6, tg, w, h ); vh::ok( "intrinsics.dimension", c.dimension( 0 ) == w && c.dimension( 1 ) == h, l.id ); vh::ok( "intrinsics.type", c.calib_type == ( l.n == 2 ? UM::CameraIntrinsics< T >::OPENCV_2_2 : l.n == 3 ? UM::CameraIntrinsics< T >::OPENCV_3_2 : UM::CameraIntrinsics< T >::OPENCV_6_2 ) && c.radial_size == std::size_t( l.n ), l.id ); if ( l.f > 1 ) { vh::near_( "intrinsics.angle", c.angleHorizontal(), 2 * std::atan( w / ( 2 * double( l.K( 0, 0 ) ) ) ) * 180 / M_PI, 1e-3, l.id ); vh::near_( "intrinsics.angle", c.angleVertical(), 2 * std::atan( h / ( 2 * double( l.K( 1, 1 ) ) ) ) * 180 / M_PI, 1e-3, l.id ); } return c;
}
template< class T > static void correction( Rng& r, const std::string& ty )
{
    bool fl = std::is_same< T, float >::value; Lens< T > l = lens< T >( r, r.pick( std::vector< int >{ 2, 3, 6 } ) ); UM::CameraIntrinsics< T > c = intrinsics( r, l ); vh::sample( l.id ); bool zero = true; for ( double x : l.k ) zero &= x == 0; for ( double x : l.p ) zero &= x == 0; if ( zero ) vh::event( "zero-coefficients" ); double tm = fl ? 1e-5 : 1e-13;
    std::vector< TV2< T > > in, out, dis, und; std::vector< V2 > ss; int n = r.in( 0, 12 ); for ( int i = 0; i < n; i++ ) { V2 s = sensor( r ); if ( !usable( l, s ) ) { vh::event( "folding" ); continue; } ss.push_back( s ); V2 q = toPix( l, s ); in.push_back( TV2< T >( T( q( 0 ) ), T( q( 1 ) ) ) ); }
    const auto in0 = in; for ( std::size_t i = 0; i < in.size(); i++ ) { TV2< T > d, u, dd; CL::distort( c, in[ i ], d ); V2 want = toPix( l, model( l.k, l.p, ss[ i ]( 0 ), ss[ i ]( 1 ) ) ); vh::small( ty + ".model", dist( V2( d( 0 ), d( 1 ) ), want ) / l.f, tm * 10, l.id ); if ( zero ) vh::small( ty + ".identity", dist( V2( d( 0 ), d( 1 ) ), V2( in[ i ]( 0 ), in[ i ]( 1 ) ) ) / l.f, tm, l.id ); if ( ss[ i ]( 0 ) == 0 && ss[ i ]( 1 ) == 0 ) vh::small( ty + ".principal", dist( V2( d( 0 ), d( 1 ) ), V2( in[ i ]( 0 ), in[ i ]( 1 ) ) ) / l.f, tm, l.id );
        CL::undistort( c, d, u ); double disp = dist( V2( d( 0 ), d( 1 ) ), V2( in[ i ]( 0 ), in[ i ]( 1 ) ) ) / l.f; vh::small( ty + ".undistort", dist( V2( u( 0 ), u( 1 ) ), V2( in[ i ]( 0 ), in[ i ]( 1 ) ) ) / l.f, 2e-4 * disp + ( fl ? 2e-5 : 1e-12 ), l.id + vh::fmt( " sensor (%.4g,%.4g) displacement %.3g", ss[ i ]( 0 ), ss[ i ]( 1 ), disp ) ); CL::distort( c, u, dd ); vh::small( ty + ".redistort", dist( V2( d( 0 ), d( 1 ) ), V2( dd( 0 ), dd( 1 ) ) ) / l.f, 4e-4 * disp + ( fl ? 4e-5 : 2e-12 ), l.id );
        TV2< T > al( in[ i ] ); CL::distort( c, al, al ); vh::ok( ty + ".inplace", al( 0 ) == d( 0 ) && al( 1 ) == d( 1 ), l.id ); CL::undistort( c, al, al ); vh::ok( ty + ".inplace", al( 0 ) == u( 0 ) && al( 1 ) == u( 1 ), l.id ); dis.push_back( d ); und.push_back( u );
        TV2< T > s( T( ss[ i ]( 0 ) ), T( ss[ i ]( 1 ) ) ), so; CL::distort( c.radial_params, c.tangential_params, s, so ); V2 m = model( l.k, l.p, s( 0 ), s( 1 ) ); vh::small( ty + ".normalised", dist( V2( so( 0 ), so( 1 ) ), m ), tm, l.id );
        if ( l.n == 2 ) { UM::Vector< T, 4 > d4( T( l.k[ 0 ] ), T( l.k[ 1 ] ), T( l.p[ 0 ] ), T( l.p[ 1 ] ) ); TV2< T > a = UA::lensDistort( in[ i ], d4, l.K ), b = UA::lensUnDistort( d, d4, l.K ); vh::small( ty + ".four.distort", dist( V2( a( 0 ), a( 1 ) ), V2( d( 0 ), d( 1 ) ) ) / l.f, tm * 10, l.id ); vh::small( ty + ".four.undistort", dist( V2( b( 0 ), b( 1 ) ), V2( in[ i ]( 0 ), in[ i ]( 1 ) ) ) / l.f, 2e-4 * disp + ( fl ? 2e-5 : 1e-12 ), l.id ); double z = l.K( 2, 2 ) * r.logu( 0.1, 100 ); UM::Vector< T, 3 > p3( T( ss[ i ]( 0 ) * z * l.K( 2, 2 ) ), T( ss[ i ]( 1 ) * z * l.K( 2, 2 ) ), T( z ) ); TV2< T > q = UA::projectWithDistortion( p3, d4, l.K ); vh::small( ty + ".four.project", dist( V2( q( 0 ), q( 1 ) ), want ) / l.f, tm * 20, l.id ); } }
    // lists: any length, result list empty or of any size before
    { std::vector< TV2< T > > a( r.coin( 0.3 ) ? 0 : in.size() ), b( r.coin( 0.3 ) ? 0 : in.size() ); if ( r.coin( 0.2 ) ) a.resize( in.size() + 3 ); CL::distort( c, in, a ); CL::undistort( c, dis, b ); bool okA = a.size() == in.size(), okB = b.size() == in.size(); vh::ok( ty + ".list.size", okA && okB, l.id ); for ( std::size_t i = 0; i < in.size() && okA && okB; i++ ) { vh::ok( ty + ".list.distort", a[ i ]( 0 ) == dis[ i ]( 0 ) && a[ i ]( 1 ) == dis[ i ]( 1 ), l.id ); vh::ok( ty + ".list.undistort", b[ i ]( 0 ) == und[ i ]( 0 ) && b[ i ]( 1 ) == und[ i ]( 1 ), l.id ); } std::vector< TV2< T > > sn, so; for ( auto& s : ss ) sn.push_back( TV2< T >( T( s( 0 ) ), T( s( 1 ) ) ) ); if ( r.coin() ) so.resize( sn.size() ); CL::distort( c.radial_params, c.tangential_params, sn, so ); vh::ok( ty + ".list.size", so.size() == sn.size(), l.id ); for ( std::size_t i = 0; i < sn.size() && so.size() == sn.size(); i++ ) vh::small( ty + ".list.normalised", dist( V2( so[ i ]( 0 ), so[ i ]( 1 ) ), model( l.k, l.p, sn[ i ]( 0 ), sn[ i ]( 1 ) ) ), tm, l.id ); if ( r.coin() ) { std::vector< TV2< T > > x( in ); CL::distort( c, x, x ); bool same = x.size() == dis.size(); for ( std::size_t i = 0; i < x.size() && same; i++ ) same = x[ i ]( 0 ) == dis[ i ]( 0 ) && x[ i ]( 1 ) == dis[ i ]( 1 ); vh::ok( ty + ".list.inplace", same, l.id ); } }
    bool same = true; for ( std::size_t i = 0; i < in.size(); i++ ) same &= in[ i ]( 0 ) == in0[ i ]( 0 ) && in[ i ]( 1 ) == in0[ i ]( 1 ); vh::ok( ty + ".inputs", same, l.id );
}
SECTION( "double", 4000, 120000 ) { correction< double >( r, "lens" ); }
SECTION( "float", 3000, 60000 ) { correction< float >( r, "lensf" ); }
VH_MAIN
