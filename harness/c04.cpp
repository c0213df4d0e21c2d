// C04: uncertainty propagates to first order and stays a covariance
#include "um.h"
#include <boost/numeric/ublas/io.hpp>
#include <utMath/ErrorPose.h>
#include <utMath/ErrorVector.h>
#include <utMath/Stochastic/CovarianceTransform.h>
#include <utMath/Stochastic/BackwardPropagation.h>
using namespace um;
using UM::Quaternion; using UM::Pose; using UM::ErrorPose; using UM::ErrorVector;
typedef UM::Matrix< double, 6, 6 > M66;
namespace ub = boost::numeric::ublas;

/// random positive semi-definite matrix; sometimes singular, diagonal or of very different scales
template< int N > static UM::Matrix< double, N, N > genCov( Rng& r, double scale )
{
    UM::Matrix< double, N, N > c; int kind = r.in( 0, 4 ), rank = kind == 1 ? r.in( 1, N ) : N;
    DM a = dm( N, rank ); for ( auto& x : a ) for ( double& y : x ) y = r.uni( -1, 1 );
    std::vector< double > s( N, 1.0 ); if ( kind == 2 ) for ( double& x : s ) x = r.logu( 1e-3, 1 );
    for ( int i = 0; i < N; i++ ) for ( int j = 0; j < N; j++ ) { double v = 0; for ( int k = 0; k < rank; k++ ) v += a[ i ][ k ] * a[ j ][ k ]; c( i, j ) = kind == 3 ? ( i == j ? r.logu( 1e-2, 1 ) * scale : 0 ) : kind == 4 ? 0 : v * scale * s[ i ] * s[ j ]; }
    if ( kind == 4 ) { int k = r.in( 0, N - 1 ); c( k, k ) = scale; }
    return c;
}
/// the error model: q_true = q * (e, sqrt(1-e^2)), t_true = t + d
static Pose perturb( const Pose& p, const double* e )
{
    double w = std::sqrt( 1 - e[ 3 ] * e[ 3 ] - e[ 4 ] * e[ 4 ] - e[ 5 ] * e[ 5 ] );
    return Pose( Quaternion( p.rotation() * Quaternion( e[ 3 ], e[ 4 ], e[ 5 ], w ) ), V3( p.translation()( 0 ) + e[ 0 ], p.translation()( 1 ) + e[ 1 ], p.translation()( 2 ) + e[ 2 ] ) );
}
static std::vector< double > local( const Pose& ref, const Pose& p )
{
    Quaternion d( ~ref.rotation() * p.rotation() ); double s = d.w() < 0 ? -1 : 1; V3 t = p.translation() - ref.translation();
    return std::vector< double >{ t( 0 ), t( 1 ), t( 2 ), s * d.x(), s * d.y(), s * d.z() };
}
/// reference composition in plain arithmetic
static Quaternion refMul( const Quaternion& a, const Quaternion& b )
{
    return Quaternion( a.w() * b.x() + a.x() * b.w() + a.y() * b.z() - a.z() * b.y(), a.w() * b.y() - a.x() * b.z() + a.y() * b.w() + a.z() * b.x(), a.w() * b.z() + a.x() * b.y() - a.y() * b.x() + a.z() * b.w(), a.w() * b.w() - a.x() * b.x() - a.y() * b.y() - a.z() * b.z() );
}
static Pose refCompose( const Pose& a, const Pose& b ) { return Pose( refMul( a.rotation(), b.rotation() ), act( a, b.translation() ) ); }
static Pose refInv( const Pose& a ) { Quaternion q( -a.rotation().x(), -a.rotation().y(), -a.rotation().z(), a.rotation().w() ); A3 v = refMatrix( q ) * toA3( a.translation() ); return Pose( q, V3( -v[ 0 ], -v[ 1 ], -v[ 2 ] ) ); }

template< class F > static DM numJac( F f, int nOut, int nIn = 6 )
{
    DM J = dm( nOut, nIn ); const double h = 1e-4;
    for ( int k = 0; k < nIn; k++ )
    {
        std::vector< double > e( nIn, 0.0 ); std::vector< double > v[ 4 ]; static const double st[ 4 ] = { -2, -1, 1, 2 };
        for ( int i = 0; i < 4; i++ ) { e[ k ] = st[ i ] * h; v[ i ] = f( e.data() ); }
        for ( int i = 0; i < nOut; i++ ) J[ i ][ k ] = ( v[ 0 ][ i ] - 8 * v[ 1 ][ i ] + 8 * v[ 2 ][ i ] - v[ 3 ][ i ] ) / ( 12 * h );
    }
    return J;
}
static DM prop( const DM& J, const DM& C ) { return mul( mul( J, C ), trans( J ) ); }
template< class M > static void covOk( const std::string& key, const M& got, const DM& want, double scale, const std::string& m, double tol = 1e-8 )
{
    DM g = fromM( got ); double s = scale > 0 ? scale : 1;
    vh::small( key, maxdiff( g, want ) / s, tol, m );
    vh::small( key + ".symmetric", maxdiff( g, trans( g ) ) / s, 1e-12, m );
    DM sy = g; for ( std::size_t i = 0; i < g.size(); i++ ) for ( std::size_t j = 0; j < g.size(); j++ ) sy[ i ][ j ] = ( g[ i ][ j ] + g[ j ][ i ] ) / 2 / s;
    double lo = symEig( sy )[ 0 ]; vh::ok( key + ".psd", lo > -1e-10, vh::fmt( "smallest eigenvalue %g ", lo ) + m );
}
static double scaleOf( const DM& J, const DM& C ) { double j = maxabs( J ); return std::max( j, 1.0 ) * std::max( j, 1.0 ) * maxabs( C ) + 1e-300; }

SECTION( "pose", 6000, 100000 )
{
    double cs = r.logu( 1e-8, 1e-1 ); Pose pa( r.coin( 0.3 ) ? genQuat( r ) : uniQuat( r ), genVec( r, r.logu( 0.1, 10 ) ) ), pb( r.coin( 0.3 ) ? genQuat( r ) : uniQuat( r ), genVec( r, r.logu( 0.1, 10 ) ) );
    M66 ca = genCov< 6 >( r, cs ), cb = genCov< 6 >( r, cs * r.logu( 0.1, 10 ) ); ErrorPose a( pa, ca ), b( pb.rotation(), pb.translation(), cb );
    DM A = fromM( ca ), B = fromM( cb ); std::string m = str( pa ) + " " + str( pb ); vh::sample( m );
    vh::ok( "keepsCovariance", maxdiff( fromM( a.covariance() ), A ) == 0 && maxdiff( fromM( b.covariance() ), B ) == 0, m );
    auto mean = [ & ]( const char* k, const Pose& got, const Pose& want ) { vh::small( k, rotDist( got.rotation(), want.rotation() ) + dist( got.translation(), want.translation() ) / ( 1 + norm( pa.translation() ) + norm( pb.translation() ) ), 1e-13, m ); };
    // inverse
    { ErrorPose i = ~a; Pose w = refInv( pa ); mean( "inverse.mean", i, w ); DM J = numJac( [ & ]( const double* e ) { return local( w, refInv( perturb( pa, e ) ) ); }, 6 ); covOk( "inverse", i.covariance(), prop( J, A ), scaleOf( J, A ), m ); }
    Pose ab = refCompose( pa, pb );
    DM Ja = numJac( [ & ]( const double* e ) { return local( ab, refCompose( perturb( pa, e ), pb ) ); }, 6 ), Jb = numJac( [ & ]( const double* e ) { return local( ab, refCompose( pa, perturb( pb, e ) ) ); }, 6 );
    { ErrorPose p = a * b; mean( "product.mean", p, ab ); covOk( "product", p.covariance(), add( prop( Ja, A ), prop( Jb, B ) ), scaleOf( Ja, A ) + scaleOf( Jb, B ), m ); }
    { ErrorPose p = a * pb; mean( "productPose.mean", p, ab ); covOk( "productPose", p.covariance(), prop( Ja, A ), scaleOf( Ja, A ), m ); }
    { ErrorPose p = pa * b; mean( "posePproduct.mean", p, ab ); covOk( "poseProduct", p.covariance(), prop( Jb, B ), scaleOf( Jb, B ), m ); }
    { // a^-1 b
        Pose w = refCompose( refInv( pa ), pb ); DM J1 = numJac( [ & ]( const double* e ) { return local( w, refCompose( refInv( perturb( pa, e ) ), pb ) ); }, 6 ), J2 = numJac( [ & ]( const double* e ) { return local( w, refCompose( refInv( pa ), perturb( pb, e ) ) ); }, 6 );
        ErrorPose p = invertMultiply( a, b ); mean( "invertMultiply.mean", p, w ); covOk( "invertMultiply", p.covariance(), add( prop( J1, A ), prop( J2, B ) ), scaleOf( J1, A ) + scaleOf( J2, B ), m );
    }
    { // pose times point and uncertain point
        V3 x = genVec( r, r.logu( 0.1, 10 ) ); V3 w = act( pa, x ); DM J = numJac( [ & ]( const double* e ) { V3 y = act( perturb( pa, e ), x ); return std::vector< double >{ y( 0 ), y( 1 ), y( 2 ) }; }, 3 );
        ErrorVector< double, 3 > v = a * x; vh::small( "point.mean", dist( v.value, w ) / ( 1 + norm( w ) + norm( x ) + norm( pa.translation() ) ), 1e-13, m ); covOk( "point", v.covariance, prop( J, A ), scaleOf( J, A ), m );
        UM::Matrix< double, 3, 3 > cx = genCov< 3 >( r, cs ); ErrorVector< double, 3 > ex( x, cx ), v2 = a * ex; DM R = fromM( UM::Matrix< double, 3, 3 >( pa.rotation() ) );
        vh::small( "errorPoint.mean", dist( v2.value, w ) / ( 1 + norm( w ) + norm( x ) + norm( pa.translation() ) ), 1e-13, m );
        covOk( "errorPoint", v2.covariance, add( prop( J, A ), prop( R, fromM( cx ) ) ), scaleOf( J, A ) + maxabs( fromM( cx ) ), m );
        double tr = 0; for ( int i = 0; i < 3; i++ ) tr += v2.covariance( i, i ); vh::small( "rms", ( v2.getRMS() - std::sqrt( tr ) ) / std::sqrt( tr + 1e-300 ), 1e-12, m );
    }
    { // scaling of the input covariance scales the output
        double f = r.logu( 1e-3, 1e3 ); ErrorPose a2( pa, M66( ca * f ) ), b2( pb, M66( cb * f ) ); DM p = fromM( ( a * b ).covariance() ), q = fromM( ( a2 * b2 ).covariance() ); for ( auto& x : p ) for ( double& y : x ) y *= f;
        vh::small( "linear", maxdiff( p, q ) / ( f * ( scaleOf( Ja, A ) + scaleOf( Jb, B ) ) ), 1e-12, m );
    }
    { // composition with the exact inverse pair: product of three is associative in covariance too
        ErrorPose c( uniPose( r ), genCov< 6 >( r, cs ) ); DM l = fromM( ( ( a * b ) * c ).covariance() ), q = fromM( ( a * ( b * c ) ).covariance() ); vh::small( "assoc", maxdiff( l, q ) / ( maxabs( l ) + maxabs( q ) + 1e-300 ), 1e-10, m );
    }
}
SECTION( "additive", 6000, 80000 )
{
    double cs = r.logu( 1e-8, 1e-2 ); Pose p( r.coin( 0.3 ) ? genQuat( r ) : uniQuat( r ), genVec( r, r.logu( 0.1, 10 ) ) ); M66 c = genCov< 6 >( r, cs ); ErrorPose a( p, c ); DM C = fromM( c ); std::string m = str( p ); vh::sample( m );
    ErrorVector< double, 7 > v; a.toAdditiveErrorVector( v ); UM::Vector< double, 7 > ref; p.toVector( ref ); bool same = true; for ( int i = 0; i < 7; i++ ) same = same && v.value( i ) == ref( i ); vh::ok( "additive.value", same, m );
    DM J = numJac( [ & ]( const double* e ) { UM::Vector< double, 7 > x; perturb( p, e ).toVector( x ); return std::vector< double >( x.begin(), x.end() ); }, 7 );
    // the length of the quaternion is not constrained in the 7-vector: compare in the tangent space
    DM P = dm( 7, 7 ); double q[ 4 ] = { p.rotation().x(), p.rotation().y(), p.rotation().z(), p.rotation().w() }; for ( int i = 0; i < 7; i++ ) for ( int j = 0; j < 7; j++ ) P[ i ][ j ] = ( i == j ) - ( i >= 3 && j >= 3 ? q[ i - 3 ] * q[ j - 3 ] : 0 );
    DM got = prop( P, fromM( v.covariance ) ), want = prop( P, prop( J, C ) ); vh::small( "additive.cov", maxdiff( got, want ) / ( maxabs( C ) + 1e-300 ), 1e-8, m );
    DM g = fromM( v.covariance ); vh::small( "additive.symmetric", maxdiff( g, trans( g ) ) / maxabs( C ), 1e-12, m ); vh::ok( "additive.psd", symEig( g )[ 0 ] > -1e-10 * maxabs( C ), m );
    ErrorPose back = ErrorPose::fromAdditiveErrorVector( v ); vh::small( "additive.back", maxdiff( fromM( back.covariance() ), C ) / maxabs( C ), 1e-12, m );
    vh::small( "additive.backMean", rotDist( back.rotation(), p.rotation() ) + dist( back.translation(), p.translation() ), 1e-14, m );
    // covariance of an arbitrary 7-vector estimate, into the pose's 6 parameters
    UM::Matrix< double, 7, 7 > c7 = genCov< 7 >( r, cs ); ErrorPose e7 = ErrorPose::fromAdditiveErrorVector( ErrorVector< double, 7 >( ref, c7 ) );
    DM J7 = numJac( [ & ]( const double* e ) { UM::Vector< double, 7 > x( ref ); for ( int i = 0; i < 7; i++ ) x( i ) += e[ i ]; Quaternion qq( x( 3 ), x( 4 ), x( 5 ), x( 6 ) ); qq.normalize(); return local( p, Pose( qq, V3( x( 0 ), x( 1 ), x( 2 ) ) ) ); }, 6, 7 );
    vh::small( "additive.from7", maxdiff( fromM( e7.covariance() ), prop( J7, fromM( c7 ) ) ) / maxabs( fromM( c7 ) ), 1e-8, m );
}
SECTION( "interpolate", 3000, 40000 )
{
    double cs = r.logu( 1e-8, 1e-2 ); Quaternion q = genQuat( r ); bool sameRot = r.coin(); Pose pa( q, genVec( r ) ), pb( sameRot ? q : genQuat( r ), genVec( r ) ); M66 ca = genCov< 6 >( r, cs ), cb = genCov< 6 >( r, cs ); double t = r.coin( 0.2 ) ? 0 : r.coin( 0.2 ) ? 1 : r.u01();
    ErrorPose p = linearInterpolate( ErrorPose( pa, ca ), ErrorPose( pb, cb ), t ); Pose w = linearInterpolate( pa, pb, t ); vh::ok( "interp.mean", p.rotation() == w.rotation() && dist( p.translation(), w.translation() ) == 0 );
    DM got = fromM( p.covariance() ), want = dm( 6, 6 ); for ( int i = 0; i < 6; i++ ) for ( int j = 0; j < 6; j++ ) want[ i ][ j ] = ( 1 - t ) * ( 1 - t ) * ca( i, j ) + t * t * cb( i, j );
    int n = sameRot ? 6 : 3; double d = 0; for ( int i = 0; i < n; i++ ) for ( int j = 0; j < n; j++ ) d = std::max( d, std::fabs( got[ i ][ j ] - want[ i ][ j ] ) ); vh::small( "interp.cov", d / ( maxabs( fromM( ca ) ) + maxabs( fromM( cb ) ) ), 1e-13 );
    vh::ok( "interp.psd", symEig( got )[ 0 ] > -1e-11 * cs * 20 );
}

// --- generic differentiable maps: f_i(x) = sum_j a_ij x_j + b_ij x_j x_{j+1}
struct Poly
{
    int m, n; DM a, b;
    Poly( Rng& r, int m_, int n_ ) : m( m_ ), n( n_ ), a( dm( m_, n_ ) ), b( dm( m_, n_ ) ) { for ( int i = 0; i < m; i++ ) for ( int j = 0; j < n; j++ ) { a[ i ][ j ] = r.uni( -2, 2 ); b[ i ][ j ] = r.uni( -1, 1 ); } }
    unsigned size() const { return m; }
    template< class V > double val( int i, const V& x ) const { double s = 0; for ( int j = 0; j < n; j++ ) s += a[ i ][ j ] * x( j ) + b[ i ][ j ] * x( j ) * x( ( j + 1 ) % n ); return s; }
    template< class V > double der( int i, int j, const V& x ) const { int p = ( j + n - 1 ) % n; return a[ i ][ j ] + b[ i ][ j ] * x( ( j + 1 ) % n ) + b[ i ][ p ] * x( p ); }
    template< class V1, class V2 > void evaluate( V1& res, const V2& x ) const { for ( int i = 0; i < m; i++ ) res( i ) = val( i, x ); }
    template< class V2, class M > void jacobian( const V2& x, M& J ) const { for ( int i = 0; i < m; i++ ) for ( int j = 0; j < n; j++ ) J( i, j ) = der( i, j, x ); }
    template< class V1, class V2, class M > void evaluateWithJacobian( V1& res, const V2& x, M& J ) const { evaluate( res, x ); jacobian( x, J ); }
};
template< class V > static DM jac( const Poly& f, const V& x ) { DM J = dm( f.m, f.n ); for ( int i = 0; i < f.m; i++ ) for ( int j = 0; j < f.n; j++ ) J[ i ][ j ] = f.der( i, j, x ); return J; }
struct Bin
{
    Poly f, g; Bin( const Poly& a, const Poly& b ) : f( a ), g( b ) {}
    template< class V1, class V2, class V3_, class M1, class M2 > void evaluateWithJacobian( V1& res, const V2& x, const V3_& y, M1& J1, M2& J2 ) const { for ( int i = 0; i < f.m; i++ ) res( i ) = f.val( i, x ) + g.val( i, y ); f.jacobian( x, J1 ); g.jacobian( y, J2 ); }
};
template< int M, int N > static void unary( Rng& r )
{
    Poly f( r, M, N ); ErrorVector< double, N > in; for ( int i = 0; i < N; i++ ) in.value( i ) = r.uni( -2, 2 ); in.covariance = genCov< N >( r, 1 ); DM J = jac( f, in.value ), C = fromM( in.covariance ); std::string m = vh::fmt( "%d from %d", M, N ); vh::sample( m );
    ErrorVector< double, M > o = UM::Stochastic::transformWithCovariance< M, N >( f, in ); bool ok = true; for ( int i = 0; i < M; i++ ) ok = ok && std::fabs( o.value( i ) - f.val( i, in.value ) ) < 1e-12; vh::ok( "transform.mean", ok, m ); covOk( "transform", o.covariance, prop( J, C ), scaleOf( J, C ), m, 1e-12 );
    UM::Vector< double > dv( M ); UM::Matrix< double > dc( M, M ); UM::Vector< double > iv( in.value ); UM::Matrix< double > ic( in.covariance ); UM::Stochastic::transformWithCovariance( f, dv, dc, iv, ic ); covOk( "transformDyn", dc, prop( J, C ), scaleOf( J, C ), m, 1e-12 );
    vh::ok( "transform.inputKept", maxdiff( fromM( ic ), C ) == 0, m );
    Poly g( r, M, 2 ); ErrorVector< double, 2 > in2; in2.value( 0 ) = r.uni( -2, 2 ); in2.value( 1 ) = r.uni( -2, 2 ); in2.covariance = genCov< 2 >( r, 1 ); DM J2 = jac( g, in2.value ), C2 = fromM( in2.covariance );
    ErrorVector< double, M > o2 = UM::Stochastic::binarytransformWithCovariance< M, N, 2 >( Bin( f, g ), in, in2 ); covOk( "binary", o2.covariance, add( prop( J, C ), prop( J2, C2 ) ), scaleOf( J, C ) + scaleOf( J2, C2 ), m, 1e-12 );
    ok = true; for ( int i = 0; i < M; i++ ) ok = ok && std::fabs( o2.value( i ) - f.val( i, in.value ) - g.val( i, in2.value ) ) < 1e-12; vh::ok( "binary.mean", ok, m );
}
SECTION( "transform", 3000, 40000 )
{
    switch ( r.in( 0, 5 ) ) { case 0: unary< 1, 1 >( r ); break; case 1: unary< 2, 3 >( r ); break; case 2: unary< 3, 2 >( r ); break; case 3: unary< 6, 7 >( r ); break; case 4: unary< 7, 4 >( r ); break; default: unary< 4, 4 >( r ); }
}
SECTION( "range", 3000, 40000 )
{   // transforming a range inside a state vector updates all cross covariances
    const int N = 8; int a = r.in( 0, N - 1 ), b = r.in( a + 1, N ), n = b - a; int oa = a, ob = b, no; if ( r.coin( 0.4 ) ) { oa = r.in( 0, N - 1 ); ob = r.in( oa + 1, N ); } no = ob - oa;
    Poly f( r, no, n ); ErrorVector< double, N > v; for ( int i = 0; i < N; i++ ) v.value( i ) = r.uni( -2, 2 ); v.covariance = genCov< N >( r, 1 ); DM C = fromM( v.covariance ); UM::Vector< double, N > old( v.value );
    UM::Vector< double > sub( n ); for ( int i = 0; i < n; i++ ) sub( i ) = old( a + i ); DM j = jac( f, sub ), J = dm( N, N ); for ( int i = 0; i < N; i++ ) J[ i ][ i ] = 1; for ( int i = 0; i < no; i++ ) { for ( int k = 0; k < N; k++ ) J[ oa + i ][ k ] = 0; for ( int k = 0; k < n; k++ ) J[ oa + i ][ a + k ] = j[ i ][ k ]; }
    std::string m = vh::fmt( "out [%d,%d) in [%d,%d)", oa, ob, a, b ); vh::sample( m );
    UM::Stochastic::transformRangeInternalWithCovariance< N >( f, v, oa, ob, a, b );
    for ( int i = 0; i < N; i++ ) { double w = i >= oa && i < ob ? f.val( i - oa, sub ) : old( i ); vh::near_( "range.mean", v.value( i ), w, 1e-12, m ); }
    covOk( "range", v.covariance, prop( J, C ), scaleOf( J, C ), m, 1e-12 );
}
SECTION( "backward", 2000, 30000 )
{   // overdetermined measurement: covariance of the parameters is (J^T C^-1 J)^-1
    int n = r.in( 1, 6 ), mm = r.in( n, n + 8 ); Poly f( r, mm, n ); UM::Vector< double > x( n ); for ( int i = 0; i < n; i++ ) x( i ) = r.uni( -2, 2 ); DM J = jac( f, x ); std::string m = vh::fmt( "%d measurements %d parameters", mm, n ); vh::sample( m );
    DM JtJ = mul( trans( J ), J ); std::vector< double > ev = symEig( JtJ ); if ( ev[ 0 ] < 1e-3 * ev.back() ) return;
    DM inv; ginv( JtJ, inv ); double s = r.logu( 1e-6, 10 ); DM want = inv; for ( auto& a : want ) for ( double& b : a ) b *= s;
    UM::Matrix< double > res( n, n ); UM::Stochastic::backwardPropagationIdentity( res, s, f, x ); covOk( "backIdentity", res, want, maxabs( want ), m, 1e-8 );
    UM::Matrix< double > J2( mm, n ); f.jacobian( x, J2 ); UM::Matrix< double > res1( n, n ); UM::Stochastic::backwardPropagationIdentity( res1, s, J2 ); covOk( "backIdentityJ", res1, want, maxabs( want ), m, 1e-8 );
    UM::Vector< double > d( mm ); for ( int i = 0; i < mm; i++ ) d( i ) = r.logu( 0.1, 10 ); DM W = dm( mm, mm ); for ( int i = 0; i < mm; i++ ) W[ i ][ i ] = 1 / d( i ); DM JWJ = mul( trans( J ), mul( W, J ) ); ginv( JWJ, want );
    UM::Matrix< double > res2( n, n ); UM::Stochastic::backwardPropagationDiagonal( res2, d, f, x ); covOk( "backDiagonal", res2, want, maxabs( want ), m, 1e-7 );
    // full covariance
    DM a = dm( mm, mm ); for ( auto& q : a ) for ( double& y : q ) y = r.uni( -1, 1 ); DM C = mul( a, trans( a ) ); for ( int i = 0; i < mm; i++ ) C[ i ][ i ] += 0.5; DM Ci; ginv( C, Ci ); ginv( mul( trans( J ), mul( Ci, J ) ), want );
    UM::Matrix< double > in( mm, mm ); for ( int i = 0; i < mm; i++ ) for ( int k = 0; k < mm; k++ ) in( i, k ) = ( C[ i ][ k ] + C[ k ][ i ] ) / 2; UM::Matrix< double > res3( n, n ); UM::Stochastic::backwardPropagation( res3, in, f, x ); covOk( "backFull", res3, want, maxabs( want ), m, 1e-7 );
}
VH_MAIN
