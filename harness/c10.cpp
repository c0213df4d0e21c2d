// C10: linear-algebra building blocks against their definitions
#include "um.h"
#include <utMath/Blas1.h>
#include <utMath/Blas2.h>
#include <utMath/Blas3.h>
#include <utMath/VectorFunctions.h>
#include <utMath/MatrixOperations.h>
#include <utMath/Functors/MatrixFunctors.h>
#include <utMath/Util/cast_assign.h>
#include <utMath/Scalar.h>
#include <list>
#include <deque>
using namespace um; using UM::Vector; using UM::Matrix;
typedef long double LD;
template< class T > static double eps() { return std::numeric_limits< T >::epsilon(); }
template< class T > static T val( Rng& r, double s ) { switch ( r.in( 0, 6 ) ) { case 0: return 0; case 1: return T( r.in( -3, 3 ) ); default: return T( r.uni( -1, 1 ) * s ); } }
template< class T > struct Name; template<> struct Name< double > { static const char* n() { return "double"; } }; template<> struct Name< float > { static const char* n() { return "float"; } };
template< class T, std::size_t N > static Vector< T, N > vec( Rng& r, double s, std::size_t n = N ) { Vector< T, N > v( n ); for ( std::size_t i = 0; i < n; i++ ) v( i ) = val< T >( r, s ); return v; }
template< class T, std::size_t M, std::size_t N > static Matrix< T, M, N > mat( Rng& r, double s, std::size_t m = M, std::size_t n = N ) { Matrix< T, M, N > v( m, n ); for ( std::size_t i = 0; i < m; i++ ) for ( std::size_t j = 0; j < n; j++ ) v( i, j ) = val< T >( r, s ); return v; }
template< class V > static bool sameV( const V& a, const V& b ) { if ( a.size() != b.size() ) return false; for ( std::size_t i = 0; i < a.size(); i++ ) if ( a( i ) != b( i ) ) return false; return true; }
template< class A, class B > static bool sameM( const A& a, const B& b ) { if ( a.size1() != b.size1() || a.size2() != b.size2() ) return false; for ( std::size_t i = 0; i < a.size1(); i++ ) for ( std::size_t j = 0; j < a.size2(); j++ ) if ( a( i, j ) != b( i, j ) ) return false; return true; }

template< class T, std::size_t N > static void blas1( Rng& r, std::size_t n = N )
{
    typedef Vector< T, N > V; double s = genScale( r, 1e-4, 1e4 ); V a = vec< T, N >( r, s, n ), b = vec< T, N >( r, s, n ); const V a0( a ), b0( b ); std::string id = vh::fmt( "%s N=%d%s ", Name< T >::n(), int( n ), N ? "" : " dynamic" ); vh::sample( id );
    LD ip = 0, ab = 0, aa = 0, n1 = 0, dd = 0; for ( std::size_t i = 0; i < n; i++ ) { ip += LD( a( i ) ) * b( i ); ab += std::fabs( LD( a( i ) ) * b( i ) ); aa += LD( a( i ) ) * a( i ); n1 += std::fabs( LD( a( i ) ) ); T d = a( i ) - b( i ); dd += LD( d ) * d; }
    double e = eps< T >() * ( n + 2 ); vh::near_( "inner", UM::inner_product( a, b ), ip, e * ab + 1e-300, id ); vh::near_( "inner.self", UM::InnerProduct()( a ), aa, e * aa + 1e-300, id ); vh::ok( "inner.symmetric", UM::inner_product( a, b ) == UM::inner_product( b, a ), id );
    vh::near_( "norm1", UM::norm_1( a ), n1, e * n1 + 1e-300, id ); vh::near_( "norm2", UM::norm_2( a ), std::sqrt( aa ), e * std::sqrt( aa ) + 1e-300, id ); vh::near_( "norm.functor", UM::Norm_2()( a ), std::sqrt( aa ), e * std::sqrt( aa ) + 1e-300, id ); vh::near_( "norm.functor", UM::Norm_1()( a ), n1, e * n1 + 1e-300, id );
    vh::near_( "distance", UM::distance( a, b ), std::sqrt( dd ), e * std::sqrt( dd ) + 1e-300, id ); vh::near_( "squaredDistance", UM::squared_distance( a, b ), dd, e * dd + 1e-300, id ); vh::near_( "distance.one", UM::Distance< V >()( a ), std::sqrt( aa ), e * std::sqrt( aa ) + 1e-300, id ); vh::near_( "squaredDistance.one", UM::SquaredDistance< V >()( a ), aa, e * aa + 1e-300, id );
    if ( aa > 1e-12 * s * s ) { V u = UM::normalize( a ); LD w = 0; for ( std::size_t i = 0; i < n; i++ ) w = std::max( w, std::fabs( u( i ) - a( i ) / std::sqrt( aa ) ) ); vh::small( "normalize", w, 4 * e, id ); }
    vh::ok( "blas1.const", sameV( a, a0 ) && sameV( b, b0 ), id );
    // ranges
    int k = r.in( 0, 6 ); std::vector< V > A, B; for ( int i = 0; i < k; i++ ) { A.push_back( vec< T, N >( r, s, n ) ); B.push_back( vec< T, N >( r, s, n ) ); A.back()( 0 ) += T( 10 * s ); }
    std::vector< T > d1( k ), d2( k ), d3; std::list< T > d4; UM::distance( A.begin(), A.end(), d1.begin() ); UM::distance( A.begin(), A.end(), B.begin(), d2.begin() ); UM::squared_distance( A.begin(), A.end(), std::back_inserter( d3 ) ); UM::squared_distance( A.begin(), A.end(), B.begin(), std::back_inserter( d4 ) );
    std::vector< V > U( A ); UM::normalize( A.begin(), A.end(), U.begin() ); typename std::list< T >::iterator q = d4.begin(); vh::ok( "range.size", int( d3.size() ) == k && int( d4.size() ) == k, id );
    for ( int i = 0; i < k; i++, ++q ) { vh::ok( "range.distance", d1[ i ] == UM::Distance< V >()( A[ i ] ) && d2[ i ] == UM::distance( A[ i ], B[ i ] ), id ); vh::ok( "range.squaredDistance", d3[ i ] == UM::SquaredDistance< V >()( A[ i ] ) && *q == UM::squared_distance( A[ i ], B[ i ] ), id ); vh::ok( "range.normalize", sameV( U[ i ], UM::normalize( A[ i ] ) ), id ); }
}
template< class T > static void blas1All( Rng& r )
{
    switch ( r.in( 0, 10 ) )
    {
    case 0: blas1< T, 1 >( r ); break; case 1: blas1< T, 2 >( r ); break; case 2: blas1< T, 3 >( r ); break; case 3: blas1< T, 4 >( r ); break; case 4: blas1< T, 5 >( r ); break; case 5: blas1< T, 6 >( r ); break; case 6: blas1< T, 7 >( r ); break; case 7: blas1< T, 8 >( r ); break; case 8: blas1< T, 13 >( r ); break;
    default: blas1< T, 0 >( r, r.in( 1, 40 ) );
    }
}
SECTION( "blas1.double", 6000, 200000 ) { blas1All< double >( r ); }
SECTION( "blas1.float", 4000, 100000 ) { blas1All< float >( r ); }

template< class T, std::size_t M, std::size_t N > static void outer( Rng& r )
{
    double s = genScale( r, 1e-4, 1e4 ); Vector< T, M > a = vec< T, M >( r, s ); Vector< T, N > b = vec< T, N >( r, s ); Vector< T, M > a0( a ); Vector< T, N > b0( b ); std::string id = vh::fmt( "%s %dx%d ", Name< T >::n(), int( M ), int( N ) ); vh::sample( "outer " + id );
    Matrix< T, M, N > m = UM::outer_product( a, b ), m2; UM::outer_product( a, b, m2 ); bool good = true; for ( std::size_t i = 0; i < M; i++ ) for ( std::size_t j = 0; j < N; j++ ) good &= m( i, j ) == a( i ) * b( j ) && m2( i, j ) == m( i, j );
    vh::ok( "outer", good, id ); vh::ok( "outer.const", sameV( a, a0 ) && sameV( b, b0 ), id );
    int k = r.in( 0, 5 ); std::vector< Vector< T, M > > A; std::vector< Vector< T, N > > B; for ( int i = 0; i < k; i++ ) { A.push_back( vec< T, M >( r, s ) ); B.push_back( vec< T, N >( r, s ) ); } std::vector< Matrix< T, M, N > > O( k ); UM::outer_product( A.begin(), A.end(), B.begin(), O.begin() ); std::vector< Matrix< T, M, N > > P; UM::outer_product( A.begin(), A.end(), B.begin(), std::back_inserter( P ) );
    for ( int i = 0; i < k; i++ ) vh::ok( "outer.range", sameM( O[ i ], UM::outer_product( A[ i ], B[ i ] ) ) && int( P.size() ) == k && sameM( P[ i ], O[ i ] ), id );
}
template< class T, std::size_t M, std::size_t N > static void matvec( Rng& r )
{
    double s = genScale( r, 1e-4, 1e4 ); Matrix< T, M, N > a = mat< T, M, N >( r, s ), a0( a ); Vector< T, N > x = vec< T, N >( r, s ), x0( x ); std::string id = vh::fmt( "%s %dx%d ", Name< T >::n(), int( M ), int( N ) ); vh::sample( "matvec " + id );
    Vector< T, M > y; UM::product( a, x, y ); Vector< T, M > z = UM::Product< Matrix< T, M, N >, Vector< T, N >, Vector< T, M > >()( a, x ); for ( std::size_t i = 0; i < M; i++ ) { LD w = 0, q = 0; for ( std::size_t j = 0; j < N; j++ ) { w += LD( a( i, j ) ) * x( j ); q += std::fabs( LD( a( i, j ) ) * x( j ) ); } vh::near_( "matvec", y( i ), w, eps< T >() * ( N + 1 ) * q + 1e-300, id ); vh::ok( "matvec.functor", z( i ) == y( i ), id ); }
    vh::ok( "matvec.const", sameM( a, a0 ) && sameV( x, x0 ), id );
    int k = r.in( 0, 5 ); std::vector< Matrix< T, M, N > > A; std::vector< Vector< T, N > > B; for ( int i = 0; i < k; i++ ) { A.push_back( mat< T, M, N >( r, s ) ); B.push_back( vec< T, N >( r, s ) ); } std::vector< Vector< T, M > > O( k ); UM::product( A.begin(), A.end(), B.begin(), O.begin() ); for ( int i = 0; i < k; i++ ) { Vector< T, M > w; UM::product( A[ i ], B[ i ], w ); vh::ok( "matvec.range", sameV( w, O[ i ] ), id ); }
}
template< class T, std::size_t M, std::size_t N, std::size_t K > static void matmat( Rng& r )
{
    double s = genScale( r, 1e-4, 1e4 ); Matrix< T, M, N > a = mat< T, M, N >( r, s ), a0( a ); Matrix< T, N, K > b = mat< T, N, K >( r, s ), b0( b ); Matrix< T, M, K > c; std::string id = vh::fmt( "%s %dx%dx%d ", Name< T >::n(), int( M ), int( N ), int( K ) ); vh::sample( "matmat " + id );
    UM::product( a, b, c ); Matrix< T, M, K > d = UM::Product< Matrix< T, M, N >, Matrix< T, N, K >, Matrix< T, M, K > >()( a, b ); vh::ok( "matmat.functor", sameM( c, d ), id );
    for ( std::size_t i = 0; i < M; i++ ) for ( std::size_t k = 0; k < K; k++ ) { LD w = 0, q = 0; for ( std::size_t j = 0; j < N; j++ ) { w += LD( a( i, j ) ) * b( j, k ); q += std::fabs( LD( a( i, j ) ) * b( j, k ) ); } vh::near_( "matmat", c( i, k ), w, eps< T >() * ( N + 1 ) * q + 1e-300, id ); }
    vh::ok( "matmat.const", sameM( a, a0 ) && sameM( b, b0 ), id );
    int n = r.in( 0, 4 ); std::vector< Matrix< T, M, N > > A; std::vector< Matrix< T, N, K > > B; for ( int i = 0; i < n; i++ ) { A.push_back( mat< T, M, N >( r, s ) ); B.push_back( mat< T, N, K >( r, s ) ); } std::vector< Matrix< T, M, K > > O( n ); UM::product( A.begin(), A.end(), B.begin(), O.begin() ); for ( int i = 0; i < n; i++ ) { Matrix< T, M, K > w; UM::product( A[ i ], B[ i ], w ); vh::ok( "matmat.range", sameM( w, O[ i ] ), id ); }
}
#define SHAPES( F, T ) switch ( r.in( 0, 11 ) ) { case 0: F< T, 1, 1 >( r ); break; case 1: F< T, 1, 3 >( r ); break; case 2: F< T, 3, 1 >( r ); break; case 3: F< T, 2, 2 >( r ); break; case 4: F< T, 2, 3 >( r ); break; case 5: F< T, 3, 2 >( r ); break; case 6: F< T, 3, 3 >( r ); break; case 7: F< T, 3, 4 >( r ); break; case 8: F< T, 4, 3 >( r ); break; case 9: F< T, 4, 4 >( r ); break; case 10: F< T, 6, 5 >( r ); break; default: F< T, 2, 7 >( r ); }
SECTION( "outer", 3000, 60000 ) { if ( r.coin() ) { SHAPES( outer, double ) } else { SHAPES( outer, float ) } }
SECTION( "matvec", 3000, 60000 ) { if ( r.coin() ) { SHAPES( matvec, double ) } else { SHAPES( matvec, float ) } }
SECTION( "matmat", 3000, 60000 )
{
    switch ( r.in( 0, 9 ) ) { case 0: matmat< double, 1, 1, 1 >( r ); break; case 1: matmat< double, 2, 2, 2 >( r ); break; case 2: matmat< double, 3, 3, 3 >( r ); break; case 3: matmat< double, 4, 4, 4 >( r ); break; case 4: matmat< double, 2, 3, 4 >( r ); break; case 5: matmat< double, 4, 2, 3 >( r ); break; case 6: matmat< float, 3, 4, 2 >( r ); break; case 7: matmat< float, 3, 3, 3 >( r ); break; case 8: matmat< double, 3, 4, 1 >( r ); break; default: matmat< double, 1, 5, 3 >( r ); }
}
SECTION( "cross", 3000, 50000 )
{
    double s = genScale( r, 1e-4, 1e4 ); V3 a = vec< double, 3 >( r, s ), b = vec< double, 3 >( r, s ), c = UM::cross_product( a, b ), d = UM::cross_product( b, a ); vh::sample( str( a ) + str( b ) );
    for ( int i = 0; i < 3; i++ ) { int j = ( i + 1 ) % 3, k = ( i + 2 ) % 3; LD w = LD( a( j ) ) * b( k ) - LD( a( k ) ) * b( j ), q = std::fabs( a( j ) * b( k ) ) + std::fabs( a( k ) * b( j ) ); vh::near_( "cross", c( i ), w, 3e-16 * q + 1e-300, str( a ) + str( b ) ); vh::near_( "cross.anti", d( i ), -c( i ), 3e-16 * q + 1e-300, str( a ) + str( b ) ); }
}
/// reference determinant/inverse in long double
static LD refInv( std::vector< std::vector< LD > > a, std::vector< std::vector< LD > >& inv )
{
    int n = a.size(); inv.assign( n, std::vector< LD >( n, 0 ) ); for ( int i = 0; i < n; i++ ) inv[ i ][ i ] = 1; LD det = 1;
    for ( int c = 0; c < n; c++ ) { int p = c; for ( int i = c + 1; i < n; i++ ) if ( std::fabs( a[ i ][ c ] ) > std::fabs( a[ p ][ c ] ) ) p = i; if ( a[ p ][ c ] == 0 ) return 0; if ( p != c ) { std::swap( a[ p ], a[ c ] ); std::swap( inv[ p ], inv[ c ] ); det = -det; } det *= a[ c ][ c ]; LD d = a[ c ][ c ]; for ( int j = 0; j < n; j++ ) { a[ c ][ j ] /= d; inv[ c ][ j ] /= d; } for ( int i = 0; i < n; i++ ) if ( i != c ) { LD f = a[ i ][ c ]; for ( int j = 0; j < n; j++ ) { a[ i ][ j ] -= f * a[ c ][ j ]; inv[ i ][ j ] -= f * inv[ c ][ j ]; } } }
    return det;
}
template< class MT > static void detInv( const std::string& key, const MT& a, bool functor, double tolDet, double tolInv, bool well, LD det, const std::vector< std::vector< LD > >& inv, const std::string& id, double scaleInv );
template< class T, std::size_t N, bool F > struct FunctorCall { static void run( const Matrix< T, N, N >&, LD, double, bool, const std::vector< std::vector< LD > >&, double, const std::string& ) {} };
template< class T, std::size_t N > struct FunctorCall< T, N, true >
{
    static void run( const Matrix< T, N, N >& a, LD det, double tolDet, bool well, const std::vector< std::vector< LD > >& inv, double tolInv, const std::string& id )
    {
        vh::near_( "functor.determinant", UM::Functors::matrix_determinant()( a ), det, tolDet, id ); if ( !well ) return; Matrix< T, N, N > b = UM::Functors::matrix_inverse()( a ); double w = 0; for ( std::size_t i = 0; i < N; i++ ) for ( std::size_t j = 0; j < N; j++ ) { double e = std::fabs( b( i, j ) - inv[ i ][ j ] ); if ( !( e <= w ) ) w = e; } vh::small( "functor.inverse", w, tolInv, id );
    }
};
template< class T, std::size_t N, bool F > static void square( Rng& r, std::size_t n = N )
{
    double s = genScale( r, 1e-3, 1e3 ); Matrix< T, N, N > a = mat< T, N, N >( r, s, n, n ); int kind = r.in( 0, 6 ); if ( kind == 0 ) { std::vector< int > p; for ( std::size_t i = 0; i < n; i++ ) p.push_back( i ); r.shuffle( p ); for ( std::size_t i = 0; i < n; i++ ) for ( std::size_t j = 0; j < n; j++ ) a( i, j ) = p[ i ] == int( j ) ? T( r.uni( 0.5, 2 ) * r.sgn() ) : T( 0 ); } if ( kind == 1 && n > 1 ) for ( std::size_t j = 0; j < n; j++ ) a( n - 1, j ) = a( 0, j ); if ( kind == 2 ) for ( std::size_t i = 0; i < n; i++ ) a( i, i ) = 0;
    Matrix< T, N, N > a0( a ); std::string id = vh::fmt( "%s %dx%d%s kind %d ", Name< T >::n(), int( n ), int( n ), N ? "" : " dynamic", kind ); vh::sample( id ); for ( std::size_t i = 0; i < n; i++ ) for ( std::size_t j = 0; j < n; j++ ) id += vh::fmt( "%.9g ", double( a( i, j ) ) );
    std::vector< std::vector< LD > > A( n, std::vector< LD >( n ) ), inv; LD had = 1, na = 0, ni = 0; for ( std::size_t i = 0; i < n; i++ ) { LD q = 0; for ( std::size_t j = 0; j < n; j++ ) { A[ i ][ j ] = a( i, j ); q += A[ i ][ j ] * A[ i ][ j ]; } had *= std::sqrt( q ); na += q; } LD det = refInv( A, inv ); if ( det != 0 ) for ( auto& x : inv ) for ( LD y : x ) ni += y * y; double cond = det == 0 ? 1e300 : double( std::sqrt( na * ni ) ); bool well = cond * eps< T >() < 1e-4; LD lu = 1; for ( std::size_t i = 0; i < n; i++ ) lu *= std::sqrt( na );
    double tolDet = double( 20 * n * eps< T >() * std::max( had, lu * LD( 1e-3 ) ) ) + 1e-300; if ( well ) tolDet = double( 20 * n * eps< T >() * cond * std::fabs( det ) ); double tolInv = double( 40 * n * eps< T >() * cond * std::sqrt( ni ) );
    vh::near_( "determinant", UM::determinant( a ), det, tolDet, id ); FunctorCall< T, N, F >::run( a, det, tolDet, well, inv, tolInv, id );
    if ( well ) { Matrix< T, N, N > b = UM::invert_matrix( a ); double w = 0; for ( std::size_t i = 0; i < n; i++ ) for ( std::size_t j = 0; j < n; j++ ) { double e = std::fabs( b( i, j ) - inv[ i ][ j ] ); if ( !( e <= w ) ) w = e; } vh::small( "inverse", w, tolInv, id ); vh::event( "well-conditioned" ); }
    vh::ok( "square.const", sameM( a, a0 ), id );
}
template< class T > static void squareAll( Rng& r ) { switch ( r.in( 0, 8 ) ) { case 0: square< T, 1, false >( r ); break; case 1: square< T, 2, true >( r ); break; case 2: case 3: square< T, 3, true >( r ); break; case 4: square< T, 4, true >( r ); break; case 5: square< T, 5, true >( r ); break; case 6: square< T, 6, true >( r ); break; default: square< T, 0, false >( r, r.in( 1, 12 ) ); } }
SECTION( "square.double", 6000, 100000 ) { squareAll< double >( r ); }
SECTION( "square.float", 3000, 50000 ) { squareAll< float >( r ); }

template< class MT, class NT > static void penrose( const MT& a, const NT& p, double e, const std::string& id, double smin )
{
    DM A = fromM( a ), P = fromM( p ); double na = maxabs( A ), np = maxabs( P ); int k = A.size() + A[ 0 ].size(); vh::ok( "pinv.shape", P.size() == A[ 0 ].size() && P[ 0 ].size() == A.size(), id ); if ( P.size() != A[ 0 ].size() || P[ 0 ].size() != A.size() ) return;
    DM AP = mul( A, P ), PA = mul( P, A ); double t = e * k * k * std::max( 1.0, na / smin ); vh::small( "pinv.APA", maxdiff( mul( AP, A ), A ) / ( na + 1e-300 ), t, id ); vh::small( "pinv.PAP", maxdiff( mul( PA, P ), P ) / ( np + 1e-300 ), t, id ); vh::small( "pinv.APsym", maxdiff( AP, trans( AP ) ), t, id ); vh::small( "pinv.PAsym", maxdiff( PA, trans( PA ) ), t, id );
}
template< class T, std::size_t M, std::size_t N > static void pinv( Rng& r, std::size_t m = M, std::size_t n = N )
{
    double s = genScale( r, 1e-3, 1e3 ); int kind = r.in( 0, 5 ); Matrix< T, M, N > a = mat< T, M, N >( r, s, m, n ); std::string id = vh::fmt( "%s %dx%d%s kind %d ", Name< T >::n(), int( m ), int( n ), M ? "" : " dynamic", kind ); vh::sample( id );
    std::size_t k = std::min( m, n );
    if ( kind == 0 && k > 1 ) { int rank = r.in( 1, int( k ) - 1 ); DM B = dm( m, rank ), C = dm( rank, n ); for ( auto& x : B ) for ( double& y : x ) y = r.in( -3, 3 ); for ( auto& x : C ) for ( double& y : x ) y = r.in( -3, 3 ); B[ 0 ][ 0 ] = 1; C[ 0 ][ 0 ] = 1; DM D = mul( B, C ); for ( std::size_t i = 0; i < m; i++ ) for ( std::size_t j = 0; j < n; j++ ) a( i, j ) = T( D[ i ][ j ] ); }
    else if ( kind == 1 ) { for ( std::size_t i = 0; i < m; i++ ) for ( std::size_t j = 0; j < n; j++ ) a( i, j ) = 0; vh::ok( "pinv.zero", sameM( UM::pseudoInvert_matrix( a ), Matrix< T, 0, 0 >( boost::numeric::ublas::zero_matrix< T >( n, m ) ) ), id ); return; }
    else for ( std::size_t i = 0; i < k; i++ ) a( i, i ) += T( r.sgn() * s * 1.5 );
    for ( std::size_t i = 0; i < m; i++ ) for ( std::size_t j = 0; j < n; j++ ) id += vh::fmt( "%.9g ", double( a( i, j ) ) );
    DM A = fromM( a ); std::vector< double > ev = symEig( m < n ? mul( A, trans( A ) ) : mul( trans( A ), A ) ); double big = ev.back(), smallest = big; for ( double x : ev ) if ( x > 1e-12 * big ) smallest = std::min( smallest, x ); if ( std::sqrt( big / smallest ) > 3e3 ) { vh::event( "skipped-ill-conditioned" ); return; } if ( kind != 0 && ev[ 0 ] < 1e-6 * big ) { vh::event( "skipped-ill-conditioned" ); return; }
    Matrix< T, M, N > a0( a ); Matrix< T, N, M > p = UM::pseudoInvert_matrix( a ); vh::ok( "pinv.const", sameM( a, a0 ), id ); vh::event( kind == 0 ? "rank-deficient" : "full-rank" ); penrose( a, p, 10 * eps< T >(), id, std::sqrt( smallest ) );
}
SECTION( "pseudoInverse", 5000, 80000 )
{
    switch ( r.in( 0, 9 ) ) { case 0: pinv< double, 3, 3 >( r ); break; case 1: pinv< double, 3, 4 >( r ); break; case 2: pinv< double, 4, 3 >( r ); break; case 3: pinv< double, 2, 5 >( r ); break; case 4: pinv< double, 6, 2 >( r ); break; case 5: pinv< float, 4, 3 >( r ); break; case 6: pinv< double, 1, 3 >( r ); break; case 7: pinv< double, 3, 1 >( r ); break; default: pinv< double, 0, 0 >( r, r.in( 1, 9 ), r.in( 1, 9 ) ); }
}
SECTION( "containers", 3000, 60000 )
{
    // construction, casts, comparison, ordering, printing of vectors and matrices
    double buf[ 12 ]; for ( double& x : buf ) x = val< double >( r, 100 ); M34 m( buf ); bool good = true; for ( int i = 0; i < 3; i++ ) for ( int j = 0; j < 4; j++ ) good &= m( i, j ) == buf[ 4 * i + j ] && m.content()[ i + 3 * j ] == buf[ 4 * i + j ]; vh::ok( "matrix.fromArray", good ); V4 v( buf ); vh::ok( "vector.fromArray", v( 0 ) == buf[ 0 ] && v( 3 ) == buf[ 3 ] && v.content()[ 2 ] == buf[ 2 ] && v.size() == 4 ); vh::sample( vh::fmt( "%g", buf[ 0 ] ) );
    V4 w( v ); vh::ok( "vector.equal", w == v ); int k = r.in( 0, 3 ); w( k ) += 1; vh::ok( "vector.unequal", !( w == v ) ); vh::ok( "vector.less", ( (const V4&)v < w ) && !( (const V4&)w < v ) && !( (const V4&)v < v ), vh::fmt( "%d", k ) ); M34 n( m ); vh::ok( "matrix.equal", n == m ); n( r.in( 0, 2 ), r.in( 0, 3 ) ) += 1; vh::ok( "matrix.unequal", !( n == m ) );
    V4 z = V4::zeros(); vh::ok( "zeros", z( 0 ) == 0 && z( 1 ) == 0 && z( 2 ) == 0 && z( 3 ) == 0 ); M44 I = M44::identity(), Z = M44::zeros(); good = true; for ( int i = 0; i < 4; i++ ) for ( int j = 0; j < 4; j++ ) good &= I( i, j ) == ( i == j ) && Z( i, j ) == 0; vh::ok( "identity", good ); int a = r.in( 1, 6 ), b = r.in( 1, 6 ); Matrix< double > D = Matrix< double >::scalar( a, b, 2.5 ), E = Matrix< double >::zeros( a, b ), J = Matrix< double >::identity( a ); good = int( D.size1() ) == a && int( D.size2() ) == b && int( J.size1() ) == a && int( J.size2() ) == a; for ( int i = 0; i < a; i++ ) for ( int j = 0; j < b; j++ ) good &= D( i, j ) == 2.5 && E( i, j ) == 0; for ( int i = 0; i < a; i++ ) for ( int j = 0; j < a; j++ ) good &= J( i, j ) == ( i == j ); vh::ok( "dynamic.fill", good ); Vector< double > dz = Vector< double >::zeros( a ); good = int( dz.size() ) == a; for ( int i = 0; i < a; i++ ) good &= dz( i ) == 0; vh::ok( "dynamic.zeros", good );
    Matrix< float, 3, 4 > f; UM::Util::matrix_cast_assign( f, m ); good = true; for ( int i = 0; i < 3; i++ ) for ( int j = 0; j < 4; j++ ) good &= f( i, j ) == float( m( i, j ) ); vh::ok( "cast.matrix", good ); Vector< float, 4 > g; UM::Util::vector_cast_assign( g, v ); vh::ok( "cast.vector", g( 0 ) == float( v( 0 ) ) && g( 1 ) == float( v( 1 ) ) && g( 2 ) == float( v( 2 ) ) && g( 3 ) == float( v( 3 ) ) ); Vector< int, 4 > gi; UM::Util::vector_cast_assign( gi, v ); vh::ok( "cast.int", gi( 1 ) == int( v( 1 ) ) );
    double t = r.uni( -0.5, 1.5 ); V4 q = UM::linearInterpolate( v, w, t ); for ( int i = 0; i < 4; i++ ) vh::near_( "interpolate", q( i ), v( i ) + t * ( w( i ) - v( i ) ), 1e-13 * ( std::fabs( v( i ) ) + std::fabs( w( i ) ) + 1 ) );
    UM::Pose p = genPose( r, 3 ); M44 h( p ), h2( p.rotation(), p.translation() ); M34 h3( p ); vh::ok( "matrix.fromPose", sameM( h, h2 ) ); R3 R = refMatrix( p.rotation() ); for ( int i = 0; i < 3; i++ ) { for ( int j = 0; j < 3; j++ ) { vh::near_( "matrix.rotation", h( i, j ), R.m[ i ][ j ], 1e-14 ); vh::ok( "matrix.rotation34", h3( i, j ) == h( i, j ) ); } vh::ok( "matrix.translation", h( i, 3 ) == p.translation()( i ) && h3( i, 3 ) == h( i, 3 ) && h( 3, i ) == 0 ); } vh::ok( "matrix.corner", h( 3, 3 ) == 1 );
    M44 lh( h ); UM::leftHandToRightHandMatrix( lh ); good = true; for ( int i = 0; i < 4; i++ ) for ( int j = 0; j < 4; j++ ) good &= lh( i, j ) == h( i, j ) * ( i == 2 ? -1 : 1 ) * ( j == 2 ? -1 : 1 ); vh::ok( "handedness", good ); UM::leftHandToRightHandMatrix( lh ); vh::ok( "handedness.twice", sameM( lh, h ) );
    UM::Scalar< double > s1( buf[ 0 ] ), s2( buf[ 1 ] ); vh::ok( "scalar", double( s1 ) == buf[ 0 ] && s1.m_value == buf[ 0 ] && ( s1 < s2 ) == ( buf[ 0 ] < buf[ 1 ] ) && double( UM::Scalar< double >() ) == 0 );
    std::ostringstream o; o << v; std::istringstream in( o.str() ); std::string br; double x; in >> br; good = br == "["; for ( int i = 0; i < 4; i++ ) { in >> x; good &= bool( in ) && std::fabs( x - v( i ) ) <= 1e-5 * std::fabs( v( i ) ); } in >> br; vh::ok( "print.vector", good && br == "]", o.str() ); std::ostringstream om; om << m; std::istringstream im( om.str() ); good = true; for ( int i = 0; i < 3; i++ ) { im >> br; good &= br == "["; for ( int j = 0; j < 4; j++ ) { im >> x; good &= bool( im ) && std::fabs( x - m( i, j ) ) <= 1e-5 * std::fabs( m( i, j ) ); } im >> br; good &= br == "]"; } vh::ok( "print.matrix", good, om.str() );
}
VH_MAIN
