// C11: least-squares optimisers never worsen and converge
#include "um.h"
#include <utMath/Optimization/LevenbergMarquardt.h>
#include <utMath/Optimization/GaussNewton.h>
#include <utMath/Optimization/TukeyWeightFunction.h>
using namespace um; namespace UO = Ubitrack::Math::Optimization; namespace ublas = boost::numeric::ublas;
typedef UM::Vector< double > VD;

/// value and Jacobian as plain functions of plain vectors
struct Model { int m, n; std::function< void( const std::vector< double >&, std::vector< double >& ) > f; std::function< void( const std::vector< double >&, DM& ) > j; std::string name; };
static double sq( double x ) { return x * x; }
static Model linear( Rng& r, int m, int n, DM& A, std::vector< double >& b, double dom = 3 )
{
    A = dm( m, n ); b.assign( m, 0 ); for ( auto& x : A ) for ( double& y : x ) y = r.coin( 0.15 ) ? 0 : r.uni( -2, 2 ); for ( int i = 0; i < n; i++ ) A[ i ][ i ] += r.sgn() * dom; for ( double& y : b ) y = r.uni( -5, 5 );
    Model M; M.m = m; M.n = n; M.name = vh::fmt( "linear %dx%d", m, n ); DM A2 = A; std::vector< double > b2 = b;
    M.f = [ = ]( const std::vector< double >& x, std::vector< double >& y ) { for ( int i = 0; i < m; i++ ) { y[ i ] = b2[ i ]; for ( int k = 0; k < n; k++ ) y[ i ] += A2[ i ][ k ] * x[ k ]; } }; M.j = [ = ]( const std::vector< double >&, DM& J ) { J = A2; }; return M;
}
/// assorted smooth problems with a known regular minimum (zero residual at truth)
static Model smooth( Rng& r, std::vector< double >& truth, std::vector< double >& y )
{
    Model M; int kind = r.in( 0, 4 );
    if ( kind == 0 ) { M.m = 2; M.n = 2; M.name = "rosenbrock"; truth = { 1, 1 }; M.f = []( const std::vector< double >& x, std::vector< double >& v ) { v[ 0 ] = 10 * ( x[ 1 ] - x[ 0 ] * x[ 0 ] ); v[ 1 ] = 1 - x[ 0 ]; }; M.j = []( const std::vector< double >& x, DM& J ) { J[ 0 ][ 0 ] = -20 * x[ 0 ]; J[ 0 ][ 1 ] = 10; J[ 1 ][ 0 ] = -1; J[ 1 ][ 1 ] = 0; }; }
    else if ( kind == 1 ) { int m = r.in( 4, 15 ); M.m = m; M.n = 3; M.name = "exponential"; truth = { r.uni( 0.5, 3 ), r.uni( -1, 1 ), r.uni( -2, 2 ) }; if ( std::fabs( truth[ 1 ] ) < 0.2 ) truth[ 1 ] = 0.4; M.f = [ m ]( const std::vector< double >& x, std::vector< double >& v ) { for ( int i = 0; i < m; i++ ) v[ i ] = x[ 0 ] * std::exp( x[ 1 ] * i * 4.0 / m ) + x[ 2 ]; }; M.j = [ m ]( const std::vector< double >& x, DM& J ) { for ( int i = 0; i < m; i++ ) { double t = i * 4.0 / m; J[ i ][ 0 ] = std::exp( x[ 1 ] * t ); J[ i ][ 1 ] = x[ 0 ] * t * std::exp( x[ 1 ] * t ); J[ i ][ 2 ] = 1; } }; }
    else if ( kind == 2 ) { int m = r.in( 5, 20 ); std::vector< double > px( m ), py( m ); truth = { r.uni( -3, 3 ), r.uni( -3, 3 ), r.uni( 0.5, 3 ) }; for ( int i = 0; i < m; i++ ) { double a = 6.28 * i / m; px[ i ] = truth[ 0 ] + truth[ 2 ] * std::cos( a ); py[ i ] = truth[ 1 ] + truth[ 2 ] * std::sin( a ); } M.m = m; M.n = 3; M.name = "circle"; M.f = [ = ]( const std::vector< double >& x, std::vector< double >& v ) { for ( int i = 0; i < m; i++ ) v[ i ] = std::hypot( px[ i ] - x[ 0 ], py[ i ] - x[ 1 ] ) - x[ 2 ]; }; M.j = [ = ]( const std::vector< double >& x, DM& J ) { for ( int i = 0; i < m; i++ ) { double d = std::hypot( px[ i ] - x[ 0 ], py[ i ] - x[ 1 ] ); J[ i ][ 0 ] = ( x[ 0 ] - px[ i ] ) / d; J[ i ][ 1 ] = ( x[ 1 ] - py[ i ] ) / d; J[ i ][ 2 ] = -1; } }; }
    else if ( kind == 3 ) { int m = r.in( 6, 14 ); M.m = m; M.n = 4; M.name = "sines"; truth = { r.uni( 1, 2 ), r.uni( 0.5, 1 ), r.uni( -1, 1 ), r.uni( -1, 1 ) }; M.f = [ m ]( const std::vector< double >& x, std::vector< double >& v ) { for ( int i = 0; i < m; i++ ) { double t = 5.0 * i / m; v[ i ] = x[ 0 ] * std::sin( x[ 1 ] * t + x[ 2 ] ) + x[ 3 ] * t; } }; M.j = [ m ]( const std::vector< double >& x, DM& J ) { for ( int i = 0; i < m; i++ ) { double t = 5.0 * i / m, c = std::cos( x[ 1 ] * t + x[ 2 ] ); J[ i ][ 0 ] = std::sin( x[ 1 ] * t + x[ 2 ] ); J[ i ][ 1 ] = x[ 0 ] * t * c; J[ i ][ 2 ] = x[ 0 ] * c; J[ i ][ 3 ] = t; } }; }
    else { int m = r.in( 3, 10 ); M.m = m; M.n = 2; M.name = "logarithm"; truth = { r.uni( 0.05, 0.5 ), r.uni( -1, 1 ) }; M.f = [ m ]( const std::vector< double >& x, std::vector< double >& v ) { for ( int i = 0; i < m; i++ ) v[ i ] = std::log( x[ 0 ] + 0.1 * i ) + x[ 1 ] * i; }; M.j = [ m ]( const std::vector< double >& x, DM& J ) { for ( int i = 0; i < m; i++ ) { J[ i ][ 0 ] = 1 / ( x[ 0 ] + 0.1 * i ); J[ i ][ 1 ] = i; } }; } // NaN outside the domain
    y.assign( M.m, 0 ); M.f( truth, y ); return M;
}
/// the problem object handed to the library; watches how it is used
template< class T > struct Problem
{
    const Model& M; std::size_t evals, badSizes; bool normOk; const std::vector< double >* unit; Problem( const Model& m ) : M( m ), evals( 0 ), badSizes( 0 ), normOk( true ), unit( 0 ) {}
    unsigned size() const { return M.m; }
    template< class V1, class V2, class MT > void evaluateWithJacobian( V1& v, const V2& p, MT& J ) { evals++; if ( int( v.size() ) != M.m || int( p.size() ) != M.n || int( J.size1() ) != M.m || int( J.size2() ) != M.n ) { badSizes++; return; } std::vector< double > x( M.n ), y( M.m ); for ( int i = 0; i < M.n; i++ ) x[ i ] = p( i ); M.f( x, y ); DM D = dm( M.m, M.n ); M.j( x, D ); for ( int i = 0; i < M.m; i++ ) { v( i ) = T( y[ i ] ); for ( int k = 0; k < M.n; k++ ) J( i, k ) = T( D[ i ][ k ] ); } }
};
static double residual( const Model& M, const std::vector< double >& p, const std::vector< double >& meas, const std::vector< double >* w = 0 ) { std::vector< double > y( M.m ); M.f( p, y ); double s = 0; for ( int i = 0; i < M.m; i++ ) s += sq( y[ i ] - meas[ i ] ) * ( w ? ( *w )[ i ] : 1 ); return s; }
template< class V > static V toV( const std::vector< double >& x ) { V v( x.size() ); for ( std::size_t i = 0; i < x.size(); i++ ) v( i ) = x[ i ]; return v; }
template< class V > static std::vector< double > fromV( const V& x ) { std::vector< double > v; for ( std::size_t i = 0; i < x.size(); i++ ) v.push_back( x( i ) ); return v; }
/// constant weights given by the caller
struct Weights { std::vector< double > w; mutable std::size_t bad; Weights() : bad( 0 ) {} bool noWeights() const { return false; } template< class X, class Y > void computeWeights( const X& e, Y& o ) const { if ( e.size() != w.size() || o.size() != w.size() ) { bad++; return; } for ( std::size_t i = 0; i < w.size(); i++ ) o( i ) = w[ i ]; } };
/// stop criterion that records the protocol
struct Stop { std::size_t at; mutable std::size_t calls; mutable bool order; mutable double best; Stop( std::size_t n ) : at( n ), calls( 0 ), order( true ), best( -1 ) {} bool operator()( std::size_t it, double now, double prev ) const { calls++; if ( it < calls ) order = false; if ( best >= 0 && prev != best ) order = false; best = now < prev ? now : prev; return calls >= at; } };
static const UO::LmSolverType SOLVERS[] = { UO::lmUseCholesky, UO::lmUseQR, UO::lmUseSVD };
static std::vector< double > normalEq( const DM& A, const std::vector< double >& b, const std::vector< double >& meas, const std::vector< double >& w ) { int m = A.size(), n = A[ 0 ].size(); DM N = dm( n, n ), inv; std::vector< double > g( n, 0.0 ), x( n, 0.0 ); for ( int i = 0; i < m; i++ ) for ( int j = 0; j < n; j++ ) { g[ j ] += w[ i ] * A[ i ][ j ] * ( meas[ i ] - b[ i ] ); for ( int k = 0; k < n; k++ ) N[ j ][ k ] += w[ i ] * A[ i ][ j ] * A[ i ][ k ]; } if ( std::fabs( ginv( N, inv ) ) < 1e-6 ) return std::vector< double >(); for ( int j = 0; j < n; j++ ) for ( int k = 0; k < n; k++ ) x[ j ] += inv[ j ][ k ] * g[ k ]; return x; }

SECTION( "lm.linear", 3000, 60000 )
{
    int n = r.in( 1, 6 ), m = r.in( n, 20 ); DM A; std::vector< double > b, meas( m ), x0( n ), w( m, 1.0 ); Model M = linear( r, m, n, A, b ); for ( double& x : meas ) x = r.uni( -10, 10 ); for ( double& x : x0 ) x = r.uni( -50, 50 ); int sv = r.in( 0, 2 ); bool weighted = r.coin(); if ( weighted ) for ( double& x : w ) x = r.coin( 0.1 ) && m > n + 2 ? 0 : r.logu( 0.05, 20 );
    std::string id = M.name + vh::fmt( " solver %d weighted %d", sv, weighted ); vh::sample( id ); Problem< double > P( M ); VD p = toV< VD >( x0 ), me = toV< VD >( meas ); VD me0( me ); Weights W; W.w = w; double lam = r.coin( 0.3 ) ? r.logu( 1e-3, 1e3 ) : 1.0, fac = r.coin( 0.3 ) ? r.uni( 2, 20 ) : 10.0;
    double start = residual( M, x0, meas, &w ), res = weighted ? UO::weightedLevenbergMarquardt( P, p, me, UO::OptTerminate( 60, 1e-14 ), UO::OptNoNormalize(), W, SOLVERS[ sv ], lam, fac ) : UO::levenbergMarquardt( P, p, me, UO::OptTerminate( 60, 1e-14 ), UO::OptNoNormalize(), SOLVERS[ sv ], lam, fac );
    vh::ok( "sizes", P.badSizes == 0 && W.bad == 0, id ); vh::ok( "measurement.const", fromV( me ) == fromV( me0 ), id ); double fin = residual( M, fromV( p ), meas, &w ); vh::near_( "linear.reported", res, fin, 1e-10 * ( fin + 1e-6 ), id ); vh::ok( "linear.notWorse", fin <= start * ( 1 + 1e-12 ), id ); vh::ok( "linear.limit", P.evals <= 61, id );
    std::vector< double > sol = normalEq( A, b, meas, w ); if ( sol.empty() ) return; double opt = residual( M, sol, meas, &w ); vh::small( "linear.optimal", ( fin - opt ) / ( opt + 1e-3 ), 1e-7, id + vh::fmt( " got %.12g optimum %.12g", fin, opt ) );
}
template< class T > static void nonlinear( Rng& r, const char* key )
{
    std::vector< double > truth, meas; Model M = smooth( r, truth, meas ); bool noisy = r.coin( 0.3 ); if ( noisy ) for ( double& x : meas ) x += r.gauss() * 0.01; std::vector< double > x0 = truth; bool far = r.coin(); for ( double& x : x0 ) x += r.gauss() * ( far ? r.logu( 0.1, 30 ) : 0.02 ); if ( M.name == "logarithm" && x0[ 0 ] < 0.01 ) x0[ 0 ] = 0.01;
    for ( double& x : x0 ) x = T( x ); for ( double& x : meas ) x = T( x ); int sv = r.in( 0, 2 ); bool weighted = r.coin( 0.3 ); Weights W; W.w.assign( M.m, 1.0 ); if ( weighted ) for ( double& x : W.w ) x = T( r.logu( 0.1, 10 ) ); typedef UM::Vector< T > V; V p = toV< V >( x0 ), me = toV< V >( meas ); Problem< T > P( M ); std::size_t its = r.coin( 0.2 ) ? r.in( 1, 5 ) : 200; double start = residual( M, x0, meas, &W.w );
    std::string id = M.name + vh::fmt( " solver %d far %d noisy %d its %d", sv, far, noisy, int( its ) ); vh::sample( id ); if ( !std::isfinite( start ) || start > 1e12 ) { vh::event( "skipped-start" ); return; } double res; UO::OptTerminate tc( its, std::is_same< T, float >::value ? 1e-7 : 1e-13 );
    // a problem whose values overflow may make the solver report failure; that is an answer, and the parameters are still those of an accepted step
    bool threw = false; try { res = weighted ? UO::weightedLevenbergMarquardt( P, p, me, tc, UO::OptNoNormalize(), W, SOLVERS[ sv ] ) : UO::levenbergMarquardt( P, p, me, tc, UO::OptNoNormalize(), SOLVERS[ sv ] ); } catch ( const std::exception& ) { threw = true; vh::event( "solver-reported-failure" ); }
    std::vector< double > q = fromV( p ); double fin = residual( M, q, meas, &W.w ), e = std::is_same< T, float >::value ? 2e-5 : 1e-10; vh::ok( std::string( key ) + ".sizes", P.badSizes == 0, id ); vh::ok( std::string( key ) + ".limit", P.evals <= its + 1, id + vh::fmt( " %d evaluations", int( P.evals ) ) ); bool fi = std::isfinite( fin ); for ( double x : q ) fi &= std::isfinite( x ); if ( !vh::ok( std::string( key ) + ".finite", fi, id ) ) return;
    double mag = 0; for ( double x : meas ) mag += x * x; vh::ok( std::string( key ) + ".notWorse", fin <= start * ( 1 + e ) + e * e * mag, id + vh::fmt( " start %.9g end %.9g", start, fin ) ); if ( threw ) return; vh::small( std::string( key ) + ".reported", res - fin, e * fin + e * e * mag * 100 + 1e-300, id );
    if ( !far && its == 200 && !noisy && std::is_same< T, double >::value ) { double d = 0; for ( std::size_t i = 0; i < q.size(); i++ ) d = std::max( d, std::fabs( q[ i ] - truth[ i ] ) ); vh::small( std::string( key ) + ".converges", d, 1e-5, id + vh::fmt( " residual %.3g", fin ) ); }
    if ( its == 200 && !far && noisy && M.name != "sines" && M.name != "exponential" && std::is_same< T, double >::value ) { // stationary: gradient vanishes
        std::vector< double > y( M.m ); DM J = dm( M.m, M.n ); M.f( q, y ); M.j( q, J ); double g = 0, s = 0; for ( int k = 0; k < M.n; k++ ) { double a = 0, c = 0; for ( int i = 0; i < M.m; i++ ) { a += W.w[ i ] * J[ i ][ k ] * ( y[ i ] - meas[ i ] ); c += W.w[ i ] * sq( J[ i ][ k ] ); } g = std::max( g, std::fabs( a ) / std::sqrt( c * ( fin + 1e-12 ) ) ); } vh::small( std::string( key ) + ".stationary", g, 1e-3, id + vh::fmt( " residual %.3g", fin ) ); (void)s; }
}
SECTION( "lm.double", 5000, 100000 ) { nonlinear< double >( r, "lm" ); }
SECTION( "lm.float", 2000, 30000 ) { nonlinear< float >( r, "lmf" ); }
/// keeps parameters on the unit sphere
struct UnitNorm { mutable std::size_t calls; UnitNorm() : calls( 0 ) {} template< class X, class Y > void evaluate( X& o, const Y& in ) const { calls++; double s = 0; for ( std::size_t i = 0; i < in.size(); i++ ) s += in( i ) * in( i ); s = std::sqrt( s ); for ( std::size_t i = 0; i < in.size(); i++ ) o( i ) = in( i ) / s; } };
SECTION( "lm.normalise", 1500, 20000 )
{
    // best unit vector: min |A x - y| on the sphere
    int n = r.in( 2, 5 ), m = r.in( n, 12 ); DM A; std::vector< double > b, meas( m ), x0( n ), t( n ); Model M = linear( r, m, n, A, b, 20 ); double s = 0; for ( double& x : t ) { x = r.gauss(); s += x * x; } for ( double& x : t ) x /= std::sqrt( s ); M.f( t, meas ); s = 0; for ( int i = 0; i < n; i++ ) { x0[ i ] = t[ i ] + 0.05 * r.gauss(); s += sq( x0[ i ] ); } for ( double& x : x0 ) x /= std::sqrt( s ); int sv = r.in( 0, 2 ); std::string id = M.name + vh::fmt( " solver %d", sv ); vh::sample( id );
    Problem< double > P( M ); VD p = toV< VD >( x0 ), me = toV< VD >( meas ); UnitNorm N; UO::levenbergMarquardt( P, p, me, UO::OptTerminate( 100, 1e-14 ), N, SOLVERS[ sv ] ); s = 0; double d = 0; for ( int i = 0; i < n; i++ ) { s += sq( p( i ) ); d = std::max( d, std::fabs( p( i ) - t[ i ] ) ); } vh::near_( "normalise.unit", s, 1, 1e-12, id ); vh::small( "normalise.converges", d, 1e-5, id ); vh::ok( "normalise.everyStep", N.calls == P.evals - 1, id );
    VD g = toV< VD >( x0 ); Problem< double > Q( M ); UnitNorm N2; unsigned k = r.in( 1, 30 ); UO::gaussNewton( Q, g, me, k, N2 ); vh::ok( "gn.normalise", N2.calls == k && Q.evals == k, id ); s = 0; for ( int i = 0; i < n; i++ ) s += sq( g( i ) ); vh::near_( "gn.unit", s, 1, 1e-12, id );
}
SECTION( "lm.protocol", 2000, 30000 )
{
    std::vector< double > truth, meas; Model M = smooth( r, truth, meas ); std::vector< double > x0 = truth; for ( double& x : x0 ) x += r.gauss() * 0.3; if ( M.name == "logarithm" && x0[ 0 ] < 0.01 ) x0[ 0 ] = 0.01; if ( M.name == "logarithm" || M.name == "exponential" ) return; int sv = r.in( 0, 2 ); Stop st( r.in( 1, 40 ) ); Problem< double > P( M ); VD p = toV< VD >( x0 ), me = toV< VD >( meas ); std::string id = M.name + vh::fmt( " solver %d stop %d", sv, int( st.at ) ); vh::sample( id ); double res = UO::levenbergMarquardt( P, p, me, st, UO::OptNoNormalize(), SOLVERS[ sv ] );
    vh::ok( "protocol.calls", st.calls == st.at, id ); vh::ok( "protocol.order", st.order, id ); vh::ok( "protocol.evals", P.evals == st.at + 1, id ); vh::ok( "protocol.best", res == st.best, id + vh::fmt( " %.17g %.17g", res, st.best ) );
}
SECTION( "lm.exactStart", 600, 5000 )
{
    // a start that already is the exact solution stays, and an unlimited run with a relative criterion ends
    std::vector< double > truth, meas; Model M = smooth( r, truth, meas ); Problem< double > P( M ); VD p = toV< VD >( truth ), me = toV< VD >( meas ); int sv = r.in( 0, 2 ); bool unlimited = r.coin(); vh::sample( M.name ); double res = UO::levenbergMarquardt( P, p, me, UO::OptTerminate( unlimited ? 0 : 10, 1e-6 ), UO::OptNoNormalize(), SOLVERS[ sv ] ); vh::ok( "exactStart", fromV( p ) == truth && res == 0, M.name );
    // rank deficient problem: still not worse
    Model D; D.m = 3; D.n = 3; D.name = "deficient"; D.f = []( const std::vector< double >& x, std::vector< double >& v ) { v[ 0 ] = x[ 0 ] + x[ 1 ]; v[ 1 ] = 2 * ( x[ 0 ] + x[ 1 ] ); v[ 2 ] = sq( x[ 0 ] + x[ 1 ] ); }; D.j = []( const std::vector< double >& x, DM& J ) { double s = 2 * ( x[ 0 ] + x[ 1 ] ); J[ 0 ][ 0 ] = J[ 0 ][ 1 ] = 1; J[ 1 ][ 0 ] = J[ 1 ][ 1 ] = 2; J[ 2 ][ 0 ] = J[ 2 ][ 1 ] = s; J[ 0 ][ 2 ] = J[ 1 ][ 2 ] = J[ 2 ][ 2 ] = 0; };
    std::vector< double > x0 = { r.uni( -3, 3 ), r.uni( -3, 3 ), r.uni( -3, 3 ) }, ym = { r.uni( -1, 1 ), r.uni( -1, 1 ), r.uni( 0, 1 ) }; Problem< double > Q( D ); VD q = toV< VD >( x0 ), y2 = toV< VD >( ym ); double s0 = residual( D, x0, ym ); try { UO::levenbergMarquardt( Q, q, y2, UO::OptTerminate( 50, 1e-10 ), UO::OptNoNormalize(), SOLVERS[ sv ] ); } catch ( const std::exception& ) { vh::event( "deficient-reported" ); } double s1 = residual( D, fromV( q ), ym ); vh::ok( "deficient.notWorse", s1 <= s0 && std::isfinite( s1 ) ); vh::near_( "deficient.untouched", q( 2 ), x0[ 2 ], 1e-6 );
}
SECTION( "gaussNewton", 3000, 50000 )
{
    int n = r.in( 1, 6 ), m = r.in( n, 20 ); DM A; std::vector< double > b, meas( m ), x0( n ), w( m, 1.0 ); Model M = linear( r, m, n, A, b ); for ( double& x : meas ) x = r.uni( -10, 10 ); for ( double& x : x0 ) x = r.uni( -50, 50 ); VD p = toV< VD >( x0 ), me = toV< VD >( meas ); Problem< double > P( M ); unsigned k = r.in( 1, 4 ); vh::sample( M.name ); std::vector< double > sol = normalEq( A, b, meas, w ); if ( sol.empty() ) return; UO::gaussNewton( P, p, me, k, UO::OptNoNormalize() );
    double d = 0; for ( int i = 0; i < n; i++ ) d = std::max( d, std::fabs( p( i ) - sol[ i ] ) ); DM N = mul( trans( A ), A ), inv; ginv( N, inv ); vh::small( "gn.linear", d, 1e-12 * maxabs( N ) * maxabs( inv ) * 1e3, M.name ); vh::ok( "gn.iterations", P.evals == k && P.badSizes == 0, M.name );
    std::vector< double > truth, ym; Model S = smooth( r, truth, ym ); std::vector< double > s0 = truth; for ( double& x : s0 ) x += r.gauss() * 0.005; VD q = toV< VD >( s0 ), y2 = toV< VD >( ym ); Problem< double > Q( S ); UO::gaussNewton( Q, q, y2, 12, UO::OptNoNormalize() ); d = 0; for ( std::size_t i = 0; i < truth.size(); i++ ) d = std::max( d, std::fabs( q( i ) - truth[ i ] ) ); vh::small( "gn.converges", d, 1e-6, S.name ); VD z = toV< VD >( s0 ); UO::gaussNewton( Q, z, y2, 0, UO::OptNoNormalize() ); vh::ok( "gn.none", fromV( z ) == s0 );
}
SECTION( "criteria", 4000, 50000 )
{
    std::size_t mi = r.in( 0, 20 ), it = r.in( 1, 25 ); double pr = r.coin( 0.3 ) ? 0 : r.logu( 1e-9, 1e-1 ), now = r.logu( 1e-6, 1e6 ), prev = now * ( 1 + r.sgn() * r.logu( 1e-12, 0.5 ) ); vh::sample( vh::fmt( "%d %g", int( mi ), pr ) ); bool want = ( mi > 0 && it >= mi ) || ( pr != 0 && std::fabs( prev - now ) < pr * now ); vh::ok( "terminate", UO::OptTerminate( mi, pr )( it, prev, now ) == want, vh::fmt( "%d %d %g %g %g", int( mi ), int( it ), pr, prev, now ) ); vh::ok( "terminate.default", UO::OptTerminate( mi )( it, prev, now ) == ( mi > 0 && it >= mi ) );
    // robust weights: one weight per measurement, never growing with the error, constant beyond the cut-off
    int rows = r.in( 1, 3 ), k = r.in( 1, 6 ); double c = r.logu( 0.1, 100 ); UM::TukeyWeightFunction tw( rows, c ); VD e( rows * k ), o( rows * k ); std::vector< double > nrm; for ( int i = 0; i < k; i++ ) { double f = r.logu( 0.01, 10 ) * c, s = 0; std::vector< double > d( rows ); for ( double& x : d ) { x = r.gauss() + 0.01; s += x * x; } for ( int j = 0; j < rows; j++ ) e( i * rows + j ) = d[ j ] / std::sqrt( s ) * f; nrm.push_back( f ); } vh::ok( "tukey.weighs", !tw.noWeights() ); tw.computeWeights( e, o ); for ( int i = 0; i < k; i++ ) { bool one = true; for ( int j = 0; j < rows; j++ ) one &= o( i * rows + j ) == o( i * rows ); vh::ok( "tukey.perMeasurement", one ); vh::ok( "tukey.range", std::isfinite( o( i * rows ) ) && o( i * rows ) > 0 ); for ( int j = 0; j < k; j++ ) if ( nrm[ i ] < nrm[ j ] ) vh::ok( "tukey.decreasing", o( i * rows ) >= o( j * rows ) * ( 1 - 1e-12 ) ); }
}
VH_MAIN
