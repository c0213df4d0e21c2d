// C19: tracking filters. Oracles: an independent textbook Kalman step (plain arrays) for the generic updates, an exact
// linear reference filter for the position part, the true motion for convergence, and the invariants (unit rotation,
// symmetric positive semi-definite covariance, shrinking / growing, independence of quaternion sign) after every step.
#include "um.h"
#include <utMeasurement/Measurement.h>
#include <utTracking/PoseKalmanFilter.h>
#include <utTracking/RotationOnlyKF.h>
#include <utMath/Stochastic/Kalman.h>
using namespace um;
namespace UT = Ubitrack::Tracking; namespace UE = Ubitrack::Measurement; namespace ublas = boost::numeric::ublas;
typedef std::vector< double > Vd;
static DM randCov( Rng& r, int n, double s ) { DM a = dm( n, n + 2 ); for ( auto& row : a ) for ( double& x : row ) x = r.gauss() * s; DM c = mul( a, trans( a ) ); for ( int i = 0; i < n; i++ ) { c[ i ][ i ] += 1e-3 * s * s; for ( int j = 0; j < i; j++ ) c[ i ][ j ] = c[ j ][ i ]; } return c; }
/// textbook update, Joseph form: x += K (z - h), P = (I-KH) P (I-KH)' + K R K'
static void textbook( Vd& x, DM& P, const DM& H, const Vd& innov, const DM& R )
{
    int n = x.size(), m = R.size(); DM S = add( mul( mul( H, P ), trans( H ) ), R ), Si; ginv( S, Si ); DM K = mul( mul( P, trans( H ) ), Si ); for ( int i = 0; i < n; i++ ) for ( int j = 0; j < m; j++ ) x[ i ] += K[ i ][ j ] * innov[ j ]; DM A = mul( K, H ); for ( int i = 0; i < n; i++ ) for ( int j = 0; j < n; j++ ) A[ i ][ j ] = ( i == j ) - A[ i ][ j ]; P = add( mul( mul( A, P ), trans( A ) ), mul( mul( K, R ), trans( K ) ) );
}
static void valid( const std::string& k, const DM& P, const std::string& id )
{
    double s = maxabs( P ); if ( !std::isfinite( s ) ) { vh::fail( k + ".finite", id ); return; } double as = 0; int n = P.size(); DM Q = P; for ( int i = 0; i < n; i++ ) for ( int j = 0; j < n; j++ ) { double e = std::fabs( P[ i ][ j ] - P[ j ][ i ] ) / ( s + 1e-7 ); as = std::max( as, e ); Q[ i ][ j ] = ( P[ i ][ j ] + P[ j ][ i ] ) / 2; }
    vh::small( k + ".symmetric", as, 2e-5, id ); for ( int i = 0; i < n; i++ ) vh::ok( k + ".diagonal", P[ i ][ i ] >= -1e-9 * s - 1e-14, id ); DM ev; std::vector< double > w = symEig( Q ); double lo = 1e300; for ( double e : w ) lo = std::min( lo, e ); vh::ok( k + ".psd", lo >= -1e-7 * s - 1e-14, id + vh::fmt( " eigenvalue %g of %g", lo, s ) );
}
struct Lin { DM H; Vd off; bool quad; template< class A, class B, class M > void evaluateWithJacobian( A& res, const B& in, M& J ) const { for ( std::size_t i = 0; i < H.size(); i++ ) { double s = off[ i ]; for ( std::size_t j = 0; j < H[ 0 ].size(); j++ ) { s += H[ i ][ j ] * in( j ) + ( quad ? 0.1 * in( j ) * in( j ) : 0 ); J( i, j ) = H[ i ][ j ] + ( quad ? 0.2 * in( j ) : 0 ); } res( i ) = s; } } };
template< int N, int M > static void stepFixed( Rng& r )
{
    double s = r.logu( 1e-3, 1e2 ); int b = r.in( 0, N - 2 ), e = r.in( b + 1, N ); DM P = randCov( r, N, s ), R = randCov( r, M, s * r.logu( 1e-2, 1e2 ) ); UM::ErrorVector< double, N > st; UM::ErrorVector< double, M > z; Lin f; f.quad = r.coin( 0.3 ); f.H = dm( M, e - b ); f.off = Vd( M ); for ( auto& row : f.H ) for ( double& x : row ) x = r.coin( 0.2 ) ? 0 : r.uni( -2, 2 ); for ( double& x : f.off ) x = r.uni( -1, 1 ); Vd x( N ), in( M ), pred( M );
    for ( int i = 0; i < N; i++ ) { st.value( i ) = x[ i ] = r.uni( -1, 1 ); for ( int j = 0; j < N; j++ ) st.covariance( i, j ) = P[ i ][ j ]; } DM H = dm( M, N ); for ( int i = 0; i < M; i++ ) { double v = f.off[ i ]; for ( int j = b; j < e; j++ ) { v += f.H[ i ][ j - b ] * x[ j ] + ( f.quad ? 0.1 * x[ j ] * x[ j ] : 0 ); H[ i ][ j ] = f.H[ i ][ j - b ] + ( f.quad ? 0.2 * x[ j ] : 0 ); } z.value( i ) = v + r.gauss() * s; in[ i ] = z.value( i ) - v; for ( int j = 0; j < M; j++ ) z.covariance( i, j ) = R[ i ][ j ]; }
    std::string id = vh::fmt( "N %d M %d range %d..%d scale %g", N, M, b, e, s ); vh::sample( id ); DM P0 = P; textbook( x, P, H, in, R ); UM::Stochastic::kalmanMeasurementUpdate< N, M >( st, f, z, b, e ); double c = 1e-7; for ( int i = 0; i < N; i++ ) vh::near_( "step.value", st.value( i ), x[ i ], c * ( 1 + s ), id ); DM G = fromM( st.covariance ); vh::small( "step.covariance", maxdiff( G, P ) / maxabs( P0 ), c, id ); valid( "step", G, id ); for ( int i = 0; i < N; i++ ) vh::ok( "step.shrinks", G[ i ][ i ] <= P0[ i ][ i ] * ( 1 + 1e-9 ), id );
    { // identity form: measures a part of the state directly
        UM::ErrorVector< double, N > si; Vd xi( N ); DM Pi = P0, Hi = dm( M, N ); int k = r.in( 0, N - M ); Vd ii( M ); for ( int i = 0; i < N; i++ ) { si.value( i ) = xi[ i ] = r.uni( -1, 1 ); for ( int j = 0; j < N; j++ ) si.covariance( i, j ) = P0[ i ][ j ]; } for ( int i = 0; i < M; i++ ) { Hi[ i ][ k + i ] = 1; ii[ i ] = z.value( i ) - xi[ k + i ]; } textbook( xi, Pi, Hi, ii, R ); UM::Stochastic::kalmanMeasurementUpdateIdentity< N, M >( si, z, k, k + M ); for ( int i = 0; i < N; i++ ) vh::near_( "stepIdentity.value", si.value( i ), xi[ i ], c * ( 1 + s + std::fabs( z.value( 0 ) ) ), id ); vh::small( "stepIdentity.covariance", maxdiff( fromM( si.covariance ), Pi ) / maxabs( P0 ), c, id ); valid( "stepIdentity", fromM( si.covariance ), id );
    }
    { // dynamic containers give the same
        UM::Vector< double > sv( N ); UM::Matrix< double, 0, 0 > sc( N, N ); for ( int i = 0; i < N; i++ ) for ( int j = 0; j < N; j++ ) sc( i, j ) = P0[ i ][ j ]; Vd x2( N ); DM P2 = P0; int k = r.in( 0, N - M ); for ( int i = 0; i < N; i++ ) sv( i ) = x2[ i ] = r.uni( -1, 1 ); DM H2 = dm( M, N ); Vd i2( M ); for ( int i = 0; i < M; i++ ) { H2[ i ][ k + i ] = 1; i2[ i ] = z.value( i ) - x2[ k + i ]; } textbook( x2, P2, H2, i2, R ); UM::Stochastic::kalmanMeasurementUpdateIdentity( sv, sc, z.value, z.covariance, k, k + M ); for ( int i = 0; i < N; i++ ) vh::near_( "stepDynamic.value", sv( i ), x2[ i ], c * ( 1 + s + std::fabs( z.value( 0 ) ) ), id ); vh::small( "stepDynamic.covariance", maxdiff( fromM( sc ), P2 ) / maxabs( P0 ), c, id );
    }
}
SECTION( "step", 1500, 60000 ) { switch ( r.in( 0, 3 ) ) { case 0: stepFixed< 7, 3 >( r ); break; case 1: stepFixed< 7, 4 >( r ); break; case 2: stepFixed< 4, 4 >( r ); break; default: stepFixed< 3, 1 >( r ); } }

// ---------------------------------------------------------------- motions and streams
typedef Ubitrack::Measurement::Timestamp TS;
struct Motion { int po, oo; V3 x0, v, a; UM::Quaternion q0; A3 ax; double w, al;
    V3 pos( double t ) const { V3 p; for ( int i = 0; i < 3; i++ ) p( i ) = x0( i ) + ( po > 0 ? v( i ) * t : 0 ) + ( po > 1 ? a( i ) * t * t / 2 : 0 ); return p; }
    UM::Quaternion rot( double t ) const { double an = ( oo > 0 ? w * t : 0 ) + ( oo > 1 ? al * t * t / 2 : 0 ); UM::Quaternion d = refQuat( ax, an ); const UM::Quaternion& q = q0; return UM::Quaternion( q.w() * d.x() + q.x() * d.w() + q.y() * d.z() - q.z() * d.y(), q.w() * d.y() - q.x() * d.z() + q.y() * d.w() + q.z() * d.x(), q.w() * d.z() + q.x() * d.y() - q.y() * d.x() + q.z() * d.w(), q.w() * d.w() - q.x() * d.x() - q.y() * d.y() - q.z() * d.z() ); }
    V3 vel( double t ) const { double s = ( oo > 0 ? w : 0 ) + ( oo > 1 ? al * t : 0 ); return V3( ax[ 0 ] * s, ax[ 1 ] * s, ax[ 2 ] * s ); } };
static Motion motion( Rng& r, int po, int oo, double sc ) { Motion m; m.po = po; m.oo = oo; m.x0 = genVec( r, sc ); m.v = genVec( r, sc ); m.a = genVec( r, sc ); m.q0 = uniQuat( r ); m.ax = genAxis( r ); m.w = r.coin( 0.15 ) ? 0 : r.uni( -2, 2 ); m.al = r.uni( -0.2, 0.2 ); return m; }
static UE::ErrorPose epose( TS t, const UM::Pose& p, const DM& C ) { UM::Matrix< double, 6, 6 > c; for ( int i = 0; i < 6; i++ ) for ( int j = 0; j < 6; j++ ) c( i, j ) = C[ i ][ j ]; return UE::ErrorPose( t, UM::ErrorPose( p, c ) ); }
static DM poseCov( double sp, double so ) { DM c = dm( 6, 6 ); for ( int i = 0; i < 3; i++ ) { c[ i ][ i ] = sp * sp; c[ i + 3 ][ i + 3 ] = so * so; } return c; }
static DM blockCov( Rng& r, double sp, double so ) { DM c = dm( 6, 6 ), a = randCov( r, 3, sp ), b = randCov( r, 3, so ); for ( int i = 0; i < 3; i++ ) for ( int j = 0; j < 3; j++ ) { c[ i ][ j ] = a[ i ][ j ]; c[ i + 3 ][ j + 3 ] = b[ i ][ j ]; } return c; }
static UT::LinearPoseMotionModel model( Rng& r, int po, int oo, std::vector< double >& pn, bool all = true ) { UT::LinearPoseMotionModel m( po, oo ); for ( int i = 0; i <= po; i++ ) { double s = r.logu( 1e-3, 1 ); if ( !all && r.coin( 0.3 ) ) s = 0; else m.setPosPN( i, s ); for ( int k = 0; k < 3; k++ ) pn.push_back( s * s ); } for ( int i = 0; i <= oo; i++ ) { double s = r.logu( 1e-3, 1e-1 ); if ( !all && r.coin( 0.3 ) ) s = 0; else m.setOriPN( i, s ); for ( int k = 0; k < ( i ? 3 : 4 ); k++ ) pn.push_back( s * s ); } return m; }
static void unitState( const std::string& k, const UT::PoseKalmanFilter& f, int po, const std::string& id ) { double n = 0; for ( int i = 0; i < 4; i++ ) n += f.getState()( 3 * po + 3 + i ) * f.getState()( 3 * po + 3 + i ); vh::near_( k + ".unit", std::sqrt( n ), 1, 1e-9, id ); }
const TS T0 = 1000000000ULL;

/// the position part of the filter is an exact linear Kalman filter
SECTION( "position", 300, 12000 )
{
    int po = r.in( 0, 3 ), oo = r.in( 0, 2 ), n = 3 * ( po + 1 ), ns = n + 4 + 3 * oo; double sc = r.logu( 1e-2, 1e2 ); std::vector< double > pn; UT::LinearPoseMotionModel mm = model( r, po, oo, pn, r.coin() ); UT::PoseKalmanFilter f( mm ); std::string id = vh::fmt( "orders %d/%d scale %.3g", po, oo, sc ); vh::sample( id ); vh::ok( "position.stateSize", int( mm.stateSize() ) == ns && int( f.getState().size() ) == ns && mm.posOrder() == po && mm.oriOrder() == oo, id ); vh::ok( "position.uninitialised", vh::throws( [&] { f.predictPose( T0 ); } ), id );
    Motion mo = motion( r, po, oo, sc ); if ( po > 2 ) mo.po = 2; Vd x( n ); DM P = dm( n, n ); for ( int i = 0; i < n; i++ ) P[ i ][ i ] = 1; TS t = T0 + r.in( 0, 1000000000 ); bool first = true; TS last = 0; int steps = r.in( 1, 25 ); bool tidy = r.coin( 0.7 );
    auto propagate = [&]( Vd& y, DM& Q, double dt ) { DM F = dm( n, n ); for ( int i = 0; i < n; i++ ) { F[ i ][ i ] = 1; double c = 1; for ( int k = 1; i + 3 * k < n; k++ ) { c *= dt / k; F[ i ][ i + 3 * k ] = c; } } Vd z( n ); for ( int i = 0; i < n; i++ ) for ( int j = 0; j < n; j++ ) z[ i ] += F[ i ][ j ] * y[ j ]; y = z; Q = mul( mul( F, Q ), trans( F ) ); for ( int i = 0; i < n; i++ ) Q[ i ][ i ] += std::fabs( dt ) * pn[ i ]; };
    for ( int s = 0; s < steps; s++ )
    {
        int ev = first ? 0 : r.in( 0, 5 ); double tt = ( t - T0 ) * 1e-9;
        if ( ev < 4 ) { double sp = sc * r.logu( 1e-4, 1 ), so = r.logu( 1e-4, 0.1 ); DM C = blockCov( r, sp, so ); V3 p = mo.pos( tt ); for ( int i = 0; i < 3; i++ ) p( i ) += r.gauss() * sp; UM::Quaternion q = mo.rot( tt ); if ( r.coin() ) q = neg( q ); if ( first ) for ( int i = 0; i < 3; i++ ) x[ i ] = p( i ); else if ( t != last ) propagate( x, P, ( (long long)( t - last ) ) * 1e-9 ); f.addPoseMeasurement( epose( t, UM::Pose( q, p ), C ) ); DM H = dm( 3, n ), R = dm( 3, 3 ); Vd in( 3 ); for ( int i = 0; i < 3; i++ ) { H[ i ][ i ] = 1; in[ i ] = p( i ) - x[ i ]; for ( int j = 0; j < 3; j++ ) R[ i ][ j ] = C[ i ][ j ]; } textbook( x, P, H, in, R ); last = t; first = false; vh::event( "pose" ); }
        else if ( ev == 4 ) { UM::Quaternion q = mo.rot( tt ); if ( t != last ) propagate( x, P, ( (long long)( t - last ) ) * 1e-9 ); f.addRotationMeasurement( UE::Rotation( t, r.coin() ? q : neg( q ) ) ); last = t; vh::event( "rotation" ); }
        else if ( oo >= 1 ) { if ( t != last ) propagate( x, P, ( (long long)( t - last ) ) * 1e-9 ); f.addRotationVelocityMeasurement( UE::RotationVelocity( t, UM::RotationVelocity( mo.vel( tt ) ) ) ); last = t; vh::event( "velocity" ); }
        else { f.timeUpdate( t ); if ( t != last ) propagate( x, P, ( (long long)( t - last ) ) * 1e-9 ); last = t; vh::event( "timeUpdate" ); }
        double mx = sc; for ( double v : x ) mx = std::max( mx, std::fabs( v ) ); double mp = maxabs( P ); for ( int i = 0; i < n; i++ ) { vh::near_( "position.state", f.getState()( i ), x[ i ], 1e-6 * mx, id ); for ( int j = 0; j < n; j++ ) vh::near_( "position.covariance", f.getCovariance()( i, j ), P[ i ][ j ], 1e-6 * mp + 3e-14, id ); } unitState( "position", f, po, id ); valid( "position", fromM( f.getCovariance() ), id );
        // prediction leaves the filter alone and agrees with the reference
        TS tp = r.coin( 0.2 ) ? t : r.coin( 0.7 ) ? t + r.in( 0, 500000000 ) : t - r.in( 0, 100000000 ); DM before = fromM( f.getCovariance() ); UM::Vector< double > sb( f.getState() ); UE::ErrorPose pr = f.predictPose( tp ); Vd y = x; DM Q = P; propagate( y, Q, ( (long long)( tp - last ) ) * 1e-9 ); vh::ok( "predict.time", pr.time() == tp, id ); double my = sc; for ( double v : y ) my = std::max( my, std::fabs( v ) ); for ( int i = 0; i < 3; i++ ) { vh::near_( "predict.position", pr->translation()( i ), y[ i ], 1e-6 * my, id ); for ( int j = 0; j < 3; j++ ) vh::near_( "predict.covariance", pr->covariance()( i, j ), Q[ i ][ j ], 1e-6 * maxabs( Q ) + 3e-14, id ); } vh::near_( "predict.unit", qnorm( pr->rotation() ), 1, 1e-9, id ); valid( "predict", fromM( pr->covariance() ), id ); vh::ok( "predict.pure", maxdiff( before, fromM( f.getCovariance() ) ) == 0 && ublas::norm_inf( sb - f.getState() ) == 0, id );
        int k = r.in( 0, 9 ); if ( k == 0 ) vh::event( "equal-time" ); else if ( k == 1 && !tidy ) { t -= r.in( 1, 50000000 ); vh::event( "older" ); } else t += r.in( 1000000, 200000000 );
    }
}
/// each filter step against the textbook: time step moves the state along the motion, measurement step fuses
SECTION( "steps", 400, 15000 )
{
    int po = r.in( 0, 2 ), oo = r.in( 0, 1 ), iR = 3 * ( po + 1 ); bool io = oo == 1 && po <= 1 && r.coin( 0.3 ); std::vector< double > pn; UT::LinearPoseMotionModel mm = model( r, po, oo, pn ); UT::PoseKalmanFilter f( mm, io ); int n = mm.stateSize(); Motion mo = motion( r, po, oo, 1 ); std::string id = vh::fmt( "orders %d/%d%s", po, oo, io ? " inside-out" : "" ); vh::sample( id ); TS t = T0, lastT = T0; int steps = r.in( 1, 20 );
    for ( int s = 0; s < steps; s++ )
    {
        double tt = ( t - T0 ) * 1e-9; if ( s ) { // time step
            UM::Vector< double > b( f.getState() ); DM B = fromM( f.getCovariance() ); f.timeUpdate( t ); double dt = ( (long long)( t - lastT ) ) * 1e-9; UM::Vector< double > a( f.getState() ); DM A = fromM( f.getCovariance() ); valid( "time", A, id ); unitState( "time", f, po, id );
            auto F = [&]( const Vd& y ) { Vd z = y; UM::Quaternion d; A3 rv = { { 0, 0, 0 } }; if ( oo ) { A3 v = { { y[ iR + 4 ], y[ iR + 5 ], y[ iR + 6 ] } }; double w = norm( v ); A3 u = w > 0 ? A3{ { v[ 0 ] / w, v[ 1 ] / w, v[ 2 ] / w } } : A3{ { 1, 0, 0 } }; d = refQuat( u, w * dt ); Motion k; k.oo = 1; k.q0 = UM::Quaternion( y[ iR ], y[ iR + 1 ], y[ iR + 2 ], y[ iR + 3 ] ); k.ax = u; k.w = w; UM::Quaternion g = k.rot( dt ); z[ iR ] = g.x(); z[ iR + 1 ] = g.y(); z[ iR + 2 ] = g.z(); z[ iR + 3 ] = g.w(); rv = refMatrix( k.q0 ) * v; }
                if ( !io ) { for ( int i = 0; i < 3 * ( po + 1 ); i++ ) { double c = 1; for ( int k = 1; i + 3 * k < 3 * ( po + 1 ); k++ ) { c *= dt / k; z[ i ] += c * y[ i + 3 * k ]; } } } else { double w = norm( rv ); A3 u = w > 0 ? A3{ { rv[ 0 ] / w, rv[ 1 ] / w, rv[ 2 ] / w } } : A3{ { 1, 0, 0 } }; R3 D = rodrigues( u, w * dt ); A3 p = { { y[ 0 ], y[ 1 ], y[ 2 ] } }; p = D * p; for ( int i = 0; i < 3; i++ ) z[ i ] = p[ i ] + ( po ? dt * y[ 3 + i ] : 0 ); if ( po ) { A3 v = { { y[ 3 ], y[ 4 ], y[ 5 ] } }; v = D * v; for ( int i = 0; i < 3; i++ ) z[ 3 + i ] = v[ i ]; } } return z; };
            Vd y( n ); for ( int i = 0; i < n; i++ ) y[ i ] = b( i ); Vd z = F( y ); double sc = 1; for ( double q : z ) sc = std::max( sc, std::fabs( q ) ); for ( int i = 0; i < n; i++ ) vh::near_( "time.state", a( i ), z[ i ], 1e-9 * sc, id ); DM J = dm( n, n ); for ( int j = 0; j < n; j++ ) { Vd u = y, d = y; u[ j ] += 1e-6; d[ j ] -= 1e-6; u = F( u ); d = F( d ); for ( int i = 0; i < n; i++ ) J[ i ][ j ] = ( u[ i ] - d[ i ] ) / 2e-6; } DM Q = mul( mul( J, B ), trans( J ) ); for ( int i = 0; i < n; i++ ) Q[ i ][ i ] += std::fabs( dt ) * pn[ i ]; double w = 0; if ( oo ) w = std::sqrt( b( iR + 4 ) * b( iR + 4 ) + b( iR + 5 ) * b( iR + 5 ) + b( iR + 6 ) * b( iR + 6 ) ); double sm = std::sqrt( maxabs( Q ) ), tol = 1e-6 + 2 * w * std::fabs( dt ) * sc; for ( int i = 0; i < n; i++ ) for ( int j = 0; j < n; j++ ) vh::near_( "time.covariance", A[ i ][ j ], Q[ i ][ j ], ( std::sqrt( std::fabs( Q[ i ][ i ] ) ) + tol * sm ) * ( std::sqrt( std::fabs( Q[ j ][ j ] ) ) + tol * sm ) - std::sqrt( std::fabs( Q[ i ][ i ] * Q[ j ][ j ] ) ) + 1e-9 * sm * sm, id + vh::fmt( " w dt %g", w * dt ) ); } lastT = t;
        UM::Vector< double > b( f.getState() ); DM P = fromM( f.getCovariance() ); Vd x( n ); bool fresh = s == 0; UM::Quaternion q = mo.rot( tt ); q = UM::Quaternion( q.x() + 0.02 * r.gauss(), q.y() + 0.02 * r.gauss(), q.z() + 0.02 * r.gauss(), q.w() + 0.02 * r.gauss() ).normalize(); if ( r.coin() ) q = neg( q ); V3 p = mo.pos( tt ); for ( int i = 0; i < 3; i++ ) p( i ) += 0.02 * r.gauss(); for ( int i = 0; i < n; i++ ) x[ i ] = b( i ); int ev = s == 0 ? 0 : r.in( 0, oo ? 3 : 1 ); double zq[ 4 ] = { q.x(), q.y(), q.z(), q.w() };
        if ( fresh ) for ( int i = 0; i < 4; i++ ) { x[ iR + i ] = zq[ i ]; if ( i < 3 ) x[ i ] = p( i ); } double dot = 0; for ( int i = 0; i < 4; i++ ) dot += zq[ i ] * x[ iR + i ]; if ( dot < 0 ) for ( double& z : zq ) z = -z; DM H, R; Vd in;
        if ( ev == 0 ) { DM C = randCov( r, 6, r.logu( 1e-3, 0.1 ) ); UE::ErrorPose m = epose( t, UM::Pose( q, p ), C ); UM::ErrorVector< double, 7 > v; UM::ErrorPose( *m ).toAdditiveErrorVector( v ); if ( dot < 0 ) { /* the sign of the measured quaternion does not matter: the covariance of the negated one has negated cross terms */ UE::ErrorPose m2 = epose( t, UM::Pose( neg( q ), p ), C ); UM::ErrorPose( *m2 ).toAdditiveErrorVector( v ); } R = fromM( v.covariance ); H = dm( 7, n ); in = Vd( 7 ); for ( int i = 0; i < 3; i++ ) { H[ i ][ i ] = 1; in[ i ] = p( i ) - x[ i ]; } for ( int i = 0; i < 4; i++ ) { H[ 3 + i ][ iR + i ] = 1; in[ 3 + i ] = zq[ i ] - x[ iR + i ]; } f.addPoseMeasurement( m ); vh::event( "pose" ); }
        else if ( ev == 1 ) { R = dm( 4, 4 ); H = dm( 4, n ); in = Vd( 4 ); for ( int i = 0; i < 4; i++ ) { R[ i ][ i ] = 0.004; H[ i ][ iR + i ] = 1; in[ i ] = zq[ i ] - x[ iR + i ]; } f.addRotationMeasurement( UE::Rotation( t, q ) ); vh::event( "rotation" ); }
        else { V3 w = mo.vel( tt ); for ( int i = 0; i < 3; i++ ) w( i ) += 0.01 * r.gauss(); R = dm( 3, 3 ); H = dm( 3, n ); in = Vd( 3 ); for ( int i = 0; i < 3; i++ ) R[ i ][ i ] = 1e-11; if ( ev == 2 ) { for ( int i = 0; i < 3; i++ ) { H[ i ][ iR + 4 + i ] = 1; in[ i ] = w( i ) - x[ iR + 4 + i ]; } f.addRotationVelocityMeasurement( UE::RotationVelocity( t, UM::RotationVelocity( w ) ) ); vh::event( "velocity" ); }
            else { // velocity of the inverse pose: -(q v q*)
                auto h = [&]( const Vd& y, double* o ) { double qx = y[ iR ], qy = y[ iR + 1 ], qz = y[ iR + 2 ], qw = y[ iR + 3 ], v0 = y[ iR + 4 ], v1 = y[ iR + 5 ], v2 = y[ iR + 6 ]; o[ 0 ] = -( ( qw * qw + qx * qx - qy * qy - qz * qz ) * v0 + 2 * ( qx * qy - qz * qw ) * v1 + 2 * ( qx * qz + qy * qw ) * v2 ); o[ 1 ] = -( 2 * ( qx * qy + qz * qw ) * v0 + ( qw * qw - qx * qx + qy * qy - qz * qz ) * v1 + 2 * ( qy * qz - qx * qw ) * v2 ); o[ 2 ] = -( 2 * ( qx * qz - qy * qw ) * v0 + 2 * ( qy * qz + qx * qw ) * v1 + ( qw * qw - qx * qx - qy * qy + qz * qz ) * v2 ); }; double o[ 3 ]; h( x, o ); V3 z( o[ 0 ] + 0.01 * r.gauss(), o[ 1 ] + 0.01 * r.gauss(), o[ 2 ] + 0.01 * r.gauss() ); for ( int i = 0; i < 3; i++ ) in[ i ] = z( i ) - o[ i ]; for ( int j = iR; j < iR + 7; j++ ) { Vd u = x, d = x; u[ j ] += 1e-6; d[ j ] -= 1e-6; double a[ 3 ], c[ 3 ]; h( u, a ); h( d, c ); for ( int i = 0; i < 3; i++ ) H[ i ][ j ] = ( a[ i ] - c[ i ] ) / 2e-6; } f.addInverseRotationVelocityMeasurement( UE::RotationVelocity( t, UM::RotationVelocity( z ) ) ); vh::event( "inverse-velocity" ); } }
        textbook( x, P, H, in, R ); // then the quaternion is normalised, its covariance with it
        double l = 0; for ( int i = 0; i < 4; i++ ) l += x[ iR + i ] * x[ iR + i ]; l = std::sqrt( l ); DM N = dm( n, n ); for ( int i = 0; i < n; i++ ) N[ i ][ i ] = 1; for ( int i = 0; i < 4; i++ ) for ( int j = 0; j < 4; j++ ) N[ iR + i ][ iR + j ] = ( ( i == j ) - x[ iR + i ] * x[ iR + j ] / ( l * l ) ) / l; for ( int i = 0; i < 4; i++ ) x[ iR + i ] /= l; DM Q = mul( mul( N, P ), trans( N ) ); double wv = 0; if ( oo ) { for ( int i = 4; i < 7; i++ ) wv += x[ iR + i ] * x[ iR + i ]; } if ( wv > 90 ) { vh::event( "velocity-reset" ); return; }
        std::string ie = id + vh::fmt( " step %d event %d", s, ev ); double mp = maxabs( Q ); for ( int i = 0; i < n; i++ ) vh::near_( "steps.state", f.getState()( i ), x[ i ], ev == 3 ? 1e-4 : 1e-6, ie ); vh::small( "steps.covariance", maxdiff( fromM( f.getCovariance() ), Q ) / mp, ev == 3 ? 1e-4 : 1e-6, ie ); unitState( "steps", f, po, ie ); valid( "steps", fromM( f.getCovariance() ), ie ); t += r.in( 1000000, 50000000 );
    }
}
static int modelOrder( Rng& r, int hi ) { return r.in( 0, hi ); }
/// convergence to the true motion and prediction; the same stream with other quaternion signs gives the same result
SECTION( "follow", 90, 2500 )
{
    int po = modelOrder( r, 2 ), oo = modelOrder( r, 2 ); std::vector< double > pn; UT::LinearPoseMotionModel mm( po, oo ); for ( int i = 0; i <= po; i++ ) mm.setPosPN( i, 0.01 ); for ( int i = 0; i <= oo; i++ ) mm.setOriPN( i, 0.01 ); UT::PoseKalmanFilter f( mm ), g( mm ); Motion mo = motion( r, r.in( 0, po ), r.in( 0, oo ), 1 ); TS t = T0; int n = r.in( 150, 250 ); double sp = 1e-4, so = 1e-4; bool mixed = oo >= 1 && r.coin( 0.4 ); std::string id = vh::fmt( "model %d/%d motion %d/%d w %.3g%s", po, oo, mo.po, mo.oo, mo.w, mixed ? " with gyro" : "" ); vh::sample( id ); vh::event( vh::fmt( "model-%d-%d", po, oo ) ); DM C = poseCov( sp, so ); double worst = 0; double pn0 = 0;
    for ( int s = 0; s < n; s++ ) { double tt = ( t - T0 ) * 1e-9; UM::Quaternion q = mo.rot( tt ), q2 = r.coin() ? q : neg( q ); if ( mixed && s % 3 == 2 ) { f.addRotationVelocityMeasurement( UE::RotationVelocity( t, UM::RotationVelocity( mo.vel( tt ) ) ) ); g.addRotationVelocityMeasurement( UE::RotationVelocity( t, UM::RotationVelocity( mo.vel( tt ) ) ) ); } else { f.addPoseMeasurement( epose( t, UM::Pose( q, mo.pos( tt ) ), C ) ); g.addPoseMeasurement( epose( t, UM::Pose( q2, mo.pos( tt ) ), C ) ); } TS tp = t + 10000000; UE::ErrorPose a = f.predictPose( tp ), b = g.predictPose( tp ); worst = std::max( worst, rotDist( a->rotation(), b->rotation() ) + dist( a->translation(), b->translation() ) ); DM ca = fromM( a->covariance() ), cb = fromM( b->covariance() ); pn0 = std::max( pn0, maxdiff( ca, cb ) / maxabs( ca ) ); if ( s % 10 == 0 ) { valid( "follow", fromM( f.getCovariance() ), id ); unitState( "follow", f, po, id ); } if ( s < n - 1 ) t += r.in( 10000000, 30000000 ); }
    vh::small( "follow.sign", worst, 1e-9, id ); vh::small( "follow.signCovariance", pn0, 1e-6, id );
    for ( double ahead : { 0.0, 0.005, 0.02, -0.01 } ) { TS tp = t + (long long)( ahead * 1e9 ); double tt = ( (double)(long long)( tp - T0 ) ) * 1e-9; UE::ErrorPose p = f.predictPose( tp ); vh::small( vh::fmt( "follow.position%d", po ), dist( p->translation(), mo.pos( tt ) ), 2e-3, id + vh::fmt( " ahead %g", ahead ) ); vh::small( vh::fmt( "follow.rotation%d", oo ), rotDist( p->rotation(), mo.rot( tt ) ), 5e-3, id + vh::fmt( " ahead %g", ahead ) ); }
    if ( oo >= 1 && mo.oo <= oo ) { double tt = ( t - T0 ) * 1e-9; V3 w = mo.vel( tt ); int iV = 3 * ( po + 1 ) + 4; V3 e( f.getState()( iV ), f.getState()( iV + 1 ), f.getState()( iV + 2 ) ); vh::small( vh::fmt( "follow.velocity%d", oo ), dist( e, w ), 0.05, id ); }
    // the uncertainty grows with the prediction horizon
    double l0 = 0; for ( int k = 0; k < 5; k++ ) { UE::ErrorPose p = f.predictPose( t + k * 100000000ULL ); double tr = 0; for ( int i = 0; i < 3; i++ ) tr += p->covariance()( i, i ); vh::ok( "follow.grows", tr >= l0 * ( 1 - 1e-9 ), id ); l0 = tr; }
}
SECTION( "insideout", 50, 1500 )
{
    int po = r.in( 0, 1 ); UT::LinearPoseMotionModel mm( po, 1 ); for ( int i = 0; i <= po; i++ ) mm.setPosPN( i, 0.01 ); for ( int i = 0; i <= 1; i++ ) mm.setOriPN( i, 0.01 ); { UT::LinearPoseMotionModel bad( r.coin() ? 2 : po, 1 ), bad2( po, r.coin() ? 0 : 2 ); if ( bad.posOrder() == 2 ) vh::ok( "insideout.posOrder", vh::throws( [&] { UT::PoseKalmanFilter x( bad, true ); } ), "order 2" ); vh::ok( "insideout.oriOrder", vh::throws( [&] { UT::PoseKalmanFilter x( bad2, true ); } ), "orientation order" ); }
    UT::PoseKalmanFilter f( mm, true ), g( mm, true ); // the sensor rotates about itself: object seen rotates about the origin of the sensor
    Motion mo = motion( r, 0, 1, 1 ); TS t = T0; int n = 200; DM C = poseCov( 1e-4, 1e-4 ); std::string id = vh::fmt( "inside-out order %d w %.3g", po, mo.w ); vh::sample( id ); V3 c = uniVec( r, 1 ); double worst = 0;
    auto truth = [&]( double tt ) { UM::Quaternion q = mo.rot( tt ); A3 p = refMatrix( q ) * toA3( c ); return UM::Pose( q, toV3( p ) ); };
    for ( int s = 0; s < n; s++ ) { double tt = ( t - T0 ) * 1e-9; UM::Pose p = truth( tt ), p2 = r.coin() ? p : UM::Pose( neg( p.rotation() ), p.translation() ); f.addPoseMeasurement( epose( t, p, C ) ); g.addPoseMeasurement( epose( t, p2, C ) ); UE::ErrorPose a = f.predictPose( t + 10000000 ), b = g.predictPose( t + 10000000 ); worst = std::max( worst, rotDist( a->rotation(), b->rotation() ) + dist( a->translation(), b->translation() ) ); unitState( "insideout", f, po, id ); if ( s % 10 == 0 ) valid( "insideout", fromM( f.getCovariance() ), id ); if ( s < n - 1 ) t += r.in( 10000000, 30000000 ); } vh::small( "insideout.sign", worst, 1e-9, id );
    for ( double ahead : { 0.0, 0.02, 0.1 } ) { TS tp = t + (long long)( ahead * 1e9 ); double tt = ( tp - T0 ) * 1e-9; UE::ErrorPose p = f.predictPose( tp ); UM::Pose tr = truth( tt ); vh::small( "insideout.position", dist( p->translation(), tr.translation() ), 2e-3 + 0.1 * ahead, id + vh::fmt( " ahead %g", ahead ) ); vh::small( "insideout.rotation", rotDist( p->rotation(), tr.rotation() ), 2e-3 + 0.1 * ahead, id + vh::fmt( " ahead %g", ahead ) ); }
}
SECTION( "rotationonly", 100, 3000 )
{
    UT::RotationOnlyKF f, g; Motion mo = motion( r, 0, 1, 1 ); int n = r.in( 150, 300 ); TS t = T0 + r.in( 0, 1000000000 ); const TS t0 = t; double gy = r.coin( 0.4 ) ? 0 : r.uni( 0.1, 0.7 ); std::string id = vh::fmt( "rotation only w %.3g gyro share %.2g", mo.w, gy ); vh::sample( id ); vh::event( gy ? "gyro" : "no-gyro" ); double worst = 0; bool got = false;
    for ( int s = 0; s < n; s++ ) { double tt = ( t - t0 ) * 1e-9; UM::Quaternion q = mo.rot( tt ), q2 = r.coin() ? q : neg( q ); if ( s && r.coin( gy ) ) { UE::RotationVelocity v( t, UM::RotationVelocity( mo.vel( tt ) ) ); f.addVelocityMeasurement( v ); g.addVelocityMeasurement( v ); got = true; } else { f.addRotationMeasurement( UE::Rotation( t, q ) ); g.addRotationMeasurement( UE::Rotation( t, q2 ) ); } double l = 0; for ( int i = 0; i < 4; i++ ) l += f.getState()( i ) * f.getState()( i ); vh::near_( "rotationonly.unit", std::sqrt( l ), 1, 1e-9, id ); worst = std::max( worst, rotDist( f.predict( t )->normalize(), g.predict( t )->normalize() ) ); if ( s == 0 ) vh::small( "rotationonly.first", rotDist( *f.predict( t ), q ), 1e-7, id ); if ( s < n - 1 && !r.coin( 0.1 ) ) t += r.in( 5000000, 30000000 ); else if ( s < n - 1 ) vh::event( "equal-time" ); }
    vh::small( "rotationonly.sign", worst, 1e-9, id ); (void)got;
    for ( double ahead : { 0.0, 0.01, 0.1, -0.01 } ) { TS tp = t + (long long)( ahead * 1e9 ); double tt = ( (long long)( tp - t0 ) ) * 1e-9; UE::Rotation p = f.predict( tp ); vh::ok( "rotationonly.time", p.time() == tp, id ); vh::near_( "rotationonly.predictUnit", qnorm( *p ), 1, 1e-9, id ); vh::small( gy ? "rotationonly.withGyro" : "rotationonly.withoutGyro", rotDist( *p, mo.rot( tt ) ), 2e-2, id + vh::fmt( " ahead %g", ahead ) ); }
}
VH_MAIN
