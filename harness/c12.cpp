// C12: robust estimation keeps its sample and inlier contract
#include "um.h"
#include <utMath/Optimization/Ransac.h>
#include <utAlgorithm/PoseEstimation3D3D/Pose6D.h>
#include <utAlgorithm/PoseEstimation3D3D/Ransac.h>
#include <utAlgorithm/PoseEstimation3D3D/AbsoluteOrientation.h>
#include <utAlgorithm/ToolTip/LeastSquare.h>
#include <utAlgorithm/ToolTip/Ransac.h>
#include <utAlgorithm/ToolTip/TipCalibration.h>
#include <list>
#include <deque>
using namespace um; namespace UO = Ubitrack::Math::Optimization; namespace UA = Ubitrack::Algorithm;

struct Obs { typedef double value_type; double x, y; int id; };
struct Line { double a = 1e9, b = 1e9; int serial = -1; };
/// event log of one robust estimation: every sample handed out, every distance asked for
struct Log
{
    struct Hyp { std::vector< int > ids; bool ok, paired; Line h; std::map< int, int > asked; };
    std::vector< Hyp > hyps; int failEvery = 0; std::vector< Obs > data; bool badEval = false; bool throws = false; uint64_t salt = 0;
    bool refuses( const std::vector< int >& ids ) const { if ( !failEvery ) return false; uint64_t h = salt; for ( int i : ids ) h = ( h ^ uint64_t( i + 17 ) ) * 1099511628211ull; return ( h >> 20 ) % failEvery == 0; }
};
static Log* L;
template< class It > static bool fit( Line& out, It b, It e, bool paired )
{
    Log::Hyp h; h.paired = paired; double n = 0, sx = 0, sy = 0, sxx = 0, sxy = 0; for ( It i = b; i != e; ++i ) { h.ids.push_back( i->id ); n++; sx += i->x; sy += i->y; sxx += i->x * i->x; sxy += i->x * i->y; }
    double d = n * sxx - sx * sx; h.ok = n >= 2 && std::fabs( d ) > 1e-9 && !L->refuses( h.ids ); if ( h.ok ) { out.a = ( n * sxy - sx * sy ) / d; out.b = ( sy - out.a * sx ) / n; } out.serial = int( L->hyps.size() ); h.h = out; L->hyps.push_back( h ); return h.ok;
}
static double dist( const Line& h, const Obs& o ) { return std::fabs( h.a * o.x + h.b - o.y ); }
static double eval( const Line& h, const Obs& o ) { if ( h.serial < 0 || h.serial >= int( L->hyps.size() ) ) L->badEval = true; else L->hyps[ h.serial ].asked[ o.id ]++; return dist( h, o ); }
struct One
{
    typedef double value_type; struct Estimator { template< class R, class It > bool operator()( R& r, It b, It e ) const { return fit( r, b, e, true ); } };
    struct Evaluator { double operator()( const Line& h, const Obs& o ) const { return eval( h, o ); } };
};
struct Two
{
    typedef double value_type; struct Estimator { template< class R, class It > bool operator()( R& r, It b, It e, It b2, It e2 ) const { bool p = std::distance( b, e ) == std::distance( b2, e2 ); for ( It i = b, j = b2; p && i != e; ++i, ++j ) p = i->id == j->id; return fit( r, b, e, p ); } };
    struct Evaluator { double operator()( const Line& h, const Obs& o, const Obs& p ) const { if ( o.id != p.id ) L->badEval = true; return eval( h, o ); } };
};
struct OldEst { void operator()( Line& r, const std::vector< Obs >& a, const std::vector< Obs >& b ) const { bool p = a.size() == b.size(); for ( std::size_t i = 0; p && i < a.size(); i++ ) p = a[ i ].id == b[ i ].id; if ( !fit( r, a.begin(), a.end(), p ) && L->throws ) throw std::runtime_error( "singular" ); } };
struct OldEval { double operator()( const Line& h, const Obs& o, const Obs& p ) const { if ( o.id != p.id ) L->badEval = true; return eval( h, o ); } };

/// checks the recorded history against the contract
static void judge( const std::string& form, const Log& lg, std::size_t ret, const Line& result, std::size_t setSize, double thr, std::size_t nMin, std::size_t nMax, std::size_t nMinRuns, bool firstWins, const std::vector< bool >* mask )
{
    std::size_t n = lg.data.size(), trials = lg.hyps.size() - ( ret > 0 && !lg.hyps.empty() ? 1 : 0 ); std::string id = form + vh::fmt( " n %d set %d min %d runs %d returned %d", int( n ), int( setSize ), int( nMin ), int( nMax ), int( ret ) );
    bool finalFailed = false; if ( ret == 0 && lg.hyps.size() > 1 && !lg.hyps.back().ok ) { const std::vector< int >& f = lg.hyps.back().ids; for ( std::size_t k = 0; k + 1 < lg.hyps.size(); k++ ) if ( lg.hyps[ k ].ok ) { std::vector< int > in; for ( const Obs& o : lg.data ) if ( dist( lg.hyps[ k ].h, o ) < thr ) in.push_back( o.id ); finalFailed |= in.size() >= nMin && in == f; } } if ( finalFailed ) trials--; // the refit to the inliers was refused
    vh::ok( form + ".runLimit", trials <= nMax, id ); vh::ok( form + ".evaluator", !lg.badEval, id ); std::size_t best = 0; bool any = false; std::vector< std::set< int > > inl;
    for ( std::size_t k = 0; k < trials; k++ )
    {
        const Log::Hyp& h = lg.hyps[ k ]; std::set< int > u( h.ids.begin(), h.ids.end() ); bool range = true; for ( int i : u ) range &= i >= 0 && i < int( n ); vh::ok( form + ".setSize", h.ids.size() == setSize, id ); vh::ok( form + ".distinct", u.size() == h.ids.size() && range, id ); vh::ok( form + ".paired", h.paired, id ); vh::event( "samples" );
        std::set< int > in; if ( h.ok ) for ( const Obs& o : lg.data ) if ( dist( h.h, o ) < thr ) in.insert( o.id ); inl.push_back( in ); if ( !h.ok ) { vh::ok( form + ".refusedNotUsed", h.asked.empty() || !L->throws, id ); continue; }
        bool once = true; for ( auto& a : h.asked ) once &= a.second == 1; vh::ok( form + ".eachOnce", once, id ); if ( in.size() >= nMin && in.size() > 0 ) { any = true; if ( in.size() > best ) best = in.size(); vh::ok( form + ".allCounted", h.asked.size() == n, id ); }
    }
    if ( ret > 0 )
    {
        const Log::Hyp& f = lg.hyps.back(); std::set< int > u( f.ids.begin(), f.ids.end() ); vh::ok( form + ".minimum", ret >= nMin && ret <= n, id ); vh::ok( form + ".count", f.ids.size() == ret && u.size() == ret && f.paired, id ); bool match = false; for ( std::size_t k = 0; k < trials; k++ ) match |= lg.hyps[ k ].ok && inl[ k ] == u; vh::ok( form + ".inliersOfHypothesis", match, id ); vh::ok( form + ".result", result.a == f.h.a && result.b == f.h.b && f.ok, id ); vh::ok( form + ".best", firstWins || ret == best, id + vh::fmt( " best %d", int( best ) ) );
        if ( !firstWins ) vh::ok( form + ".minRuns", trials >= std::min( nMinRuns, nMax ), id + vh::fmt( " trials %d", int( trials ) ) ); if ( mask ) { bool m = mask->size() == n; for ( std::size_t i = 0; m && i < n; i++ ) m = ( *mask )[ i ] == ( u.count( int( i ) ) > 0 ); vh::ok( form + ".mask", m, id ); } vh::event( "successes" );
    }
    else { vh::ok( form + ".supportedNotDropped", !any || finalFailed, id ); vh::ok( form + ".triesAll", trials == nMax || finalFailed || n < setSize || n < nMin, id + vh::fmt( " trials %d", int( trials ) ) ); vh::event( "failures" ); }
    
}
static void data( Rng& r, Log& lg, double& thr )
{
    int n = r.coin( 0.1 ) ? r.in( 0, 4 ) : r.in( 3, 40 ); double a = r.uni( -3, 3 ), b = r.uni( -3, 3 ), out = r.pick( std::vector< double >{ 0, 0.1, 0.3, 0.5, 0.9 } ); for ( int i = 0; i < n; i++ ) { Obs o; o.x = r.uni( -5, 5 ); if ( r.coin( 0.05 ) ) o.x = 0; o.y = a * o.x + b + r.gauss() * 0.05; if ( r.coin( out ) ) o.y += r.uni( -10, 10 ); o.id = i; lg.data.push_back( o ); } thr = r.pick( std::vector< double >{ 0.02, 0.1, 0.2, 0.5, 3 } ); lg.salt = r.u64(); lg.failEvery = r.coin( 0.5 ) ? 0 : r.in( 1, 6 );
}
template< class C > static C conv( const std::vector< Obs >& v ) { return C( v.begin(), v.end() ); }
SECTION( "range.one", 6000, 120000 )
{
    Log lg; double thr; data( r, lg, thr ); L = &lg; srand( unsigned( r.u64() ) ); std::size_t n = lg.data.size(), set = r.in( 2, 6 ), nMin = r.coin( 0.1 ) ? n + r.in( 0, 2 ) : r.in( 1, std::max< int >( 1, n ) ), runs = r.in( 0, 30 ); UO::RansacParameter< double > p( thr, set, nMin, runs ); Line res; std::size_t k; int kind = r.in( 0, 2 );
    if ( kind == 0 ) k = UO::ransac( lg.data.begin(), lg.data.end(), res, One(), p ); else if ( kind == 1 ) { std::list< Obs > l = conv< std::list< Obs > >( lg.data ); k = UO::ransac( l.begin(), l.end(), res, One(), p ); } else { const std::vector< Obs > v( lg.data ); k = UO::ransac( v.begin(), v.end(), res, One(), p ); }
    vh::sample( vh::fmt( "n %d set %d min %d runs %d -> %d", int( n ), int( set ), int( nMin ), int( runs ), int( k ) ) ); judge( "one", lg, k, res, set, thr, nMin, runs, 0, true, 0 );
}
SECTION( "range.two", 6000, 120000 )
{
    Log lg; double thr; data( r, lg, thr ); L = &lg; srand( unsigned( r.u64() ) ); std::size_t n = lg.data.size(), set = r.in( 2, 6 ), nMin = r.coin( 0.1 ) ? n + r.in( 0, 2 ) : r.in( 1, std::max< int >( 1, n ) ), runs = r.in( 0, 30 ); UO::RansacParameter< double > p( thr, set, nMin, runs ); Line res; std::vector< Obs > b( lg.data ); bool shorter = r.coin( 0.05 ) && n > 0; if ( shorter ) b.pop_back(); std::size_t k;
    if ( r.coin( 0.3 ) ) { std::list< Obs > l1 = conv< std::list< Obs > >( lg.data ), l2 = conv< std::list< Obs > >( b ); k = UO::ransac( l1.begin(), l1.end(), l2.begin(), l2.end(), res, Two(), p ); } else k = UO::ransac( lg.data.begin(), lg.data.end(), b.begin(), b.end(), res, Two(), p );
    vh::sample( vh::fmt( "n %d set %d min %d runs %d -> %d", int( n ), int( set ), int( nMin ), int( runs ), int( k ) ) ); if ( shorter ) { vh::ok( "two.lengths", k == 0 && lg.hyps.empty() ); return; } judge( "two", lg, k, res, set, thr, nMin, runs, 0, true, 0 );
}
SECTION( "vectors", 6000, 120000 )
{
    Log lg; double thr; data( r, lg, thr ); lg.throws = true; L = &lg; srand( unsigned( r.u64() ) ); std::size_t n = lg.data.size(), set = r.in( 2, 6 ), nMin = r.coin( 0.1 ) ? n + r.in( 0, 2 ) : r.in( 1, std::max< int >( 1, n ) ), runs = r.in( 0, 30 ), minRuns = r.in( 0, 35 ); Line res; std::vector< Obs > b( lg.data ); bool shorter = r.coin( 0.05 ) && n > 0; if ( shorter ) b.pop_back(); std::vector< bool > mask; bool wm = r.coin(); std::size_t k = 0; bool threw = false;
    try { k = UO::ransac( res, lg.data, b, thr, set, nMin, minRuns, runs, OldEst(), OldEval(), wm ? &mask : 0 ); } catch ( const std::runtime_error& ) { threw = true; }
    vh::sample( vh::fmt( "n %d set %d min %d runs %d/%d -> %d", int( n ), int( set ), int( nMin ), int( minRuns ), int( runs ), int( k ) ) ); if ( shorter ) { vh::ok( "vectors.lengths", k == 0 && lg.hyps.empty() ); return; } if ( threw ) { vh::ok( "vectors.finalFailure", !lg.hyps.empty() && !lg.hyps.back().ok && lg.hyps.back().ids.size() >= nMin ); return; } judge( "vectors", lg, k, res, set, thr, nMin, runs, minRuns, false, wm && k ? &mask : 0 );
}
/// the run count derived from the wanted probability suffices for it, and is not larger than needed
template< class T > static void params( Rng& r, double eps )
{
    T out = T( r.coin( 0.1 ) ? 0 : r.uni( 0.01, 0.9 ) ), suc = T( r.pick( std::vector< double >{ 0.5, 0.9, 0.95, 0.99, 0.999 } ) ); int set = r.in( 1, 8 ), n = r.in( set, 200 ); UO::RansacParameter< T > p = suc == T( 0.99 ) ? UO::RansacParameter< T >( T( 0.25 ), set, n, out ) : UO::RansacParameter< T >( T( 0.25 ), set, n, out, suc ); double w = std::pow( 1.0 - double( out ), set ), need = std::log( 1 - double( suc ) ) / std::log( 1 - w ); std::string id = vh::fmt( "outlier %.4g success %.4g set %d n %d runs %.0f need %.3f", double( out ), double( suc ), set, n, double( p.nMaxIterations ), need ); vh::sample( id );
    vh::ok( "param.copied", p.threshold == T( 0.25 ) && p.setSize == std::size_t( set ), id ); vh::ok( "param.runsSuffice", double( p.nMaxIterations ) >= need * ( 1 - eps ) - eps && p.nMaxIterations >= 1, id ); vh::ok( "param.runsNotExcessive", double( p.nMaxIterations ) <= need * ( 1 + eps ) + 1 + eps, id ); double k = ( 1 - double( out ) ) * n; vh::ok( "param.minInlier", double( p.nMinInlier ) >= std::floor( k - eps * n ) && double( p.nMinInlier ) <= std::ceil( k + eps * n ), id ); UO::RansacParameter< T > q( T( 0.5 ), 3, 7, std::size_t( 11 ) ); vh::ok( "param.plain", q.threshold == T( 0.5 ) && q.setSize == 3 && q.nMinInlier == 7 && q.nMaxIterations == 11 );
}
SECTION( "parameters", 4000, 60000 ) { if ( r.coin() ) params< double >( r, 1e-9 ); else params< float >( r, 2e-2 ); }

/// a majority of exact observations among gross outliers determines the answer
template< class T > static void robustPose( Rng& r, double tol )
{
    typedef UM::Vector< T, 3 > V; int n = r.in( 8, 40 ), bad = r.in( 0, int( n * 0.4 ) ); UM::Pose t = uniPose( r, 5 ); std::vector< V > a, b; std::vector< int > idx; for ( int i = 0; i < n; i++ ) idx.push_back( i ); r.shuffle( idx ); for ( int i = 0; i < n; i++ ) { V3 q = uniVec( r, 3 ), p = act( t, q ); b.push_back( V( T( q( 0 ) ), T( q( 1 ) ), T( q( 2 ) ) ) ); a.push_back( V( T( p( 0 ) ), T( p( 1 ) ), T( p( 2 ) ) ) ); } for ( int i = 0; i < bad; i++ ) { V3 d = uniVec( r, 1 ); double l = norm( d ); if ( l < 0.1 ) d( 0 ) += 1; for ( int k = 0; k < 3; k++ ) a[ idx[ i ] ]( k ) += T( d( k ) * r.uni( 5, 20 ) ); }
    srand( unsigned( r.u64() ) ); UO::RansacParameter< T > p( T( 0.02 ), r.in( 3, 4 ), n - bad, std::size_t( 3000 ) ); UM::Pose res; std::vector< V > a0( a ), b0( b ); std::string id = vh::fmt( "n %d outliers %d set %d", n, bad, int( p.setSize ) ); vh::sample( id ); bool okk = UA::PoseEstimation3D3D::estimatePose6D_3D3D( a, res, b, p ); if ( !vh::ok( "pose.found", okk, id ) ) return; vh::small( "pose.rotation", rotDist( res.rotation(), t.rotation() ), tol, id ); vh::small( "pose.translation", dist( res.translation(), t.translation() ), tol * 10, id ); bool same = true; for ( int i = 0; i < n; i++ ) for ( int k = 0; k < 3; k++ ) same &= a[ i ]( k ) == a0[ i ]( k ) && b[ i ]( k ) == b0[ i ]( k ); vh::ok( "pose.inputs", same, id );
    // unreachable support is a failure
    if ( bad > 0 ) { UO::RansacParameter< T > q( T( 0.02 ), 3, n, std::size_t( 20 ) ); UM::Pose z; vh::ok( "pose.unsupported", !UA::PoseEstimation3D3D::estimatePose6D_3D3D( a, z, b, q ), id ); }
    typename UA::PoseEstimation3D3D::Ransac< T >::Evaluator ev; V3 e = act( t, V3( b[ 0 ]( 0 ), b[ 0 ]( 1 ), b[ 0 ]( 2 ) ) ); vh::near_( "pose.distance", ev( t, a[ 0 ], b[ 0 ] ), dist( e, V3( a[ 0 ]( 0 ), a[ 0 ]( 1 ), a[ 0 ]( 2 ) ) ), std::is_same< T, float >::value ? 1e-4 : 1e-11, id );
}
SECTION( "pose6D", 1500, 15000 ) { if ( r.coin( 0.7 ) ) robustPose< double >( r, 1e-9 ); else robustPose< float >( r, 2e-3 ); }
template< class T > static void robustTip( Rng& r, double tol )
{
    typedef UM::Vector< T, 3 > V; int n = r.in( 10, 30 ), bad = r.in( 0, int( n * 0.3 ) ); V3 pw = uniVec( r, 3 ), pm = uniVec( r, 1 ); std::vector< UM::Pose > ps; for ( int i = 0; i < n; i++ ) { UM::Quaternion q = uniQuat( r ); V3 z = act( UM::Pose( q, V3( 0, 0, 0 ) ), pm ); ps.push_back( UM::Pose( q, V3( pw( 0 ) - z( 0 ), pw( 1 ) - z( 1 ), pw( 2 ) - z( 2 ) ) ) ); } std::vector< int > idx; for ( int i = 0; i < n; i++ ) idx.push_back( i ); r.shuffle( idx ); for ( int i = 0; i < bad; i++ ) { V3 d = uniVec( r, 1 ); if ( norm( d ) < 0.1 ) d( 0 ) += 1; V3 t = ps[ idx[ i ] ].translation(); ps[ idx[ i ] ] = UM::Pose( ps[ idx[ i ] ].rotation(), V3( t( 0 ) + 10 * d( 0 ), t( 1 ) + 10 * d( 1 ), t( 2 ) + 10 * d( 2 ) ) ); }
    srand( unsigned( r.u64() ) ); UO::RansacParameter< T > p( T( 0.05 ), r.in( 4, 5 ), n - bad, std::size_t( 4000 ) ); V w( T( 7 ), T( 8 ), T( 9 ) ), m( T( 1 ), T( 2 ), T( 3 ) ); std::string id = vh::fmt( "n %d outliers %d", n, bad ); vh::sample( id ); bool okk = UA::ToolTip::estimatePosition3D_6D( w, ps, m, p ); if ( !vh::ok( "tip.found", okk, id ) ) return; vh::small( "tip.world", dist( V3( w( 0 ), w( 1 ), w( 2 ) ), pw ), tol, id ); vh::small( "tip.marker", dist( V3( m( 0 ), m( 1 ), m( 2 ) ), pm ), tol, id );
    if ( bad > 0 ) { UO::RansacParameter< T > q( T( 0.05 ), 4, n, std::size_t( 20 ) ); V w2( T( 7 ), T( 8 ), T( 9 ) ), m2( T( 1 ), T( 2 ), T( 3 ) ); bool z = UA::ToolTip::estimatePosition3D_6D( w2, ps, m2, q ); vh::ok( "tip.unsupported", !z && w2( 0 ) == T( 7 ) && m2( 2 ) == T( 3 ), id ); }
    UM::Vector< T, 6 > h; for ( int i = 0; i < 3; i++ ) { h( i ) = T( pw( i ) ); h( i + 3 ) = T( pm( i ) ); } V3 e = act( ps[ 0 ], pm ); vh::near_( "tip.distance", typename UA::ToolTip::Ransac< T >::Evaluator()( h, ps[ 0 ] ), dist( e, pw ), std::is_same< T, float >::value ? 1e-4 : 1e-11, id );
}
SECTION( "toolTip", 1000, 10000 ) { if ( r.coin( 0.7 ) ) robustTip< double >( r, 1e-9 ); else robustTip< float >( r, 2e-2 ); }
VH_MAIN
