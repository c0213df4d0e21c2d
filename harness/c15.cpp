// C15: hand-eye and tool-tip calibration recover the hidden transformation
#include "um.h"
#include <utAlgorithm/PoseEstimation6D6D/TsaiLenz.h>
#include <utAlgorithm/PoseEstimation6D6D/DualQuaternion.h>
#include <utAlgorithm/PoseEstimation6D6D/DataSelection.h>
#include <utAlgorithm/PoseEstimation6D6D/HandEyeCalibration.h>
#include <utMath/Optimization/Optimization.h>
#include <utAlgorithm/ToolTip/TipCalibration.h>
#include <utAlgorithm/ToolTip/Optimization.h>
#include <utAlgorithm/OnlineRotHec.h>
#include <utAlgorithm/RotationHecKalmanFilter.h>
using namespace um; namespace UA = Ubitrack::Algorithm; namespace UH = Ubitrack::Algorithm::PoseEstimation6D6D; namespace UT = Ubitrack::Algorithm::ToolTip; namespace UO = Ubitrack::Math::Optimization;

/// independent pose arithmetic on rotation matrices
struct RP { R3 R; A3 t; };
static RP rp( const UM::Pose& p ) { RP o; o.R = refMatrix( p.rotation() ); o.t = toA3( p.translation() ); return o; }
static RP operator*( const RP& a, const RP& b ) { RP o; for ( int i = 0; i < 3; i++ ) { for ( int j = 0; j < 3; j++ ) { o.R.m[ i ][ j ] = 0; for ( int k = 0; k < 3; k++ ) o.R.m[ i ][ j ] += a.R.m[ i ][ k ] * b.R.m[ k ][ j ]; } } A3 v = a.R * b.t; for ( int i = 0; i < 3; i++ ) o.t[ i ] = v[ i ] + a.t[ i ]; return o; }
static RP inv( const RP& a ) { RP o; for ( int i = 0; i < 3; i++ ) for ( int j = 0; j < 3; j++ ) o.R.m[ i ][ j ] = a.R.m[ j ][ i ]; A3 v = o.R * a.t; for ( int i = 0; i < 3; i++ ) o.t[ i ] = -v[ i ]; return o; }
static UM::Quaternion qOf( const R3& R ) { double w2 = 1 + R.m[ 0 ][ 0 ] + R.m[ 1 ][ 1 ] + R.m[ 2 ][ 2 ], x2 = 1 + R.m[ 0 ][ 0 ] - R.m[ 1 ][ 1 ] - R.m[ 2 ][ 2 ], y2 = 1 - R.m[ 0 ][ 0 ] + R.m[ 1 ][ 1 ] - R.m[ 2 ][ 2 ], z2 = 1 - R.m[ 0 ][ 0 ] - R.m[ 1 ][ 1 ] + R.m[ 2 ][ 2 ]; double m = std::max( std::max( w2, x2 ), std::max( y2, z2 ) ), s = std::sqrt( m ) * 2; double q[ 4 ]; auto o = [&]( int a, int b, double sg ) { return ( R.m[ a ][ b ] + sg * R.m[ b ][ a ] ) / s; };
    if ( m == w2 ) { q[ 3 ] = s / 4; q[ 0 ] = o( 2, 1, -1 ); q[ 1 ] = o( 0, 2, -1 ); q[ 2 ] = o( 1, 0, -1 ); } else if ( m == x2 ) { q[ 0 ] = s / 4; q[ 3 ] = o( 2, 1, -1 ); q[ 1 ] = o( 0, 1, 1 ); q[ 2 ] = o( 0, 2, 1 ); } else if ( m == y2 ) { q[ 1 ] = s / 4; q[ 3 ] = o( 0, 2, -1 ); q[ 0 ] = o( 0, 1, 1 ); q[ 2 ] = o( 1, 2, 1 ); } else { q[ 2 ] = s / 4; q[ 3 ] = o( 1, 0, -1 ); q[ 0 ] = o( 0, 2, 1 ); q[ 1 ] = o( 1, 2, 1 ); } return UM::Quaternion( q[ 0 ], q[ 1 ], q[ 2 ], q[ 3 ] ); }
static UM::Pose poseOf( const RP& a ) { return UM::Pose( qOf( a.R ), toV3( a.t ) ); }
static UM::Pose flip( Rng& r, const UM::Pose& p ) { return r.coin() ? p : UM::Pose( neg( p.rotation() ), p.translation() ); }
static double err( const UM::Pose& p, const RP& t, double scale ) { double d = 0; RP q = rp( p ); for ( int i = 0; i < 3; i++ ) { for ( int j = 0; j < 3; j++ ) d = std::max( d, std::fabs( q.R.m[ i ][ j ] - t.R.m[ i ][ j ] ) ); double e = std::fabs( q.t[ i ] - t.t[ i ] ) / scale; if ( !( e <= d ) ) d = e; } return d == d ? d : 1e300; }

struct HE { std::vector< UM::Pose > hand, eye; RP X; double scale; std::string id; };
/// hand_i X eye_i is the same for all i
static HE makeHE( Rng& r, int n, double maxHidden )
{
    HE h; h.scale = r.pick( std::vector< double >{ 1, 0.01, 1000 } ); A3 ax = genAxis( r ); double an = r.coin( 0.1 ) ? 0 : r.uni( -maxHidden, maxHidden ); UM::Quaternion xq = refQuat( ax, an ); h.X = rp( UM::Pose( xq, r.coin( 0.15 ) ? V3( 0, 0, 0 ) : uniVec( r, h.scale ) ) ); RP C = rp( r.coin( 0.1 ) ? UM::Pose( UM::Quaternion(), V3( 0, 0, 0 ) ) : uniPose( r, 3 * h.scale ) ); double spread = r.uni( 0.4, 3 );
    int kind = r.in( 0, 2 ); UM::Pose base = uniPose( r, 2 * h.scale );
    for ( int i = 0; i < n; i++ ) { UM::Pose p = kind == 0 ? uniPose( r, 2 * h.scale ) : kind == 1 ? UM::Pose( refQuat( genAxis( r ), r.uni( -spread, spread ) ), uniVec( r, h.scale ) ) : base * UM::Pose( refQuat( genAxis( r ), r.in( 1, 7 ) * 0.39269908169872414 ), uniVec( r, h.scale ) ); h.hand.push_back( flip( r, p ) ); h.eye.push_back( flip( r, poseOf( inv( h.X ) * inv( rp( p ) ) * C ) ) ); }
    h.id = vh::fmt( "n %d kind %d scale %g hidden angle %.4f axis (%.3f,%.3f,%.3f)", n, kind, h.scale, an, ax[ 0 ], ax[ 1 ], ax[ 2 ] ); return h;
}
/// how well the relative motions determine the hidden rotation, and how far from half turns they stay
static void quality( const std::vector< UM::Pose >& p, bool all, double& cond, double& half )
{
    DM N = dm( 3, 3 ); half = 1; int n = p.size(); for ( int i = 0; i < n; i++ ) for ( int k = i + 1; k < ( all ? n : std::min( n, i + 2 ) ); k++ ) { UM::Quaternion q = qOf( ( inv( rp( p[ k ] ) ) * rp( p[ i ] ) ).R ); half = std::min( half, std::fabs( q.w() ) ); double v[ 3 ] = { q.x(), q.y(), q.z() }, s = v[ 0 ] * v[ 0 ] + v[ 1 ] * v[ 1 ] + v[ 2 ] * v[ 2 ]; for ( int a = 0; a < 3; a++ ) for ( int b = 0; b < 3; b++ ) N[ a ][ b ] += ( a == b ? s : 0 ) - v[ a ] * v[ b ]; } std::vector< double > e = symEig( N ); cond = *std::min_element( e.begin(), e.end() );
}
template< class T > static std::vector< UM::Matrix< T, 4, 4 > > mats( const std::vector< UM::Pose >& p ) { std::vector< UM::Matrix< T, 4, 4 > > o; for ( auto& q : p ) { RP a = rp( q ); UM::Matrix< T, 4, 4 > m; for ( int i = 0; i < 3; i++ ) { for ( int j = 0; j < 3; j++ ) m( i, j ) = T( a.R.m[ i ][ j ] ); m( i, 3 ) = T( a.t[ i ] ); m( 3, i ) = 0; } m( 3, 3 ) = 1; o.push_back( m ); } return o; }

SECTION( "tsai", 4000, 80000 )
{
    HE h = makeHE( r, r.coin( 0.3 ) ? 3 : r.in( 3, 12 ), 2.9 ); bool all = r.coin(); double c, hf; quality( h.hand, all, c, hf ); vh::sample( h.id ); if ( c < 1e-2 || hf < 1e-3 ) { vh::event( "weak-motion" ); return; } double k = ( 1 + 1 / c ) / hf * 20;
    const std::vector< UM::Pose > h0( h.hand ), e0( h.eye ); UM::Pose p = UH::performHandEyeCalibration( h.hand, h.eye, all ); vh::small( "tsai.pose", err( p, h.X, h.scale ), 1e-12 * k, h.id ); vh::near_( "tsai.unit", qnorm( p.rotation() ), 1, 1e-9, h.id ); p = UH::performHandEyeCalibration( mats< double >( h.hand ), mats< double >( h.eye ), all ); vh::small( "tsai.matrix", err( p, h.X, h.scale ), 1e-12 * k, h.id ); 
    if ( c > 0.1 && hf > 0.05 ) { vh::event( "single-precision" ); p = UH::performHandEyeCalibration( mats< float >( h.hand ), mats< float >( h.eye ), all ); vh::small( "tsai.float", err( p, h.X, h.scale ), 1e-5 * k, h.id ); }
    bool same = true; for ( std::size_t i = 0; i < h0.size(); i++ ) same &= h0[ i ] == h.hand[ i ] && e0[ i ] == h.eye[ i ]; vh::ok( "tsai.inputs", same, h.id );
}
SECTION( "dual", 4000, 80000 )
{
    HE h = makeHE( r, r.coin( 0.3 ) ? 3 : r.in( 3, 10 ), M_PI ); double c, hf; quality( h.hand, true, c, hf ); h.id += " dual"; vh::sample( h.id ); if ( c < 1e-2 || hf < 1e-4 ) { vh::event( "weak-motion" ); return; } UM::Pose p; bool found = UH::estimatePose6D_6D6D( h.hand, p, h.eye );
    if ( c > 0.5 && h.scale == 1 ) vh::ok( "dual.found", found, h.id + vh::fmt( " c %g hf %g", c, hf ) ); vh::event( found ? "dual-found" : "dual-refused" ); if ( found ) { vh::small( "dual.pose", err( p, h.X, h.scale ), 1e-7 * ( 1 + 1 / c ), h.id ); vh::near_( "dual.unit", qnorm( p.rotation() ), 1, 1e-9, h.id ); }
    // relative motions as dual quaternions
    std::vector< UM::Vector< double, 8 > > a, b; UH::generate_relative_6DPoses( h.hand, a, true ); UH::generate_relative_6DPoses( h.eye, b, false ); std::size_t m = h.hand.size() * ( h.hand.size() - 1 ) / 2; vh::ok( "relative.count", a.size() == m && b.size() == m, h.id ); std::size_t x = 0; for ( std::size_t i = 0; i < h.hand.size(); i++ ) for ( std::size_t j = i + 1; j < h.hand.size() && x < a.size(); j++, x++ ) { RP ra = inv( rp( h.hand[ i ] ) ) * rp( h.hand[ j ] ), rb = rp( h.eye[ i ] ) * inv( rp( h.eye[ j ] ) ); vh::small( "relative.hand", err( UM::pose_cast< UM::Pose >()( a[ x ] ), ra, h.scale ), 1e-11, h.id ); vh::small( "relative.eye", err( UM::pose_cast< UM::Pose >()( b[ x ] ), rb, h.scale ), 1e-11, h.id ); }
    UM::Pose q; std::vector< std::size_t > o( a.size() ); for ( std::size_t i = 0; i < o.size(); i++ ) o[ i ] = i; r.shuffle( o ); std::vector< UM::Vector< double, 8 > > a2, b2; for ( auto i : o ) { a2.push_back( a[ i ] ); b2.push_back( b[ i ] ); if ( r.coin() ) for ( int k = 0; k < 8; k++ ) b2.back()( k ) = -b2.back()( k ); } bool f2 = UH::estimatePose6D_6D6D( a2, q, b2 ); vh::ok( "dual.same", f2 == found, h.id ); if ( f2 ) vh::small( "dual.relative", err( q, h.X, h.scale ), 1e-7 * ( 1 + 1 / c ), h.id );
    // exact pairs are fused the same way by the two methods
    if ( found && hf > 1e-3 ) { UM::Pose t = UH::performHandEyeCalibration( h.hand, h.eye, true ); double w = std::fabs( qOf( h.X.R ).w() ); if ( w > 0.05 && c > 0.1 ) vh::small( "methods", err( t, rp( p ), h.scale ), 1e-6 * ( 1 + 1 / c ) / w, h.id ); }
}
SECTION( "select", 1500, 20000 )
{
    HE h = makeHE( r, r.in( 4, 14 ), M_PI ); std::string id = h.id + " select"; if ( r.coin( 0.15 ) ) { for ( std::size_t i = 1; i < h.hand.size(); i++ ) if ( r.coin( 0.6 ) ) { h.hand[ i ] = h.hand[ 0 ]; h.eye[ i ] = h.eye[ 0 ]; } id += " repeated"; } std::size_t want = r.in( 1, 10 ); std::vector< UM::Pose > eo, ho; vh::sample( id ); UH::select_6DPoses( h.hand, h.eye, want, eo, ho ); vh::ok( "select.size", eo.size() == ho.size() && eo.size() <= std::min( want, h.hand.size() - 1 ) && eo.size() >= 1, id + vh::fmt( " %d of %d", int( eo.size() ), int( want ) ) );
    for ( std::size_t x = 0; x < eo.size() && x < ho.size(); x++ ) { double best = 1e300; for ( std::size_t i = 0; i < h.hand.size(); i++ ) for ( std::size_t j = i + 1; j < h.hand.size(); j++ ) best = std::min( best, std::max( err( eo[ x ], inv( rp( h.hand[ i ] ) ) * rp( h.hand[ j ] ), h.scale ), err( ho[ x ], rp( h.eye[ i ] ) * inv( rp( h.eye[ j ] ) ), h.scale ) ) ); vh::small( "select.pairs", best, 1e-9, id ); }
}
SECTION( "incremental", 1500, 20000 )
{
    HE h = makeHE( r, r.in( 8, 20 ), 2.9 ); h.id += " incremental"; double c, hf; quality( h.hand, true, c, hf ); vh::sample( h.id ); if ( hf < 1e-4 ) return; UH::HandEyeCalibration< double > cal; UM::Pose p; RP want = inv( h.X ); std::size_t step = r.in( 1, 6 ); bool any = false;
    for ( std::size_t n = 3; ; n = std::min( n + step, h.hand.size() ) ) { std::vector< UM::Pose > a( h.eye.begin(), h.eye.begin() + n ), b( h.hand.begin(), h.hand.begin() + n ); if ( cal.estimatePose6D( a, p, b ) ) { any = true; vh::event( "incremental-found" ); vh::small( "incremental.pose", err( p, want, h.scale ), 1e-6, h.id + vh::fmt( " after %d", int( n ) ) ); } else vh::event( "incremental-refused" ); vh::ok( "incremental.pairs", cal.relativePosesAllA.size() == n * ( n - 1 ) / 2 && cal.relativePosesAllB.size() == n * ( n - 1 ) / 2, h.id ); if ( n == h.hand.size() ) break; } (void) any;
    UM::Pose q; std::vector< UM::Pose > s( h.eye.begin(), h.eye.begin() + 2 ), s2( h.hand.begin(), h.hand.begin() + 2 ), l( h.eye ); UH::HandEyeCalibration< double > fresh; vh::ok( "incremental.tooFew", !fresh.estimatePose6D( s, q, s2 ), h.id ); vh::ok( "incremental.mismatch", !fresh.estimatePose6D( l, q, s2 ) && !fresh.estimatePose6D( s, q, h.hand ), h.id );
}
SECTION( "online", 2000, 30000 )
{
    HE h = makeHE( r, r.in( 6, 30 ), 2.6 ); h.id += " online"; double c, hf; quality( h.hand, false, c, hf ); vh::sample( h.id ); if ( c < 0.3 || hf < 0.02 ) { vh::event( "weak-motion" ); return; } UA::OnlineRotHec o; UA::RotationHecKalmanFilter k; UM::Quaternion X = qOf( h.X.R ); double before = 1e300; int n = h.hand.size();
    for ( int rep = 0; rep < 3; rep++ ) for ( int i = 0; i + 1 < n; i++ ) { UM::Quaternion a = qOf( ( inv( rp( h.hand[ i + 1 ] ) ) * rp( h.hand[ i ] ) ).R ), b = qOf( ( rp( h.eye[ i + 1 ] ) * inv( rp( h.eye[ i ] ) ) ).R ); a = r.coin() ? a : neg( a ); b = r.coin() ? b : neg( b ); o.addMeasurement( a, b ); k.addMeasurement( a, b ); UM::Matrix< double, 4, 4 > cv = k.getCovariance(); vh::near_( "online.filterUnit", qnorm( k.getResult() ), 1, 1e-9, h.id ); vh::near_( "online.unit", qnorm( o.computeResult() ), 1, 1e-9, h.id ); double tr = cv( 0, 0 ) + cv( 1, 1 ) + cv( 2, 2 ) + cv( 3, 3 ); vh::ok( "online.shrinks", tr <= before * ( 1 + 1e-6 ) + 1e-9 || i == 0, h.id + vh::fmt( " %g > %g", tr, before ) ); before = tr; }
    double w = std::fabs( X.w() ); vh::small( "online.rotation", rotDist( o.computeResult(), X ), 1e-4 * ( 1 + 1 / c ) / w, h.id ); vh::small( "online.filter", rotDist( k.getResult(), X ), 2e-3 * ( 1 + 1 / c ) / w, h.id );
}
struct TT { std::vector< UM::Pose > p; V3 pw, pm; double scale, low; std::string id; };
static TT makeTip( Rng& r, double noise )
{
    TT t; t.scale = r.pick( std::vector< double >{ 1, 1e-3, 1000 } ); t.pm = r.coin( 0.1 ) ? V3( 0, 0, 0 ) : uniVec( r, t.scale ); t.pw = genVec( r, 3 * t.scale ); int n = r.coin( 0.2 ) ? 3 : r.in( 3, 40 ), kind = r.in( 0, 1 ); UM::Quaternion base = uniQuat( r ); for ( int i = 0; i < n; i++ ) { UM::Quaternion q = kind ? uniQuat( r ) : base * refQuat( genAxis( r ), r.uni( -0.7, 0.7 ) ); A3 v = refMatrix( q ) * toA3( t.pm ); V3 tr( t.pw( 0 ) - v[ 0 ] + noise * t.scale * r.gauss(), t.pw( 1 ) - v[ 1 ] + noise * t.scale * r.gauss(), t.pw( 2 ) - v[ 2 ] + noise * t.scale * r.gauss() ); t.p.push_back( flip( r, UM::Pose( q, tr ) ) ); }
    DM N = dm( 6, 6 ); for ( auto& p : t.p ) { R3 R = refMatrix( p.rotation() ); DM J = dm( 3, 6 ); for ( int i = 0; i < 3; i++ ) { for ( int j = 0; j < 3; j++ ) J[ i ][ j ] = R.m[ i ][ j ]; J[ i ][ 3 + i ] = -1; } N = add( N, mul( trans( J ), J ) ); } std::vector< double > e = symEig( N ); t.low = *std::min_element( e.begin(), e.end() ) / n; t.id = vh::fmt( "tip n %d kind %d scale %g noise %g ", n, kind, t.scale, noise ) + str( t.pw ) + str( t.pm ); return t;
}
static double tipCost( const TT& t, const V3& pw, const V3& pm ) { double s = 0; for ( auto& p : t.p ) { double d = dist( act( p, pm ), pw ) / t.scale; s += d * d; } return s; }
template< class T > static UM::Vector< T, 3 > nv() { return UM::Vector< T, 3 >( T( 0 ), T( 0 ), T( 0 ) ); }
template< class T > static V3 d3( const UM::Vector< T, 3 >& v ) { return V3( v( 0 ), v( 1 ), v( 2 ) ); }
SECTION( "tip", 4000, 80000 )
{
    TT t = makeTip( r, 0 ); vh::sample( t.id ); if ( t.low < 1e-3 ) { vh::event( "weak-motion" ); return; } double k = 1e-13 / t.low * 30; V3 w = nv< double >(), m = nv< double >(); const std::vector< UM::Pose > p0( t.p ); UT::tipCalibration( t.p, m, w ); vh::small( "tip.world", dist( w, t.pw ) / t.scale, k, t.id ); vh::small( "tip.local", dist( m, t.pm ) / t.scale, k, t.id );
    UM::Vector< double, 3 > w2 = nv< double >(), m2 = nv< double >(); vh::ok( "tip.found", UT::estimatePosition3D_6D( w2, t.p, m2 ), t.id ); vh::small( "tip.same", ( dist( w, w2 ) + dist( m, m2 ) ) / t.scale, k, t.id ); UM::Vector< float, 3 > wf = nv< float >(), mf = nv< float >(); if ( t.low > 0.05 ) { vh::ok( "tip.foundFloat", UT::estimatePosition3D_6D( wf, t.p, mf ), t.id ); vh::small( "tip.float", ( dist( d3( wf ), t.pw ) + dist( d3( mf ), t.pm ) ) / t.scale, 2e-5 / t.low, t.id ); }
    std::vector< UM::Pose > o( t.p ); r.shuffle( o ); for ( auto& p : o ) p = flip( r, p ); vh::ok( "tip.refined", UT::estimatePosition3D_6D( w2, o, m2, UO::OptTerminate( 20, 1e-9 ) ), t.id ); vh::small( "tip.orderSign", ( dist( w2, t.pw ) + dist( m2, t.pm ) ) / t.scale, 10 * k + 1e-9, t.id ); bool same = true; for ( std::size_t i = 0; i < p0.size(); i++ ) same &= p0[ i ] == t.p[ i ]; vh::ok( "tip.inputs", same, t.id );
}
SECTION( "tip.noisy", 2000, 40000 )
{
    TT t = makeTip( r, r.logu( 1e-5, 0.05 ) ); vh::sample( t.id ); if ( t.low < 1e-2 ) { vh::event( "weak-motion" ); return; } V3 w = nv< double >(), m = nv< double >(); vh::ok( "noisy.found", UT::estimatePosition3D_6D( w, t.p, m ), t.id ); double c = tipCost( t, w, m ); vh::ok( "noisy.leastSquares", c <= tipCost( t, t.pw, t.pm ) * ( 1 + 1e-9 ), t.id ); for ( int k = 0; k < 4; k++ ) { double s = r.logu( 1e-4, 0.3 ) * t.scale; V3 w2( w ), m2( m ); for ( int i = 0; i < 3; i++ ) { w2( i ) += s * r.uni( -1, 1 ); m2( i ) += s * r.uni( -1, 1 ); } vh::ok( "noisy.optimal", c <= tipCost( t, w2, m2 ) * ( 1 + 1e-9 ), t.id ); }
    V3 w3 = nv< double >(), m3 = nv< double >(); vh::ok( "noisy.refined", UT::estimatePosition3D_6D( w3, t.p, m3, UO::OptTerminate( 50, 1e-9 ) ), t.id ); vh::ok( "noisy.notWorse", tipCost( t, w3, m3 ) <= c * ( 1 + 1e-6 ), t.id + vh::fmt( " %g > %g", tipCost( t, w3, m3 ), c ) );
    double mean = 0, var = 0; for ( auto& p : t.p ) mean += dist( act( p, m ), w ); mean /= t.p.size(); for ( auto& p : t.p ) { double d = dist( act( p, m ), w ) - mean; var += d * d; } std::pair< double, double > e = UT::estimatePosition3DError_6D( w, t.p, m ); vh::near_( "noisy.mean", e.first / t.scale, mean / t.scale, 1e-9 * mean / t.scale + 1e-12, t.id ); vh::near_( "noisy.deviation", e.second / t.scale, std::sqrt( var / ( t.p.size() - 1 ) ) / t.scale, 1e-9 * mean / t.scale + 1e-12, t.id );
    UM::Vector< float, 3 > wf( float( w( 0 ) ), float( w( 1 ) ), float( w( 2 ) ) ), mf( float( m( 0 ) ), float( m( 1 ) ), float( m( 2 ) ) ); std::pair< float, float > ef = UT::estimatePosition3DError_6D( wf, t.p, mf ); vh::near_( "noisy.meanFloat", ef.first / t.scale, mean / t.scale, 1e-4 * mean / t.scale + 1e-5, t.id );
}
SECTION( "errors", 400, 4000 )
{
    HE h = makeHE( r, r.in( 3, 8 ), 2 ); std::vector< UM::Pose > s( h.eye ); s.pop_back(); vh::sample( h.id ); bool all = r.coin(); vh::ok( "errors.tsaiMismatch", vh::throws( [&] { UH::performHandEyeCalibration( h.hand, s, all ); } ) && vh::throws( [&] { UH::performHandEyeCalibration( s, h.hand, all ); } ) && vh::throws( [&] { UH::performHandEyeCalibration( mats< double >( h.hand ), mats< double >( s ), all ); } ) && vh::throws( [&] { UH::performHandEyeCalibration( mats< float >( s ), mats< float >( h.hand ), all ); } ), h.id ); UM::Pose p; vh::ok( "errors.dualMismatch", !UH::estimatePose6D_6D6D( h.hand, p, s ) && !UH::estimatePose6D_6D6D( s, p, h.hand ), h.id );
    int n = r.in( 0, 2 ); std::vector< UM::Pose > a( h.hand.begin(), h.hand.begin() + n ), b( h.eye.begin(), h.eye.begin() + n ); vh::ok( "errors.tsaiFew", vh::throws( [&] { UH::performHandEyeCalibration( a, b, all ); } ) && vh::throws( [&] { UH::performHandEyeCalibration( mats< double >( a ), mats< double >( b ), all ); } ) && vh::throws( [&] { UH::performHandEyeCalibration( mats< float >( a ), mats< float >( b ), all ); } ), vh::fmt( "%d", n ) ); vh::ok( "errors.dualFew", !UH::estimatePose6D_6D6D( a, p, b ), vh::fmt( "%d", n ) );
    V3 w = nv< double >(), m = nv< double >(); UM::Vector< float, 3 > wf = nv< float >(), mf = nv< float >(); vh::ok( "errors.tipFew", !UT::estimatePosition3D_6D( w, a, m ) && !UT::estimatePosition3D_6D( wf, a, mf ) && !UT::estimatePosition3D_6D( w, a, m, UO::OptTerminate( 10, 1e-6 ) ), vh::fmt( "%d", n ) ); vh::ok( "errors.tipCalibration", vh::throws( [&] { UT::tipCalibration( a, m, w ); } ), vh::fmt( "%d", n ) );
    // motions around a single axis leave the rotation about it open
    A3 ax = genAxis( r ); std::vector< UM::Pose > sa, sb; for ( int i = 0; i < 6; i++ ) { UM::Pose q( refQuat( ax, r.uni( -1.5, 1.5 ) ), uniVec( r ) ); sa.push_back( q ); sb.push_back( poseOf( inv( h.X ) * inv( rp( q ) ) ) ); } UM::Pose q; vh::ok( "errors.dualParallel", !UH::estimatePose6D_6D6D( sa, q, sb ), h.id );
}
VH_MAIN
