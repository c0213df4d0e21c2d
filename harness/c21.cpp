// C21: the assignment solver against an independent optimum (subset dynamic programming, and the
// shortest-augmenting-path method with its dual certificate for larger matrices).
#include "um.h"
#include <utMath/Graph/Munkres.h>
using namespace um;
#if defined( __has_feature )
#if __has_feature( address_sanitizer )
extern "C" std::size_t __sanitizer_get_current_allocated_bytes();
#define VERIF_ALLOC 1
#endif
#endif
template< class T > using MX = UM::Matrix< T, 0, 0 >;
template< class T > static MX< T > mx( const DM& c ) { MX< T > m( c.size(), c.empty() ? 0 : c[ 0 ].size() ); for ( std::size_t i = 0; i < c.size(); i++ ) for ( std::size_t j = 0; j < c[ 0 ].size(); j++ ) m( i, j ) = T( c[ i ][ j ] ); return m; }
/// least cost of assigning every element of the smaller side
static double dpBest( const DM& c0 )
{
    DM c = c0.size() <= c0[ 0 ].size() ? c0 : trans( c0 ); int n = c.size(), m = c[ 0 ].size(); std::vector< double > b( std::size_t( 1 ) << m, 1e300 ); b[ 0 ] = 0;
    for ( std::size_t s = 0; s < b.size(); s++ ) { int k = __builtin_popcountll( s ); if ( k >= n || b[ s ] >= 1e300 ) continue; for ( int j = 0; j < m; j++ ) if ( !( s >> j & 1 ) ) b[ s | std::size_t( 1 ) << j ] = std::min( b[ s | std::size_t( 1 ) << j ], b[ s ] + c[ k ][ j ] ); }
    double o = 1e300; for ( std::size_t s = 0; s < b.size(); s++ ) if ( __builtin_popcountll( s ) == n ) o = std::min( o, b[ s ] ); return o;
}
/// shortest augmenting paths; the dual value is a lower bound, so primal == dual certifies the optimum
static double sapBest( const DM& c0, double& dual )
{
    DM c = c0.size() <= c0[ 0 ].size() ? c0 : trans( c0 ); int n = c.size(), m = c[ 0 ].size(); std::vector< double > u( n + 1 ), v( m + 1 ); std::vector< int > p( m + 1 ), way( m + 1 );
    for ( int i = 1; i <= n; i++ ) { p[ 0 ] = i; int j0 = 0; std::vector< double > mn( m + 1, 1e300 ); std::vector< char > used( m + 1 ); do { used[ j0 ] = 1; int i0 = p[ j0 ], j1 = 0; double d = 1e300; for ( int j = 1; j <= m; j++ ) if ( !used[ j ] ) { double cur = c[ i0 - 1 ][ j - 1 ] - u[ i0 ] - v[ j ]; if ( cur < mn[ j ] ) { mn[ j ] = cur; way[ j ] = j0; } if ( mn[ j ] < d ) { d = mn[ j ]; j1 = j; } } for ( int j = 0; j <= m; j++ ) if ( used[ j ] ) { u[ p[ j ] ] += d; v[ j ] -= d; } else mn[ j ] -= d; j0 = j1; } while ( p[ j0 ] ); do { int j1 = way[ j0 ]; p[ j0 ] = p[ j1 ]; j0 = j1; } while ( j0 ); }
    double s = 0; dual = 0; for ( int j = 1; j <= m; j++ ) if ( p[ j ] ) s += c[ p[ j ] - 1 ][ j - 1 ]; for ( int i = 1; i <= n; i++ ) dual += u[ i ]; for ( int j = 1; j <= m; j++ ) dual += v[ j ]; return s;
}
struct Kind { DM c; std::string name; bool integer; };
static Kind gen( Rng& r, int maxN, bool square )
{
    Kind k; int n = r.in( 1, maxN ), m = square || r.coin( 0.3 ) ? n : r.in( 1, maxN ); if ( r.coin( 0.05 ) ) n = square ? m : n; k.c = dm( n, m ); int w = r.in( 0, 9 ); double s = r.coin() ? 1 : r.logu( 1e-6, 1e6 ); static const char* nm[] = { "uniform", "small integers", "zero/one", "equal", "negative", "mixed sign", "outer product", "rank one sum", "spread", "sorted" }; k.name = vh::fmt( "%dx%d %s", n, m, nm[ w ] ); k.integer = w == 1 || w == 2 || w == 3 || w == 6 || w == 9; std::vector< double > a( n ), b( m ); for ( auto& x : a ) x = k.integer ? r.in( 0, 9 ) : r.uni( 0, 1 ); for ( auto& x : b ) x = k.integer ? r.in( 0, 9 ) : r.uni( 0, 1 ); double e = k.integer ? r.in( -5, 5 ) : r.uni( -1, 1 );
    for ( int i = 0; i < n; i++ ) for ( int j = 0; j < m; j++ ) { double x = 0; switch ( w ) { case 0: x = r.uni( 0, s ); break; case 1: x = r.in( 0, 4 ); break; case 2: x = r.in( 0, 1 ); break; case 3: x = e; break; case 4: x = -r.uni( 0, s ); break; case 5: x = r.uni( -s, s ); break; case 6: x = a[ i ] * b[ j ]; break; case 7: x = a[ i ] + b[ j ]; break; case 8: x = r.logu( 1e-6, 1e3 ); break; default: x = ( i + 1 ) * ( j + 1 ); } k.c[ i ][ j ] = x; }
    return k;
}
template< class T > struct Ans { std::vector< std::size_t > rows, cols; DM mask; };
template< class T > static Ans< T > answer( UM::Graph::Munkres< T >& m ) { Ans< T > a; a.rows = m.getRowMatchList(); a.cols = m.getColMatchList(); MX< T > k( m.getMaskMatrix() ); a.mask = fromM( k ); return a; }
/// one-to-one on the smaller side, lists and mask agree; returns the total cost
template< class T > static double judge( const std::string& ty, const DM& c, const Ans< T >& a, const std::string& id )
{
    std::size_t n = c.size(), m = c[ 0 ].size(), N = std::max( n, m ); bool ok = a.rows.size() == N && a.cols.size() == N && a.mask.size() == N; vh::ok( ty + ".size", ok, id ); if ( !ok ) return std::nan( "" );
    std::set< std::size_t > used; std::size_t cnt = 0; double s = 0; bool inv = true; for ( std::size_t i = 0; i < n; i++ ) if ( a.rows[ i ] < m ) { cnt++; used.insert( a.rows[ i ] ); s += c[ i ][ a.rows[ i ] ]; inv &= a.cols[ a.rows[ i ] ] == i; } vh::ok( ty + ".oneToOne", used.size() == cnt && cnt == std::min( n, m ), id ); vh::ok( ty + ".lists", inv, id ); bool mk = true; for ( std::size_t i = 0; i < N; i++ ) for ( std::size_t j = 0; j < N; j++ ) mk &= a.mask[ i ][ j ] == ( a.rows[ i ] == j ? 1 : 0 ); vh::ok( ty + ".mask", mk, id ); return s;
}
static double tolOf( const DM& c, bool fl, bool integer ) { double s = 0; for ( auto& x : c ) for ( double v : x ) s = std::max( s, std::fabs( v ) ); return integer ? 1e-9 : ( fl ? 2e-6 : 1e-14 ) * s * ( 4 + c.size() + c[ 0 ].size() ) * 4; }
template< class T > static void solve( Rng& r, const std::string& ty, int maxN, bool big )
{
    bool fl = std::is_same< T, float >::value; Kind k = gen( r, maxN, r.coin( 0.3 ) ); MX< T > m = mx< T >( k.c ); DM c = fromM( m ); std::string id = ty + " " + k.name; if ( c.size() * c[ 0 ].size() <= 25 ) { id += ":"; for ( auto& row : c ) { id += " |"; for ( double x : row ) id += vh::fmt( " %.9g", x ); } } vh::sample( id ); vh::event( c.size() == c[ 0 ].size() ? "square" : c.size() < c[ 0 ].size() ? "wide" : "tall" );
    UM::Graph::Munkres< T > s( m ); s.solve(); double got = judge( ty, c, answer( s ), id ), want; if ( big ) { double dual; want = sapBest( c, dual ); if ( std::fabs( want - dual ) > tolOf( c, false, k.integer ) * 10 ) { vh::event( "reference-not-certified" ); return; } } else want = dpBest( c ); vh::near_( ty + ".optimal", got, want, tolOf( c, fl, k.integer ), id );
    vh::ok( ty + ".input", maxdiff( fromM( m ), c ) == 0, id ); if ( k.name.find( "small" ) != std::string::npos ) vh::event( "ties" );
}
SECTION( "small.double", 12000, 300000 ) { solve< double >( r, "solve", 7, false ); }
SECTION( "small.float", 8000, 150000 ) { solve< float >( r, "solvef", 7, false ); }
SECTION( "medium.double", 400, 8000 ) { solve< double >( r, "solve", 12, false ); }
SECTION( "large.double", 300, 6000 ) { solve< double >( r, "solve", 40, true ); }
SECTION( "large.float", 200, 3000 ) { solve< float >( r, "solvef", 30, true ); }
/// every 3x3 matrix over {0,1,2}: all patterns of ties
SECTION( "exhaustive", 19683, 19683 )
{
    (void)r; DM c = dm( 3, 3 ); uint64_t q = idx; for ( auto& row : c ) for ( double& x : row ) { x = q % 3; q /= 3; } r.u64(); MX< double > m = mx< double >( c ); UM::Graph::Munkres< double > s( m ); s.solve(); std::string id; for ( auto& row : c ) for ( double x : row ) id += vh::fmt( "%g ", x ); vh::near_( "exhaustive.optimal", judge( "exhaustive", c, answer( s ), id ), dpBest( c ), 1e-12, id );
}
SECTION( "exhaustive.rect", 4096, 4096 )
{
    bool tall = idx & 1; DM c = dm( 2, 4 ); uint64_t q = idx; for ( auto& row : c ) for ( double& x : row ) { x = q % 3; q /= 3; } r.u64(); if ( tall ) c = trans( c ); MX< double > m = mx< double >( c ); UM::Graph::Munkres< double > s( m ); s.solve(); std::string id; for ( auto& row : c ) { for ( double x : row ) id += vh::fmt( "%g ", x ); id += "|"; } vh::near_( "exhaustive.optimal", judge( "exhaustive", c, answer( s ), id ), dpBest( c ), 1e-12, id );
}
/// a constant added to a row or column of a square matrix leaves the optimum where it was
SECTION( "shift", 3000, 60000 )
{
    Kind k = gen( r, 7, true ); DM c = k.c; double sh = 0; for ( std::size_t i = 0; i < c.size(); i++ ) if ( r.coin() ) { double d = r.in( -9, 9 ); sh += d; for ( double& x : c[ i ] ) x += d; } for ( std::size_t j = 0; j < c[ 0 ].size(); j++ ) if ( r.coin() ) { double d = r.in( -9, 9 ); sh += d; for ( auto& row : c ) row[ j ] += d; } std::string id = k.name; vh::sample( id ); MX< double > a = mx< double >( k.c ), b = mx< double >( c ); UM::Graph::Munkres< double > s( a ), t( b ); s.solve(); t.solve(); double x = judge( "shift", k.c, answer( s ), id ), y = judge( "shift", k.c, answer( t ), id ); vh::near_( "shift.cost", y, x, tolOf( k.c, false, k.integer ) + tolOf( c, false, k.integer ), id );
}
SECTION( "reuse", 2000, 40000 )
{
    UM::Graph::Munkres< double > s; std::string id; if ( r.coin( 0.2 ) ) { s.solve(); vh::ok( "reuse.empty", s.getRowMatchList().empty() && s.getColMatchList().empty() ); id = "empty;"; } int rounds = r.in( 2, 6 ); for ( int q = 0; q < rounds; q++ ) { Kind k = gen( r, 6, r.coin( 0.3 ) ); id += k.name + ";"; MX< double > m = mx< double >( k.c ), m2( m ); s.setMatrix( m ); s.solve(); UM::Graph::Munkres< double > f( m2 ); f.solve(); auto a = answer( s ), b = answer( f ); vh::ok( "reuse.same", a.rows == b.rows && a.cols == b.cols, id ); vh::near_( "reuse.optimal", judge( "reuse", k.c, a, id ), dpBest( k.c ), tolOf( k.c, false, k.integer ), id ); if ( r.coin( 0.3 ) ) { s.solve(); auto c = answer( s ); vh::ok( "reuse.again", c.rows == a.rows && c.cols == a.cols, id ); } if ( r.coin( 0.2 ) ) { UM::Graph::Munkres< double > copy( s ); auto c = answer( copy ); vh::ok( "reuse.copy", c.rows == a.rows, id ); copy.setMatrix( m2 ); copy.solve(); UM::Graph::Munkres< double > as; as = copy; auto d = answer( as ); vh::ok( "reuse.copy", d.rows == a.rows, id ); } } vh::sample( id );
}
#ifdef VERIF_ALLOC
SECTION( "memory", 40, 400 )
{
    Kind k = gen( r, 10, false ); MX< double > m = mx< double >( k.c ); auto once = [&] { UM::Graph::Munkres< double > s( m ); s.solve(); s.setMatrix( m ); s.solve(); }; once(); std::size_t a = __sanitizer_get_current_allocated_bytes(); for ( int i = 0; i < 30; i++ ) once(); std::size_t b = __sanitizer_get_current_allocated_bytes(); vh::ok( "memory.grows", b < a + 30, vh::fmt( "%s: %zu bytes more after 30 calls", k.name.c_str(), b - a ) );
}
#endif
VH_MAIN
