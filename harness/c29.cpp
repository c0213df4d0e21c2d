// C29: layouts, thresholds, rotation and configuration of the log. Independent formatter, a model of the
// rotated files and a model of the configured hierarchy observe what the real code writes.
#include "vh.h"
#include <algorithm>
#include <climits>
#include <ctime>
#include <fstream>
#include <log4cpp/Appender.hh>
#include <log4cpp/BasicConfigurator.hh>
#include <log4cpp/BasicLayout.hh>
#include <log4cpp/Category.hh>
#include <log4cpp/FileAppender.hh>
#include <log4cpp/NDC.hh>
#include <log4cpp/OstreamAppender.hh>
#include <log4cpp/PatternLayout.hh>
#include <log4cpp/PropertyConfigurator.hh>
#include <log4cpp/RollingFileAppender.hh>
#include <log4cpp/SimpleConfigurator.hh>
#include <log4cpp/SimpleLayout.hh>
#include <log4cpp/StringQueueAppender.hh>
#include <memory>
#include <sys/stat.h>
#include <sys/time.h>
#include <dirent.h>
#include <utUtil/Logging.h>
using namespace vh;
using namespace log4cpp;
static const std::vector< int > levels = { 0, 100, 200, 300, 400, 500, 600, 700, 750 };
static const char* lname( int p )
{
    switch ( p ) { case 0: return "FATAL"; case 100: return "ALERT"; case 200: return "CRIT"; case 300: return "ERROR"; case 400: return "WARN"; case 500: return "NOTICE"; case 600: return "INFO"; case 700: return "DEBUG"; case 750: return "TRACE"; case 800: return "NOTSET"; default: return "UNKNOWN"; }
}
static std::string scratch() { const char* e = getenv( "VERIF_SCRATCH" ); return e ? e : "."; }
static std::string slurp( const std::string& f ) { std::ifstream i( f.c_str(), std::ios::binary ); std::ostringstream o; o << i.rdbuf(); return o.str(); }
static void spit( const std::string& f, const std::string& s ) { std::ofstream o( f.c_str(), std::ios::binary ); o << s; }
static bool exists( const std::string& f ) { struct stat sb; return stat( f.c_str(), &sb ) == 0; }
static void rmfile( const std::string& f ) { remove( f.c_str() ); }
static uint64_t uniq = 0;
static std::string uname( const char* p ) { return p + std::to_string( getpid() ) + "x" + std::to_string( uniq++ ); }
static std::string text( Rng& r, int lo, int hi, const char* avoid = "" )
{
    std::string s; int L = r.in( lo, hi );
    while ( int( s.size() ) < L ) { char c = r.coin( 0.03 ) ? char( r.in( 128, 255 ) ) : char( r.in( 32, 126 ) ); if ( !strchr( avoid, c ) ) s += c; }
    return s;
}
static std::string catName( Rng& r ) { std::string s; int n = r.in( 1, 5 ); for ( int i = 0; i < n; i++ ) s += ( i ? "." : "" ) + std::string( size_t( r.in( 1, 6 ) ), char( 'a' + r.in( 0, 25 ) ) ); return s; }
struct Zone { Zone() { setenv( "TZ", "CET-1CEST,M3.5.0,M10.5.0/3", 1 ); tzset(); } } zone;

/// one piece of a pattern and what it must print
struct Piece { std::string src; std::function< std::string( const LoggingEvent& ) > want; };
static std::string fit( const std::string& s, int w, int mx )
{
    std::string o = mx > 0 ? s.substr( 0, mx ) : s; size_t W = std::abs( w );
    if ( o.size() < W ) { if ( w < 0 ) o += std::string( W - o.size(), ' ' ); else o = std::string( W - o.size(), ' ' ) + o; }
    return o;
}
static std::string when( const LoggingEvent& e, const std::string& f )
{
    time_t t = e.timeStamp.getSeconds(); struct tm tmv; localtime_r( &t, &tmv );
    std::string g; for ( size_t i = 0; i < f.size(); i++ ) if ( f[ i ] == '%' && i + 1 < f.size() && f[ i + 1 ] == 'l' && g.find( '\1' ) == std::string::npos ) { g += '\1'; i++; } else g += f[ i ];
    size_t m = g.find( '\1' ); std::string a = m == std::string::npos ? g : g.substr( 0, m ), b = m == std::string::npos ? "" : g.substr( m + 1 ), out;
    char ms[ 16 ]; snprintf( ms, 16, "%03d", e.timeStamp.getMicroSeconds() / 1000 );
    auto put = [ & ]( const std::string& x ) { if ( x.empty() ) return; std::vector< char > buf( 20000 ); size_t n = strftime( &buf[ 0 ], buf.size(), x.c_str(), &tmv ); out.append( &buf[ 0 ], n ); };
    put( a ); if ( m != std::string::npos ) out += ms; put( b ); return out;
}
static Piece piece( Rng& r )
{
    Piece p; int w = r.coin( 0.4 ) ? r.in( -30, 30 ) : 0, mx = r.coin( 0.3 ) ? r.in( 1, 20 ) : 0;
    std::string mod = ( w ? std::to_string( w ) : "" ) + ( mx ? "." + std::to_string( mx ) : "" );
    std::function< std::string( const LoggingEvent& ) > f; std::string spec;
    switch ( r.in( 0, 16 ) )
    {
    case 0: case 1: p.src = text( r, 0, 12, "%{" ); { std::string s = p.src; p.want = [ s ]( const LoggingEvent& ) { return s; }; } return p;
    case 2: p.src = "%%"; p.want = []( const LoggingEvent& ) { return std::string( "%" ); }; return p;
    case 3: p.src = "%n"; p.want = []( const LoggingEvent& ) { return std::string( "\n" ); }; return p;
    case 4: case 5: spec = "m"; f = []( const LoggingEvent& e ) { return e.message; }; break;
    case 6: spec = "c"; f = []( const LoggingEvent& e ) { return e.categoryName; }; break;
    case 7: { int k = r.in( 1, 6 ); spec = "c{" + std::to_string( k ) + "}"; f = [ k ]( const LoggingEvent& e ) { std::vector< std::string > v; std::string s; std::istringstream i( e.categoryName ); while ( std::getline( i, s, '.' ) ) v.push_back( s ); std::string o; for ( size_t q = int( v.size() ) > k ? v.size() - k : 0; q < v.size(); q++ ) o += ( o.empty() ? "" : "." ) + v[ q ]; return o; }; break; }
    case 8: spec = "p"; f = []( const LoggingEvent& e ) { return std::string( lname( e.priority ) ); }; break;
    case 9: spec = "x"; f = []( const LoggingEvent& e ) { return e.ndc; }; break;
    case 10: spec = "F"; f = []( const LoggingEvent& e ) { return e.file; }; break;
    case 11: spec = "f"; f = []( const LoggingEvent& e ) { size_t k = e.file.size(); while ( k > 0 && e.file[ k - 1 ] != '/' && e.file[ k - 1 ] != '\\' ) k--; return e.file.substr( k ); }; break;
    case 12: spec = "l"; f = []( const LoggingEvent& e ) { return std::to_string( e.line ); }; break;
    case 13: spec = "t"; f = []( const LoggingEvent& e ) { return e.threadName; }; break;
    case 14: spec = "R"; f = []( const LoggingEvent& e ) { return std::to_string( e.timeStamp.getSeconds() ); }; break;
    case 15: spec = "r"; f = []( const LoggingEvent& e ) { const TimeStamp& s = TimeStamp::getStartTime(); return std::to_string( ( long long )( e.timeStamp.getSeconds() - ( long long )s.getSeconds() ) * 1000 + e.timeStamp.getMicroSeconds() / 1000 - s.getMicroSeconds() / 1000 ); }; break;
    default: {
        std::string tf;
        switch ( r.in( 0, 6 ) )
        {
        case 0: spec = "d"; tf = "%Y-%m-%d %H:%M:%S,%l"; break;
        case 1: spec = "d{ISO8601}"; tf = "%Y-%m-%d %H:%M:%S,%l"; break;
        case 2: spec = "d{ABSOLUTE}"; tf = "%H:%M:%S,%l"; break;
        case 3: spec = "d{DATE}"; tf = "%d %b %Y %H:%M:%S,%l"; break;
        default: { int k = r.coin( 0.15 ) ? r.in( 30, 90 ) : r.in( 1, 6 ); static const std::vector< std::string > el = { "%Y", "%m", "%d", "%H", "%M", "%S", "%j", "%a", "%b", "%y", "%I", "%p", "%U", "%%", ":", "-", " at ", "%l" }; bool ms = false; for ( int i = 0; i < k; i++ ) { std::string x = r.pick( el ); if ( x == "%l" ) { if ( ms ) continue; ms = true; } tf += x; } 
            // "%%l" would be read as a request for milliseconds
            if ( tf.find( "%%%l" ) != std::string::npos || tf.find( "%%l" ) != std::string::npos ) tf = "%H:%M"; spec = "d{" + tf + "}"; }
        }
        f = [ tf ]( const LoggingEvent& e ) { return when( e, tf ); };
    } }
    p.src = "%" + mod + spec; p.want = [ f, w, mx ]( const LoggingEvent& e ) { return fit( f( e ), w, mx ); };
    return p;
}
static LoggingEvent anEvent( Rng& r )
{
    static const std::vector< std::string > files = { "", "a.cpp", "/usr/src/x y/b.cpp", "C:\\src\\c.cpp", "dir/", "../d/e.h" };
    std::string f = r.pick( files );
    LoggingEvent e( catName( r ), r.coin( 0.1 ) ? text( r, 500, 5000 ) : text( r, 0, 60 ), r.coin() ? "" : text( r, 1, 20 ), r.pick( levels ), f.empty() ? 0 : f.c_str(), r.coin() ? 0 : r.in( 1, 100000 ) );
    e.timeStamp = TimeStamp( r.coin( 0.2 ) ? r.in( 0, 100 ) : r.in( 1000000000, 2000000000 ), r.coin( 0.3 ) ? r.in( 0, 99999 ) : r.in( 0, 999999 ) );
    return e;
}

SECTION( "patterns", 4000, 300000 )
{
    PatternLayout l; std::string pat; std::vector< Piece > v; int n = r.in( 0, 8 );
    for ( int i = 0; i < n; i++ ) { Piece p = piece( r ); v.push_back( p ); pat += p.src; }
    l.setConversionPattern( pat ); ok( "pattern as set", l.getConversionPattern() == pat, pat );
    for ( int k = 0; k < 3; k++ )
    {
        LoggingEvent e = anEvent( r ); std::string want; for ( auto& p : v ) want += p.want( e );
        std::string got = l.format( e ); ok( "record formatted as requested", got == want, "pattern '" + pat + "' gave '" + got.substr( 0, 300 ) + "' instead of '" + want.substr( 0, 300 ) + "'" );
        event( "pattern elements printed", v.size() );
    }
    sample( pat );
    // the layout can be given another pattern
    Piece p = piece( r ); l.setConversionPattern( p.src + "%m" ); LoggingEvent e = anEvent( r ); ok( "pattern replaced", l.format( e ) == p.want( e ) + e.message, p.src );
    l.clearConversionPattern(); ok( "pattern cleared", l.format( e ).empty() && l.getConversionPattern().empty() );
}

SECTION( "invalid-patterns", 2000, 60000 )
{
    PatternLayout l; std::string pat; std::vector< Piece > v; int n = r.in( 0, 4 );
    for ( int i = 0; i < n; i++ ) { v.push_back( piece( r ) ); pat += v.back().src; }
    bool def = r.coin( 0.2 ); if ( !def ) l.setConversionPattern( pat ); else { ok( "default pattern", l.getConversionPattern() == PatternLayout::DEFAULT_CONVERSION_PATTERN ); pat = l.getConversionPattern(); }
    std::string bad; int pre = r.in( 0, 3 ); for ( int i = 0; i < pre; i++ ) bad += piece( r ).src;
    static const std::vector< std::string > wrong = { "%", "%5", "%-", "%-m", "%.", "%.m", "%5.", "%-12", "%c{0}", "%c{abc}", "%c{-2}", "%c{x1}", "%q", "%Z%m", "%5k", "%.3y", "%é", "%99999999999999m", "% m" };
    std::string w = r.pick( wrong ); bad += w; bool tail = w != "%" && w != "%5" && w != "%-" && w != "%-12" && w.back() != '.' ; if ( tail && r.coin() ) bad += "%m";
    bool rej = false; try { l.setConversionPattern( bad ); } catch ( const ConfigureFailure& e ) { rej = true; ok( "reason given", strlen( e.what() ) > 0 ); }
    ok( "invalid pattern rejected", rej, bad );
    ok( "old pattern still set", l.getConversionPattern() == pat, bad + " left " + l.getConversionPattern() );
    LoggingEvent e = anEvent( r ); std::string want; if ( def ) want = e.message + "\n"; for ( auto& p : def ? std::vector< Piece >() : v ) want += p.want( e );
    ok( "old pattern in force after a rejected one", l.format( e ) == want, bad );
}

SECTION( "fixed-layouts", 1000, 30000 )
{
    LoggingEvent e = anEvent( r ); BasicLayout b; SimpleLayout s;
    ok( "basic layout", b.format( e ) == std::to_string( e.timeStamp.getSeconds() ) + " " + lname( e.priority ) + " " + e.categoryName + " " + e.ndc + ": " + e.message + "\n" );
    ok( "simple layout", s.format( e ) == fit( lname( e.priority ), -8, 0 ) + ": " + e.message + "\n", s.format( e ) );
    PatternLayout p; p.setConversionPattern( PatternLayout::BASIC_CONVERSION_PATTERN ); ok( "basic pattern", p.format( e ) == b.format( e ) );
    p.setConversionPattern( PatternLayout::SIMPLE_CONVERSION_PATTERN ); ok( "simple pattern", p.format( e ) == std::string( lname( e.priority ) ) + " - " + e.message + "\n" );
    // time of the record
    struct timeval tv; gettimeofday( &tv, 0 ); time_t t0 = tv.tv_sec; LoggingEvent now( "a", "b", "", 100 ); gettimeofday( &tv, 0 ); time_t t1 = tv.tv_sec; // (time() may lag behind by a tick)
    ok( "time of a record", now.timeStamp.getSeconds() >= t0 && now.timeStamp.getSeconds() <= t1 && now.timeStamp.getMicroSeconds() >= 0 && now.timeStamp.getMicroSeconds() < 1000000 );
    // processor time: a number that never decreases
    p.setConversionPattern( "%u" ); long a = atol( p.format( e ).c_str() ), c = atol( p.format( e ).c_str() ); ok( "processor time", a >= 0 && c >= a );
    // default layout of an appender, and taking over of a layout
    StringQueueAppender q( uname( "q" ) ); q.doAppend( e ); ok( "default layout of an appender", q.popMessage() == b.format( e ) );
    q.setLayout( new SimpleLayout ); q.doAppend( e ); ok( "layout of an appender", q.popMessage() == s.format( e ) );
    q.setLayout( 0 ); q.doAppend( e ); ok( "default layout restored", q.popMessage() == b.format( e ) );
    int th = r.coin( 0.2 ) ? 800 : r.pick( levels ); q.setThreshold( th ); ok( "threshold of an appender", q.getThreshold() == th ); q.doAppend( e ); ok( "threshold obeyed", q.queueSize() == size_t( th == 800 || e.priority <= th ) );
}

SECTION( "priority-names", 600, 10000 )
{
    for ( int l : levels ) { ok( "value of a priority name", Priority::getPriorityValue( lname( l ) ) == l, lname( l ) ); ok( "name of a priority", Priority::getPriorityName( l ) == lname( l ) ); }
    ok( "value of a priority name", Priority::getPriorityValue( "EMERG" ) == 0 && Priority::getPriorityValue( "NOTSET" ) == 800 );
    int n = r.in( 0, 2000 ); ok( "numeric priority", Priority::getPriorityValue( std::to_string( n ) ) == n );
    if ( std::find( levels.begin(), levels.end(), n ) == levels.end() && n != 800 ) ok( "name of an unknown priority", Priority::getPriorityName( n ) == "UNKNOWN" );
    std::string bad = r.coin( 0.1 ) ? "" : text( r, 1, 8, "0123456789" );
    bool known = bad == "NOTSET" || bad == "EMERG"; for ( int l : levels ) known |= bad == lname( l );
    if ( !known && bad.find_first_not_of( " +-" ) != std::string::npos || bad.empty() ) { bool rej = false; try { Priority::getPriorityValue( bad ); } catch ( const std::invalid_argument& ) { rej = true; } ok( "unknown priority name rejected", rej, bad ); }
    for ( const char* b : { "info", "INFO ", " INFO", "INF", "INFOS", "12x", "x12", "UNKNOWN" } ) { bool rej = false; try { Priority::getPriorityValue( b ); } catch ( const std::invalid_argument& ) { rej = true; } ok( "unknown priority name rejected", rej, b ); }
}

// ---- rotation ---------------------------------------------------------------------------------------
SECTION( "rotation", 1500, 20000 )
{
    std::string fn = scratch() + "/" + ( r.coin( 0.2 ) ? uname( "r.1." ) : uname( "roll" ) ); std::map< int, std::string > model; // 0: current
    unsigned mb = r.coin( 0.2 ) ? r.in( 9, 12 ) : r.in( 1, 5 ); size_t mx = r.in( 20, 400 ); bool app = r.coin( 0.75 );
    if ( r.coin() ) { model[ 0 ] = "old content\n"; spit( fn, model[ 0 ] ); }
    int pre = r.in( 0, int( mb ) + 2 ); for ( int i = 1; i <= pre; i++ ) if ( r.coin( 0.8 ) ) { model[ i ] = "backup " + std::to_string( i ) + "\n"; spit( fn + "." + std::to_string( i ), model[ i ] ); }
    std::unique_ptr< RollingFileAppender > a( new RollingFileAppender( uname( "ra" ), fn, mx, mb, app ) ); if ( !app ) model[ 0 ] = ""; else model[ 0 ];
    PatternLayout* pl = new PatternLayout; pl->setConversionPattern( "%m%n" ); a->setLayout( pl );
    ok( "rotation settings", a->getMaxBackupIndex() == mb && a->getMaxFileSize() == mx && a->getAppend() == app );
    auto roll = [ & ] { model.erase( mb ); for ( unsigned i = mb; i > 1; i-- ) { auto it = model.find( i - 1 ); if ( it != model.end() ) { model[ i ] = it->second; model.erase( it ); } } model[ 1 ] = model[ 0 ]; model[ 0 ] = ""; event( "rotations" ); };
    int n = r.in( 5, 60 ); std::vector< std::string > all;
    auto check = [ & ]( const char* what ) {
        bool good = true; std::string why;
        for ( int i = 0; i <= int( mb ) + 14; i++ ) { std::string f = i ? fn + "." + std::to_string( i ) : fn; auto it = model.find( i ); if ( exists( f ) != ( it != model.end() ) ) { good = false; why = fmt( "file %d %s", i, it == model.end() ? "should not exist" : "missing" ); break; } if ( it != model.end() && slurp( f ) != it->second ) { good = false; why = fmt( "content of file %d: ", i ) + slurp( f ).substr( 0, 150 ) + " instead of " + it->second.substr( 0, 150 ); break; } }
        ok( what, good, why );
    };
    check( "files before the first record" );
    for ( int k = 0; k < n; k++ )
    {
        switch ( r.coin( 0.85 ) ? 0 : r.in( 1, 5 ) )
        {
        case 1: a->rollOver(); roll(); break;
        case 2: mx = r.in( 20, 400 ); a->setMaximumFileSize( mx ); break;
        case 3: mb = r.in( 1, 8 ); a->setMaxBackupIndex( mb ); break;
        case 4: app = r.coin( 0.8 ); a->setAppend( app ); ok( "append mode", a->getAppend() == app ); break;
        case 5: if ( r.coin() ) a->close(); ok( "reopened", a->reopen() ); if ( !app ) model[ 0 ] = ""; break;
        default: {
            std::string m = "record " + std::to_string( k ) + " " + text( r, 0, r.coin( 0.1 ) ? 600 : 50 ); LoggingEvent e( "c", m, "", 100 ); a->doAppend( e ); model[ 0 ] += m + "\n"; if ( model[ 0 ].size() >= mx ) roll(); all.push_back( m ); }
        }
        check( "files after every record and rotation" );
    }
    sample( fmt( "%d records, limit %zu, %u backups, %zu files", n, mx, mb, model.size() ) );
    a.reset(); check( "files after closing" );
    for ( int i = 0; i <= 30; i++ ) rmfile( i ? fn + "." + std::to_string( i ) : fn );
}

SECTION( "file-appender", 400, 10000 )
{
    std::string fn = scratch() + "/" + uname( "fa" ), want; bool app = r.coin();
    if ( r.coin() ) { want = "old\n"; spit( fn, want ); } if ( !app ) want = "";
    FileAppender a( uname( "fa" ), fn, app ); PatternLayout* pl = new PatternLayout; pl->setConversionPattern( "%p %m%n" ); a.setLayout( pl ); bool open = true; int n = r.in( 1, 30 );
    for ( int k = 0; k < n; k++ )
    {
        switch ( r.coin( 0.7 ) ? 0 : r.in( 1, 4 ) )
        {
        case 1: a.close(); open = false; break;
        case 2: ok( "reopened", a.reopen() ); if ( !app ) want = ""; open = true; break;
        case 3: app = r.coin(); a.setAppend( app ); break;
        case 4: { std::string b = fn + ".moved"; rename( fn.c_str(), b.c_str() ); ok( "reopened", a.reopen() ); ok( "nothing lost in the moved file", slurp( b ) == want ); want = ""; open = true; rmfile( b ); } break;
        default: { LoggingEvent e = anEvent( r ); a.doAppend( e ); if ( open ) want += std::string( lname( e.priority ) ) + " " + e.message + "\n"; }
        }
        ok( "content of the log file", slurp( fn ) == want );
    }
    // a directory that does not exist
    FileAppender b( uname( "fb" ), fn + ".nodir/x" ); LoggingEvent e = anEvent( r ); b.doAppend( e ); ok( "reopening reports failure", !b.reopen() ); ok( "no file made up", !exists( fn + ".nodir" ) );
    a.close(); rmfile( fn );
}

// ---- configuration by file -------------------------------------------------------------------------
struct AppCfg { std::string name, file, layout, pattern; int type, thr; std::vector< Piece > pieces; std::string want; Appender* live; size_t mx; };
struct CatCfg { std::string name; int prio; bool add; std::vector< int > apps; };
static std::string expected( const AppCfg& a, const LoggingEvent& e )
{
    if ( a.layout == "basic" ) return std::to_string( e.timeStamp.getSeconds() ) + " " + lname( e.priority ) + " " + e.categoryName + " " + e.ndc + ": " + e.message + "\n";
    if ( a.layout == "simple" ) return fit( lname( e.priority ), -8, 0 ) + ": " + e.message + "\n";
    std::string s; for ( auto& p : a.pieces ) s += p.want( e ); return s;
}
/// pieces whose text does not depend on the time of the call and survive the syntax of the file
static void easyPattern( Rng& r, AppCfg& a, const char* avoid )
{
    int n = r.coin( 0.1 ) ? r.in( 60, 200 ) : r.in( 1, 6 );
    for ( int i = 0; i < n; ) { Piece p = piece( r ); bool bad = p.src.empty() || strpbrk( p.src.c_str(), avoid ) || p.src[ p.src.size() - 1 ] == 'r' || p.src[ p.src.size() - 1 ] == 'R' || p.src.find( 'd' ) != std::string::npos || ( ( i == 0 || i == n - 1 ) && ( p.src[ 0 ] == ' ' || p.src[ p.src.size() - 1 ] == ' ' ) ) || p.src.find( "${" ) != std::string::npos || ( !a.pattern.empty() && a.pattern[ a.pattern.size() - 1 ] == '$' ); if ( !a.pattern.empty() && a.pattern[ a.pattern.size() - 1 ] == '$' ) { a.pattern += "m"; a.pieces.push_back( Piece{ "m", []( const LoggingEvent& ) { return std::string( "m" ); } } ); continue; } if ( bad ) continue; a.pieces.push_back( p ); a.pattern += p.src; i++; }
    a.pieces.push_back( Piece{ "%n", []( const LoggingEvent& ) { return std::string( "\n" ); } } ); a.pattern += "%n";
}
/// logs to configured and unconfigured categories and predicts every file
static void drive( Rng& r, std::vector< AppCfg >& as, std::vector< CatCfg >& cs, const std::string& pre, bool basicTimes )
{
    auto find = [ & ]( const std::string& n ) -> CatCfg* { for ( auto& c : cs ) if ( c.name == n ) return &c; return 0; };
    auto up = []( const std::string& n ) { size_t d = n.rfind( '.' ); return d == std::string::npos ? std::string() : n.substr( 0, d ); };
    std::vector< std::string > names; for ( auto& c : cs ) names.push_back( c.name ); for ( int i = 0; i < 4; i++ ) { std::string n = r.pick( names ); names.push_back( ( n.empty() ? pre + "u" : n ) + "." + std::string( 1, char( 'p' + i ) ) ); }
    for ( auto& n : names )
    {
        Category& c = n.empty() ? Category::getRoot() : Category::getInstance( n ); int e = 800; for ( std::string q = n;; q = up( q ) ) { CatCfg* f = find( q ); if ( f && f->prio != 800 ) { e = f->prio; break; } if ( q.empty() ) break; }
        CatCfg* f = find( n ); ok( "configured priority", c.getPriority() == ( f ? f->prio : 800 ), n ); ok( "inherited priority", c.getChainedPriority() == e, fmt( "%d instead of %d at ", int( c.getChainedPriority() ), e ) + n );
        ok( "configured additivity", c.getAdditivity() == ( f ? f->add : true ), n );
    }
    int M = r.in( 3, 25 );
    for ( int k = 0; k < M; k++ )
    {
        std::string n = r.pick( names ); int p = r.pick( levels ); std::string m = text( r, 0, 60, "\n" ), ctx = r.coin( 0.3 ) ? text( r, 1, 10 ) : "";
        Category& c = n.empty() ? Category::getRoot() : Category::getInstance( n );
        if ( !ctx.empty() ) NDC::push( ctx );
        int line = 0; if ( r.coin( 0.3 ) ) { line = __LINE__; LOG4CPP_LOG( c, p, m, __FILE__, line ); } else c.log( p, m );
        LoggingEvent e( n, m, ctx, p, line ? __FILE__ : 0, line ); if ( !ctx.empty() ) NDC::pop();
        int eff = 800; for ( std::string q = n;; q = up( q ) ) { CatCfg* f = find( q ); if ( f && f->prio != 800 ) { eff = f->prio; break; } if ( q.empty() ) break; }
        if ( p > eff ) continue;
        for ( std::string q = n;; q = up( q ) ) { CatCfg* f = find( q ); if ( f ) { std::set< int > once( f->apps.begin(), f->apps.end() ); for ( int a : once ) if ( as[ a ].thr == 800 || p <= as[ a ].thr ) as[ a ].want += expected( as[ a ], e ); if ( !f->add ) break; } if ( q.empty() ) break; }
        event( "records logged through configured categories" );
    }
    (void)basicTimes;
}
static void compare( const AppCfg& a, const std::string& got, const char* what )
{
    // basic layouts print the second: allow the clock to have ticked between the call and the expectation
    std::string g = got, w = a.want;
    if ( a.layout == "basic" ) { auto strip = []( const std::string& s ) { std::istringstream i( s ); std::string l, o; while ( std::getline( i, l ) ) { size_t p = 0; while ( p < l.size() && isdigit( (unsigned char)l[ p ] ) ) p++; o += ( p >= 9 ? l.substr( p ) : "?" + l ) + "\n"; } return o; }; g = strip( g ); w = strip( w ); }
    ok( what, g == w, a.pattern + " got '" + g.substr( 0, 300 ) + "' instead of '" + w.substr( 0, 300 ) + "'" );
}
static std::string pad( Rng& r ) { return r.coin( 0.7 ) ? "" : std::string( r.in( 1, 3 ), r.coin() ? ' ' : '\t' ); }

SECTION( "property-files", 1500, 15000 )
{
    std::string pre = uname( "P" ), cfg = scratch() + "/" + pre + ".properties"; std::vector< AppCfg > as; std::vector< CatCfg > cs;
    std::ostringstream console; int nA = r.in( 1, 4 );
    static const std::vector< std::string > suffix = { "", "-B", "-", "_2", "A", "+", "0", " x", "-B-C" };
    for ( int i = 0; i < nA; i++ )
    {
        AppCfg a; a.name = pre + suffix[ ( i * 2 + r.in( 0, 1 ) ) % suffix.size() ]; a.type = r.in( 0, 2 ); bool con = false; for ( auto& o : as ) con |= o.type == 2; if ( con && a.type == 2 ) a.type = 0;
        a.file = scratch() + "/" + pre + "." + std::to_string( i ) + ( r.coin( 0.1 ) ? std::string( 150, 'f' ) : "" ); a.thr = r.coin( 0.6 ) ? 800 : r.pick( levels ); a.mx = r.in( 100, 5000 );
        int l = r.in( 0, 3 ); a.layout = l == 0 ? "basic" : l == 1 ? "simple" : "pattern"; if ( l == 3 ) { a.pieces.push_back( Piece{ "", []( const LoggingEvent& e ) { return e.message + "\n"; } } ); } else if ( l == 2 ) easyPattern( r, a, "#\r\n" );
        as.push_back( a );
    }
    CatCfg root; root.prio = r.pick( levels ); root.add = true; cs.push_back( root );
    int nC = r.in( 0, 5 ); for ( int i = 0; i < nC; i++ ) { CatCfg c; c.name = ( i && r.coin( 0.7 ) && !cs.back().name.empty() ? cs[ r.in( 1, int( cs.size() ) - 1 ) ].name : pre ) + "." + std::string( 1, char( 'a' + i ) ); c.prio = r.coin( 0.4 ) ? 800 : r.pick( levels ); c.add = r.coin( 0.7 ); cs.push_back( c ); }
    for ( auto& c : cs ) for ( int k = 0; k < nA; k++ ) if ( r.coin( 0.35 ) ) c.apps.push_back( k );
    std::vector< std::string > L; const char* P = r.coin( 0.3 ) ? "log4j." : r.coin( 0.5 ) ? "log4cpp." : "";
    setenv( "VH_DIR", scratch().c_str(), 1 );
    auto kv = [ & ]( const std::string& k, const std::string& v ) { L.push_back( pad( r ) + P + k + pad( r ) + "=" + pad( r ) + v + pad( r ) + ( r.coin( 0.1 ) ? " # comment = x" : "" ) ); };
    bool viaEnv = r.coin( 0.3 );
    for ( auto& a : as )
    {
        std::string p = "appender." + a.name; kv( p, ( r.coin() ? "org.apache.log4j." : "" ) + std::string( a.type == 0 ? "FileAppender" : a.type == 1 ? "RollingFileAppender" : "ConsoleAppender" ) );
        std::string f = a.file; if ( viaEnv ) f = "${VH_DIR}" + f.substr( scratch().size() );
        if ( a.type < 2 ) kv( p + ".fileName", f );
        if ( a.type == 1 ) { kv( p + ".maxFileSize", std::to_string( a.mx ) ); kv( p + ".maxBackupIndex", "9999" ); }
        if ( a.thr != 800 || r.coin( 0.3 ) ) kv( p + ".threshold", lname( a.thr ) );
        kv( p + ".layout", ( r.coin() ? "org.apache.log4j." : "" ) + std::string( a.layout == "basic" ? "BasicLayout" : a.layout == "simple" ? "SimpleLayout" : "PatternLayout" ) );
        if ( !a.pattern.empty() ) kv( p + ".layout.ConversionPattern", a.pattern );
    }
    for ( auto& c : cs )
    {
        std::string v = c.name.empty() ? lname( c.prio ) : c.prio == 800 ? ( r.coin() ? "NOTSET" : "" ) : lname( c.prio ); for ( int k : c.apps ) v += pad( r ) + "," + pad( r ) + as[ k ].name;
        kv( c.name.empty() ? "rootCategory" : "category." + c.name, v );
        if ( !c.name.empty() && ( !c.add || r.coin( 0.3 ) ) ) kv( "additivity." + c.name, c.add ? "true" : "false" );
    }
    for ( int i = r.in( 0, 4 ); i > 0; i-- ) { static const std::vector< std::string > junk = { "", "   ", "# a comment", "#appender.X=FileAppender", "no assignment here", "unknown.property=7" }; L.push_back( r.coin( 0.1 ) ? "# " + std::string( r.in( 200, 600 ), '-' ) : r.pick( junk ) ); }
    r.shuffle( L ); std::string all; bool crlf = r.coin( 0.15 ); for ( size_t i = 0; i < L.size(); i++ ) all += L[ i ] + ( i + 1 == L.size() && r.coin( 0.3 ) ? "" : crlf ? "\r\n" : "\n" );
    spit( cfg, all ); sample( fmt( "%zu appenders, %zu categories, %zu bytes", as.size(), cs.size(), all.size() ) );
    std::streambuf* old = std::cout.rdbuf( console.rdbuf() );
    try {
        PropertyConfigurator::configure( cfg );
        for ( auto& a : as ) { a.live = Appender::getAppender( a.name ); ok( "appender created", a.live != 0, a.name ); if ( a.live ) ok( "configured threshold", a.live->getThreshold() == a.thr ); }
        for ( auto& c : cs ) { AppenderSet s = ( c.name.empty() ? Category::getRoot() : Category::getInstance( c.name ) ).getAllAppenders(), w; for ( int k : c.apps ) w.insert( as[ k ].live ); ok( "configured appenders", s == w, c.name ); }
        drive( r, as, cs, pre, true );
    } catch ( const std::exception& e ) { fail( "valid property file accepted", std::string( e.what() ) + "\n" + all.substr( 0, 900 ) ); }
    std::cout.rdbuf( old );
    for ( auto& a : as )
    {
        std::string got; if ( a.type == 2 ) got = console.str(); else if ( a.type == 1 ) { for ( int i = 300; i > 0; i-- ) { std::string f = a.file + "." + std::to_string( i ); if ( exists( f ) ) { got += slurp( f ); event( "rolled files" ); ok( "size of rolled files", slurp( f ).size() >= a.mx ); rmfile( f ); } } got += slurp( a.file ); } else got = slurp( a.file );
        compare( a, got, "log files as configured" );
    }
    Category::getRoot().removeAllAppenders(); for ( auto& c : cs ) if ( !c.name.empty() ) Category::getInstance( c.name ).removeAllAppenders();
    for ( auto& a : as ) { Appender* x = Appender::getAppender( a.name ); if ( x ) x->close(); rmfile( a.file ); } rmfile( cfg );
}

SECTION( "bad-property-files", 400, 10000 )
{
    std::string pre = uname( "B" ), cfg = scratch() + "/" + pre, fn = cfg + ".log";
    std::vector< std::string > L = { "rootCategory=INFO,A", "appender.A=FileAppender", "appender.A.fileName=" + fn, "appender.A.layout=PatternLayout", "appender.A.layout.ConversionPattern=%m%n", "appender.A.threshold=INFO", "category." + pre + "=DEBUG,A" };
    int k = r.in( 0, 14 );
    switch ( k )
    {
    case 0: L[ 0 ] = "#"; break; case 1: L[ 0 ] = "rootCategory=INFO,Nope"; break; case 2: L[ 0 ] = "rootCategory=LOUD,A"; break; case 3: L[ 0 ] = "rootCategory="; break; case 4: L[ 0 ] = "rootCategory=NOTSET,A"; break; case 5: L[ 0 ] = "rootCategory=,A"; break;
    case 6: L[ 1 ] = "appender.A=TapeAppender"; break; case 7: L[ 1 ] = ""; break; case 8: L[ 3 ] = ""; break; case 9: L[ 3 ] = "appender.A.layout=NoLayout"; break; case 10: L[ 4 ] = "appender.A.layout.ConversionPattern=%m%"; break; case 11: L[ 4 ] = "appender.A.layout.ConversionPattern=%k"; break;
    case 12: L[ 5 ] = "appender.A.threshold=HIGH"; break; case 13: L[ 6 ] = "category." + pre + "=DEBUG,Missing"; break; case 14: L[ 6 ] = "category." + pre + "=1x"; break;
    }
    r.shuffle( L ); std::string all; for ( auto& l : L ) all += l + "\n"; spit( cfg, all );
    bool rej = false; try { PropertyConfigurator::configure( cfg ); } catch ( const ConfigureFailure& e ) { rej = strlen( e.what() ) > 0; }
    ok( "bad property file reported", rej, fmt( "variant %d", k ) );
    rej = false; try { PropertyConfigurator::configure( cfg + ".none" ); } catch ( const ConfigureFailure& ) { rej = true; } ok( "missing property file reported", rej );
    Category::getRoot().removeAllAppenders(); Category::getInstance( pre ).removeAllAppenders(); if ( Appender* a = Appender::getAppender( "A" ) ) a->close(); rmfile( cfg ); rmfile( fn );
}

SECTION( "simple-configuration", 1000, 12000 )
{
    std::string pre = uname( "S" ); std::vector< AppCfg > as; std::vector< CatCfg > cs; CatCfg root; root.prio = r.pick( levels ); root.add = true; cs.push_back( root );
    int nC = r.in( 0, 4 ); for ( int i = 0; i < nC; i++ ) { CatCfg c; c.name = ( i && r.coin( 0.7 ) ? cs[ r.in( 1, int( cs.size() ) - 1 ) ].name : pre ) + "." + std::string( 1, char( 'a' + i ) ); c.prio = r.coin( 0.4 ) ? 800 : r.pick( levels ); c.add = true; cs.push_back( c ); }
    std::vector< std::string > L; std::ostringstream console;
    Category::getRoot().removeAllAppenders();
    for ( size_t i = 0; i < cs.size(); i++ )
    {
        std::string n = cs[ i ].name.empty() ? "root" : cs[ i ].name;
        if ( cs[ i ].prio != 800 ) L.push_back( "priority " + n + " " + lname( cs[ i ].prio ) );
        if ( r.coin( 0.2 ) ) L.push_back( "category " + n );
        for ( int q = r.in( 0, 2 ); q > 0; q-- )
        {
            AppCfg a; a.name = n; a.thr = 800; a.type = r.in( 0, 2 ); bool con = false; for ( auto& o : as ) con |= o.type == 2; if ( con && a.type == 2 ) a.type = 0;
            a.file = scratch() + "/" + pre + "." + std::to_string( as.size() ); a.mx = r.in( 100, 3000 ); int l = r.in( 0, 2 ); a.layout = l == 0 ? "basic" : l == 1 ? "simple" : "pattern"; if ( l == 2 ) { easyPattern( r, a, "#\r\n" ); }
            std::string s = "appender " + n + " " + a.layout + " " + ( a.type == 0 ? "file " + a.file : a.type == 1 ? "rolling " + a.file + " " + std::to_string( a.mx ) + " 999" : std::string( "console" ) ) + ( l == 2 ? " " + a.pattern : "" );
            L.push_back( s ); as.push_back( a ); cs[ i ].apps.push_back( as.size() - 1 );
        }
    }
    if ( r.coin() ) L.push_back( "# a comment with priority root ALERT" );
    r.shuffle( L ); std::string all; for ( auto& l : L ) all += l + "\n"; sample( fmt( "%zu commands", L.size() ) );
    std::streambuf* old = std::cout.rdbuf( console.rdbuf() );
    try { if ( r.coin() ) { std::istringstream i( all ); SimpleConfigurator::configure( i ); } else { std::string f = scratch() + "/" + pre; spit( f, all ); SimpleConfigurator::configure( f ); rmfile( f ); } drive( r, as, cs, pre, true ); }
    catch ( const std::exception& e ) { fail( "valid configuration accepted", std::string( e.what() ) + "\n" + all.substr( 0, 900 ) ); }
    std::cout.rdbuf( old );
    for ( auto& c : cs ) ( c.name.empty() ? Category::getRoot() : Category::getInstance( c.name ) ).removeAllAppenders(); // owned: closes the files
    for ( auto& a : as )
    {
        std::string got; if ( a.type == 2 ) got = console.str(); else if ( a.type == 1 ) { for ( int i = 200; i > 0; i-- ) { std::string f = a.file + "." + std::to_string( i ); if ( exists( f ) ) { got += slurp( f ); rmfile( f ); } } got += slurp( a.file ); } else got = slurp( a.file );
        compare( a, got, "log files as configured" ); rmfile( a.file );
    }
    static const std::vector< std::string > bad = { "appender root basic", "appender root basic tape", "appender root odd console", "appender root basic rolling /tmp", "priority root", "priority root LOUD", "frobnicate root", "appender root pattern console %k\n", "appender root basic remotesyslog" };
    std::string b = r.pick( bad ); bool rej = false; std::istringstream i( b ); try { SimpleConfigurator::configure( i ); } catch ( const ConfigureFailure& ) { rej = true; }
    // an appender line cut short by the end of the file is ignored
    if ( b != "appender root basic" ) ok( "bad configuration reported", rej, b ); Category::getRoot().removeAllAppenders();
}

SECTION( "init-logging", 200, 4000 )
{
    std::string pre = uname( "I" ), cfg = scratch() + "/" + pre, fn = cfg + ".log"; Category::getRoot().removeAllAppenders();
    bool good = r.coin(); if ( good ) spit( cfg, "rootCategory=WARN,A\nappender.A=FileAppender\nappender.A.fileName=" + fn + "\nappender.A.layout=PatternLayout\nappender.A.layout.ConversionPattern=%p %c %m%n\n" ); else if ( r.coin() ) spit( cfg, "rootCategory=WARN,Nope\n" );
    std::ostringstream err; std::streambuf* old = std::cerr.rdbuf( err.rdbuf() );
    Ubitrack::Util::initLogging( cfg.c_str() );
    Category& c = Category::getInstance( "Ubitrack.Events." + pre ); Category& d = Category::getInstance( "Ubitrack." + pre );
    if ( !good ) ok( "default priorities", Category::getRootPriority() == 600 && Category::getInstance( "Ubitrack.Events" ).getPriority() == 500 && c.getChainedPriority() == 500 && d.getChainedPriority() == 600 );
    std::string wf; std::vector< std::string > we; int n = r.in( 1, 10 );
    for ( int i = 0; i < n; i++ )
    {
        Category& x = r.coin() ? c : d; int p = r.pick( levels ); std::string m = text( r, 0, 30 ); int ln = 0;
        switch ( r.in( 0, 3 ) ) { case 0: LOG4CPP_WARN( x, m << 1 ); ln = __LINE__; p = 400; m += "1"; break; case 1: LOG4CPP_INFO( x, m << 1 ); ln = __LINE__; p = 600; m += "1"; break; default: x.log( p, m, "dir/some.cpp", 12 ); }
        int eff = x.getChainedPriority(); if ( p > eff ) continue;
        wf += std::string( lname( p ) ) + " " + x.getName() + " " + m + "\n";
        we.push_back( " " + fit( lname( p ), 6, 0 ) + " " + fit( ln ? "c29.cpp" : "some.cpp", 20, 0 ) + ":" + fit( std::to_string( ln ? ln : 12 ), -3, 0 ) + " " + m + "   (" + x.getName() + ")" );
    }
    std::cerr.rdbuf( old );
    if ( good ) ok( "log file as configured", slurp( fn ) == wf && err.str().empty(), slurp( fn ).substr( 0, 200 ) );
    else
    {
        std::istringstream i( err.str() ); std::string l; size_t k = 0; bool same = true; while ( std::getline( i, l ) ) { same = same && k < we.size() && l.size() > 12 && l[ 2 ] == ':' && l[ 5 ] == ':' && l[ 8 ] == '.' && l.substr( 12 ) == we[ k ]; k++; }
        ok( "default log on the error stream", same && k == we.size(), err.str().substr( 0, 300 ) );
    }
    Category::getInstance( "Ubitrack.Events" ).setPriority( 800 ); Category::getRoot().removeAllAppenders(); if ( good ) if ( Appender* a = Appender::getAppender( "A" ) ) a->close(); rmfile( cfg ); rmfile( fn );
}
VH_MAIN
