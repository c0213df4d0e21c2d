// C23: every log record reaches its destinations once, whole and in order. Recording appenders (which
// have no lock of their own) observe concurrent and sequential logging; an independent model of the
// category hierarchy says what each must have received.
#include "vh.h"
#include <algorithm>
#include <arpa/inet.h>
#include <atomic>
#include <fstream>
#include <log4cpp/Appender.hh>
#include <log4cpp/Category.hh>
#include <log4cpp/FileAppender.hh>
#include <log4cpp/Filter.hh>
#include <log4cpp/FixedContextCategory.hh>
#include <log4cpp/LayoutAppender.hh>
#include <log4cpp/NDC.hh>
#include <log4cpp/OstreamAppender.hh>
#include <log4cpp/PatternLayout.hh>
#include <log4cpp/RemoteSyslogAppender.hh>
#include <log4cpp/RollingFileAppender.hh>
#include <log4cpp/StringQueueAppender.hh>
#include <memory>
#include <netinet/in.h>
#include <sched.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <thread>
using namespace vh;
using namespace log4cpp;
typedef Priority::Value Prio;

// only befriended by the header
namespace log4cpp { CategoryStream& eol( CategoryStream& ); CategoryStream& left( CategoryStream& ); }

static const std::vector< int > levels = { 0, 100, 200, 300, 400, 500, 600, 700, 750 };

struct Rec { std::string cat, msg, ndc, file, thread; int prio; unsigned line; };

static std::atomic< int > alive{ 0 };
/// keeps what it is given; the library has to serialise the calls
class Recorder : public AppenderSkeleton
{
public:
    std::vector< Rec > recs; int spin; std::atomic< uint64_t > reopened{ 0 }, closed{ 0 }; bool failReopen = false;
    std::atomic< int >* tally; Layout* lay = 0;
    Recorder( const std::string& n, int spin_ = 0, std::atomic< int >* t = 0 ) : AppenderSkeleton( n ), spin( spin_ ), tally( t ) { if ( t ) ++*t; alive++; }
    ~Recorder() { if ( tally ) --*tally; alive--; }
    bool reopen() override { reopened++; return !failReopen; }
    void close() override { closed++; }
    bool requiresLayout() const override { return false; }
    void setLayout( Layout* l ) override { delete l; }
protected:
    void _append( const LoggingEvent& e ) override
    {
        Rec r; r.cat = e.categoryName; r.msg = e.message; r.ndc = e.ndc; r.file = e.file; r.thread = e.threadName; r.prio = e.priority; r.line = e.line;
        if ( spin && ( recs.size() % spin ) == 0 ) sched_yield();
        recs.push_back( std::move( r ) );
    }
};
struct Logged { int thread, seq, cat, prio; bool fixedCtx; std::string msg, ndc; unsigned line; };

struct Filt : Filter
{
    int mode, arg; Filt( int m, int a ) : mode( m ), arg( a ) {}
protected:
    Decision _decide( const LoggingEvent& e ) override
    {
        if ( mode == 0 ) return e.priority == arg ? DENY : NEUTRAL;
        if ( mode == 1 ) return int( e.message.size() ) % 3 == arg % 3 ? ACCEPT : NEUTRAL;
        return DENY;
    }
};
static bool modelFilter( const std::vector< std::pair< int, int > >& chain, int prio, const std::string& msg )
{
    for ( auto& f : chain )
    {
        if ( f.first == 0 && prio == f.second ) return false;
        if ( f.first == 1 && int( msg.size() ) % 3 == f.second % 3 ) return true;
        if ( f.first == 2 ) return false;
    }
    return true;
}
static std::atomic< uint64_t > uniq{ 0 };
static std::string uname( const char* p ) { return std::string( p ) + std::to_string( getpid() ) + "_" + std::to_string( uniq++ ); }

struct Node { std::string name; int parent; int prio; bool additive; Category* c; std::vector< int > apps; };
struct App { Recorder* a; int threshold; std::vector< std::pair< int, int > > filt; bool owned; int home; };

struct Tree
{
    std::vector< Node > n; std::vector< App > apps; std::atomic< int > count{ 0 };
    int effective( int i ) const { while ( n[ i ].prio == 800 ) i = n[ i ].parent; return n[ i ].prio; }
    bool ancestor( int a, int b ) const { for ( ; b >= 0; b = n[ b ].parent ) if ( a == b ) return true; return false; }
    /// appenders that get a record of category i
    std::vector< int > reach( int i ) const
    {
        std::vector< int > v;
        for ( ; i >= 0; i = n[ i ].parent ) { for ( int a : n[ i ].apps ) v.push_back( a ); if ( !n[ i ].additive ) break; }
        return v;
    }
    bool delivered( int app, int prio, const std::string& msg ) const { return ( apps[ app ].threshold == 800 || prio <= apps[ app ].threshold ) && modelFilter( apps[ app ].filt, prio, msg ); }
};
/// a fresh subtree whose top is not additive, so that cases do not see each other
static void build( Rng& r, Tree& t, int N, int spin )
{
    std::string top = uname( "t" );
    t.n.push_back( Node{ top, -1, r.pick( levels ), false, &Category::getInstance( top ), {} } );
    for ( int i = 1; i < N; i++ )
    {
        int p = r.in( std::max( 0, i - 3 ), i - 1 );
        std::string nm = t.n[ p ].name + "." + ( r.coin( 0.1 ) ? "x y" : "n" ) + std::to_string( i );
        t.n.push_back( Node{ nm, p, r.coin( 0.5 ) ? 800 : r.pick( levels ), r.coin( 0.8 ), 0, {} } );
    }
    // creation in any order: a child may create its parent
    std::vector< int > order; for ( int i = 1; i < N; i++ ) order.push_back( i ); r.shuffle( order );
    for ( int i : order ) t.n[ i ].c = &Category::getInstance( t.n[ i ].name );
    t.n[ 0 ].c->setAdditivity( false );
    std::vector< int > o2; for ( int i = 0; i < N; i++ ) o2.push_back( i ); r.shuffle( o2 );
    for ( int i : o2 ) { t.n[ i ].c->setPriority( t.n[ i ].prio ); t.n[ i ].c->setAdditivity( t.n[ i ].additive ); }
    int A = r.in( 1, 5 );
    for ( int k = 0; k < A; k++ )
    {
        App a; a.a = new Recorder( uname( "a" ), spin, &t.count ); a.threshold = r.coin( 0.6 ) ? 800 : r.pick( levels ); a.home = r.coin( 0.4 ) ? 0 : r.in( 0, N - 1 ); a.owned = r.coin();
        a.a->setThreshold( a.threshold );
        if ( r.coin( 0.3 ) ) { int L = r.in( 1, 3 ); Filter* f = 0; for ( int q = 0; q < L; q++ ) { int m = r.coin( 0.1 ) ? 2 : r.in( 0, 1 ), g = m ? r.in( 0, 2 ) : r.pick( levels ); Filt* x = new Filt( m, g ); if ( f ) f->appendChainedFilter( x ); else f = x; a.filt.push_back( { m, g } ); } a.a->setFilter( f ); }
        if ( a.owned ) t.n[ a.home ].c->addAppender( a.a ); else t.n[ a.home ].c->addAppender( *a.a );
        t.n[ a.home ].apps.push_back( k );
        t.apps.push_back( a );
        // the same appender also for categories of which its home is neither ancestor nor descendant
        if ( !a.owned ) for ( int q = 0; q < N; q++ )
        {
            if ( !r.coin( 0.4 ) ) continue;
            bool rel = false;
            for ( int z = 0; z < N; z++ ) if ( std::find( t.n[ z ].apps.begin(), t.n[ z ].apps.end(), k ) != t.n[ z ].apps.end() && ( t.ancestor( z, q ) || t.ancestor( q, z ) ) ) rel = true;
            if ( rel ) continue;
            t.n[ q ].c->addAppender( *a.a ); t.n[ q ].apps.push_back( k );
        }
    }
}
static void tear( Tree& t )
{
    for ( auto& n : t.n ) n.c->removeAllAppenders();
    for ( auto& a : t.apps ) if ( !a.owned ) delete a.a;
}

static void va( Category& c, Prio p, const char* f, ... ) { va_list l; va_start( l, f ); c.logva( p, f, l ); va_end( l ); }
/// logs through one of the many doors; returns the line if it gives one
static unsigned emit( Category& c, int prio, const std::string& m, int door )
{
    const char* s = m.c_str();
    switch ( door % 9 )
    {
    case 0: c.log( prio, m ); break;
    case 1: c.log( prio, "%s%s", s, "" ); break;
    case 2: va( c, prio, "%s", s ); break;
    case 3: c.getStream( prio ) << m; break;
    case 4: c << Prio( prio ) << m << CategoryStream::ENDLINE; break;
    case 5:
        switch ( prio ) { case 0: c.emerg( m ); break; case 100: c.alert( m ); break; case 200: c.crit( m ); break; case 300: c.error( m ); break; case 400: c.warn( m ); break; case 500: c.notice( m ); break; case 600: c.info( m ); break; case 700: c.debug( m ); break; default: c.trace( m ); }
        break;
    case 6:
        switch ( prio ) { case 0: c.fatal( "%s", s ); break; case 100: c.alert( "%s", s ); break; case 200: c.crit( "%s", s ); break; case 300: c.error( "%s", s ); break; case 400: c.warn( "%s", s ); break; case 500: c.notice( "%s", s ); break; case 600: c.info( "%s", s ); break; case 700: c.debug( "%s", s ); break; default: c.trace( "%s", s ); }
        break;
    case 7: c.log( prio, m, "file.cpp", 4711 ); return 4711;
    case 8:
        switch ( prio ) { case 0: c.fatalStream() << m; break; case 100: c.alertStream() << m; break; case 200: c.critStream() << m; break; case 300: c.errorStream() << m; break; case 400: c.warnStream() << m; break; case 500: c.noticeStream() << m; break; case 600: c.infoStream() << m; break; case 700: c.debugStream() << m; break; default: c.traceStream() << m; }
        break;
    }
    return 0;
}
static bool enabledBy( Category& c, int prio )
{
    switch ( prio ) { case 0: return c.isEmergEnabled() && c.isFatalEnabled(); case 100: return c.isAlertEnabled(); case 200: return c.isCritEnabled(); case 300: return c.isErrorEnabled(); case 400: return c.isWarnEnabled(); case 500: return c.isNoticeEnabled(); case 600: return c.isInfoEnabled(); case 700: return c.isDebugEnabled(); default: return c.isTraceEnabled(); }
}
static std::string body( Rng& r, int th, int seq )
{
    std::string m = "<" + std::to_string( th ) + ":" + std::to_string( seq ) + ">";
    int L = r.coin( 0.05 ) ? r.in( 900, 5000 ) : r.in( 0, 40 );
    for ( int i = 0; i < L; i++ ) m += char( 'a' + ( th * 7 + seq + i ) % 26 );
    return m;
}
static bool parse( const std::string& m, int& th, int& seq ) { return sscanf( m.c_str(), "<%d:%d>", &th, &seq ) == 2; }
/// number of changes of thread in the recorded order and a hash of the order: the interleaving seen
static void interleaving( const std::vector< Rec >& v )
{
    uint64_t h = 1469598103934665603ull; int last = -1; uint64_t sw = 0;
    for ( auto& x : v ) { int t, s; if ( parse( x.msg, t, s ) ) { if ( t != last && last >= 0 ) sw++; last = t; h = ( h ^ uint64_t( t ) ) * 1099511628211ull; } }
    static std::set< uint64_t > hs; bool fresh = hs.insert( h ).second;
    event( "records observed", v.size() ); event( "thread switches observed within one appender", sw ); if ( fresh && sw ) event( "distinct interleavings" );
}

SECTION( "static-tree", 160, 6000 )
{
    Watch watch( "deadlock:static-tree" );
    Tree t; build( r, t, r.in( 1, 9 ), r.in( 0, 4 ) );
    int T = r.in( 1, 6 ), M = r.in( 20, 150 );
    for ( size_t i = 0; i < t.n.size(); i++ )
    {
        ok( "priority of a category", t.n[ i ].c->getPriority() == t.n[ i ].prio, t.n[ i ].name );
        ok( "inherited priority", t.n[ i ].c->getChainedPriority() == t.effective( i ), t.n[ i ].name );
        for ( int l : levels ) ok( "enabled priorities", t.n[ i ].c->isPriorityEnabled( l ) == ( l <= t.effective( i ) ) && enabledBy( *t.n[ i ].c, l ) == ( l <= t.effective( i ) ), t.n[ i ].name );
    }
    std::vector< std::vector< Logged > > plan( T );
    for ( int a = 0; a < T; a++ ) for ( int s = 0; s < M; s++ ) plan[ a ].push_back( Logged{ a, s, r.in( 0, int( t.n.size() ) - 1 ), r.pick( levels ), false, body( r, a, s ), r.coin( 0.3 ) ? "ctx" + std::to_string( a ) + "." + std::to_string( r.in( 0, 3 ) ) : "", 0 } );
    std::vector< int > doors; for ( int i = 0; i < 64; i++ ) doors.push_back( r.in( 0, 8 ) );
    std::vector< std::string > tid( T );
    std::atomic< int > go{ 0 };
    auto work = [ & ]( int a )
    {
        go++; while ( go < T ) sched_yield();
        tid[ a ] = threading::getThreadId();
        for ( auto& l : plan[ a ] )
        {
            if ( !l.ndc.empty() ) NDC::push( l.ndc );
            l.line = emit( *t.n[ l.cat ].c, l.prio, l.msg, doors[ ( l.seq * 5 + a ) & 63 ] );
            if ( !l.ndc.empty() ) NDC::pop();
        }
    };
    if ( T == 1 ) work( 0 );
    else { std::vector< std::thread > th; for ( int a = 0; a < T; a++ ) th.emplace_back( work, a ); for ( auto& x : th ) x.join(); }
    uint64_t want = 0, got = 0;
    for ( size_t k = 0; k < t.apps.size(); k++ )
    {
        // what appender k must have, per thread and in order
        std::vector< std::vector< const Logged* > > exp( T );
        for ( int a = 0; a < T; a++ ) for ( auto& l : plan[ a ] )
        {
            if ( l.prio > t.effective( l.cat ) || !t.delivered( k, l.prio, l.msg ) ) continue;
            auto re = t.reach( l.cat ); int times = std::count( re.begin(), re.end(), int( k ) );
            for ( int q = 0; q < times; q++ ) exp[ a ].push_back( &l );
        }
        std::vector< size_t > pos( T, 0 ); bool good = true; std::string why;
        for ( auto& x : t.apps[ k ].a->recs )
        {
            int a = -1, s = -1;
            if ( !parse( x.msg, a, s ) || a < 0 || a >= T ) { good = false; why = "garbled " + x.msg.substr( 0, 80 ); break; }
            if ( pos[ a ] >= exp[ a ].size() ) { good = false; why = "surplus " + x.msg.substr( 0, 80 ); break; }
            const Logged& l = *exp[ a ][ pos[ a ]++ ];
            if ( l.msg != x.msg ) { good = false; why = "got " + x.msg.substr( 0, 60 ) + " instead of " + l.msg.substr( 0, 60 ); break; }
            if ( l.ndc != x.ndc || l.prio != x.prio || x.cat != t.n[ l.cat ].name || x.thread != tid[ a ] || x.line != l.line || x.file != ( l.line ? "file.cpp" : "" ) ) { good = false; why = "attributes of " + x.msg.substr( 0, 60 ) + ": " + x.cat + " " + x.ndc + " " + std::to_string( x.prio ); break; }
        }
        for ( int a = 0; a < T && good; a++ ) if ( pos[ a ] != exp[ a ].size() ) { good = false; why = fmt( "%zu of %zu records of thread %d", pos[ a ], exp[ a ].size(), a ); }
        for ( int a = 0; a < T; a++ ) want += exp[ a ].size();
        got += t.apps[ k ].a->recs.size();
        ok( "exactly the records due, in order", good, why );
        interleaving( t.apps[ k ].a->recs );
    }
    sample( fmt( "%zu categories %zu appenders %d threads %d records each; %llu deliveries due, %llu seen", t.n.size(), t.apps.size(), T, M, (unsigned long long)want, (unsigned long long)got ) );
    tear( t );
    ok( "appenders destroyed once", t.count == 0, std::to_string( t.count ) );
}

// threads log while others reconfigure what must not matter to the stable appenders
SECTION( "reconfiguration-while-logging", 140, 5000 )
{
    Watch watch( "deadlock:reconfiguration-while-logging" );
    Tree t; build( r, t, r.in( 2, 8 ), r.in( 0, 3 ) );
    int T = r.in( 2, 4 ), M = r.in( 60, 250 ), C = r.in( 1, 3 );
    // categories whose priority is changed between two values: records at or below the lower are due, above the higher are not
    std::vector< int > lo( t.n.size() ), hi( t.n.size() ); std::vector< char > flip( t.n.size(), 0 );
    for ( size_t i = 0; i < t.n.size(); i++ ) flip[ i ] = r.coin( 0.4 );
    const int A = 200, B = 600;
    for ( size_t i = 0; i < t.n.size(); i++ ) if ( flip[ i ] ) { t.n[ i ].prio = A; t.n[ i ].c->setPriority( A ); }
    for ( size_t i = 0; i < t.n.size(); i++ )
    {
        int j = i; bool f = false; while ( t.n[ j ].prio == 800 || flip[ j ] ) { if ( flip[ j ] ) { f = true; break; } j = t.n[ j ].parent; }
        if ( f ) { // nearest configured ancestor flips among A, B and (unless top) NOTSET, which shows what lies above
            lo[ i ] = A; hi[ i ] = B;
            for ( int q = j; q >= 0; q = t.n[ q ].parent ) { int e = flip[ q ] ? A : t.n[ q ].prio; if ( e == 800 ) continue; lo[ i ] = std::min( lo[ i ], e ); hi[ i ] = std::max( hi[ i ], flip[ q ] ? B : e ); }
        }
        else lo[ i ] = hi[ i ] = t.n[ j ].prio;
    }
    std::vector< std::vector< Logged > > plan( T );
    for ( int a = 0; a < T; a++ ) for ( int s = 0; s < M; s++ ) plan[ a ].push_back( Logged{ a, s, r.in( 0, int( t.n.size() ) - 1 ), r.pick( levels ), false, body( r, a, s ), "", 0 } );
    bool reopen = r.coin( 0.4 ); // structural: appenders are not created or destroyed while all are reopened
    std::atomic< int > go{ 0 }, left{ T }; std::atomic< uint64_t > ops{ 0 };
    std::vector< Recorder* > by; std::atomic< int > byCount{ 0 };
    for ( int k = 0; k < 3; k++ ) by.push_back( new Recorder( uname( "b" ), 3, &byCount ) );
    // a category on the side whose appenders all come and go while it is being logged to
    Category& side = Category::getInstance( t.n[ 0 ].name.empty() ? uname( "side" ) : t.n[ 0 ].name + "-side" ); side.setAdditivity( false ); side.setPriority( Priority::DEBUG );
    int seedC = r.in( 0, 1 << 30 );
    auto chaos = [ & ]( int c )
    {
        Rng q( seedC + c ); go++; while ( go < T + C ) sched_yield();
        std::vector< Recorder* > mine; if ( c < 3 ) mine.push_back( by[ c ] );
        do
        {
            int i = q.in( 0, int( t.n.size() ) - 1 ); Category& cat = *t.n[ i ].c;
            switch ( q.in( 0, 10 ) )
            {
            case 10: for ( auto m : mine ) side.addAppender( *m ); if ( !reopen ) { side.addAppender( new Recorder( uname( "z" ), 3, &byCount ) ); if ( q.coin() ) sched_yield(); } side.removeAllAppenders(); side.getAppender(); side.getAppender( "z" ); break;
            case 0: case 1: if ( flip[ i ] ) { int v = q.in( 0, 2 ); cat.setPriority( v == 0 ? A : v == 1 || i == 0 ? B : 800 ); } break;
            case 2: for ( auto m : mine ) { if ( q.coin() ) cat.addAppender( *m ); else cat.removeAppender( m ); } break;
            case 3: if ( !reopen ) { Recorder* x = new Recorder( uname( "o" ), 2, &byCount ); cat.addAppender( x ); if ( q.coin() ) sched_yield(); cat.removeAppender( x ); } break;
            case 4: { Category& k = Category::getInstance( t.n[ i ].name + ".k" + std::to_string( q.in( 0, 6 ) ) ); if ( q.coin() ) k.setPriority( q.coin() ? 800 : q.pick( levels ) ); } break;
            case 5: if ( reopen ) Appender::reopenAll(); else for ( auto m : mine ) m->reopen(); break;
            case 6: for ( auto m : mine ) { m->setThreshold( q.pick( levels ) ); m->getThreshold(); } break;
            case 7: for ( auto m : mine ) m->setFilter( q.coin() ? new Filt( q.in( 0, 2 ), 300 ) : 0 ); break;
            case 8: { std::unique_ptr< std::vector< Category* > > v( Category::getCurrentCategories() ); cat.getAllAppenders(); cat.getAppender(); Category::exists( t.n[ i ].name ); Appender::getAppender( "none" ); } break;
            case 9: { FixedContextCategory f( t.n[ i ].name, "fixed" ); if ( flip[ i ] ) cat.setPriority( A ); } break;
            }
            ops++;
        } while ( left > 0 );
        for ( auto m : mine ) { for ( auto& n : t.n ) n.c->removeAppender( m ); side.removeAppender( m ); }
    };
    auto work = [ & ]( int a )
    {
        go++; while ( go < T + C ) sched_yield();
        for ( auto& l : plan[ a ] ) { emit( *t.n[ l.cat ].c, l.prio, l.msg, l.seq % 7 ); side.info( "side record" ); }
        left--;
    };
    std::vector< std::thread > th; for ( int c = 0; c < C; c++ ) th.emplace_back( chaos, c ); for ( int a = 0; a < T; a++ ) th.emplace_back( work, a );
    for ( auto& x : th ) x.join();
    side.removeAllAppenders();
    event( "reconfigurations during logging", ops );
    for ( size_t k = 0; k < t.apps.size(); k++ )
    {
        // walk each thread's plan: records certainly due must be there, others may, nothing twice or out of order
        std::vector< std::vector< int > > seqs( T ); bool good = true; std::string why;
        for ( auto& x : t.apps[ k ].a->recs ) { int a = -1, s = -1; if ( !parse( x.msg, a, s ) || a < 0 || a >= T || s < 0 || s >= M || plan[ a ][ s ].msg != x.msg || x.cat != t.n[ plan[ a ][ s ].cat ].name || x.prio != plan[ a ][ s ].prio ) { good = false; why = "garbled " + x.msg.substr( 0, 80 ); break; } seqs[ a ].push_back( s ); }
        for ( int a = 0; a < T && good; a++ )
        {
            size_t p = 0;
            for ( auto& l : plan[ a ] )
            {
                auto re = t.reach( l.cat ); bool here = std::count( re.begin(), re.end(), int( k ) ) && t.delivered( k, l.prio, l.msg );
                bool must = here && l.prio <= lo[ l.cat ], may = here && l.prio <= hi[ l.cat ];
                if ( p < seqs[ a ].size() && seqs[ a ][ p ] == l.seq ) { p++; if ( !may ) { good = false; why = "delivered though not due: " + l.msg.substr( 0, 60 ); break; } }
                else if ( must ) { good = false; why = "missing or late: " + l.msg.substr( 0, 60 ); break; }
            }
            if ( good && p != seqs[ a ].size() ) { good = false; why = fmt( "thread %d: record %d repeated or out of order", a, seqs[ a ][ p ] ); }
        }
        ok( "no record of others lost, doubled or moved", good, why );
        interleaving( t.apps[ k ].a->recs );
    }
    for ( auto b : by )
    {
        // attached and detached at several levels: in order, whole, at most once per level of the chain
        bool good = true; std::string why; std::vector< int > last( T, -1 ), run( T, 0 );
        for ( auto& x : b->recs )
        {
            if ( x.msg == "side record" && x.cat == side.getName() && x.prio == Priority::INFO ) continue;
            int a = -1, s = -1; if ( !parse( x.msg, a, s ) || a < 0 || a >= T || s < 0 || s >= M || plan[ a ][ s ].msg != x.msg ) { good = false; why = "garbled"; break; }
            if ( s < last[ a ] ) { good = false; why = "out of order"; break; }
            run[ a ] = s == last[ a ] ? run[ a ] + 1 : 1; last[ a ] = s;
            if ( run[ a ] > int( t.n.size() ) ) { good = false; why = "repeated"; break; }
            if ( x.prio > hi[ plan[ a ][ s ].cat ] ) { good = false; why = "not due"; break; }
        }
        ok( "records of appenders attached meanwhile", good, why );
        event( "records of appenders attached meanwhile", b->recs.size() );
    }
    // after the storm: priorities are those of the configuration
    for ( size_t i = 0; i < t.n.size(); i++ ) if ( flip[ i ] ) t.n[ i ].prio = t.n[ i ].c->getPriority();
    for ( size_t i = 0; i < t.n.size(); i++ )
    {
        ok( "inherited priority after concurrent changes", t.n[ i ].c->getChainedPriority() == t.effective( i ), fmt( "%d instead of %d at %s", int( t.n[ i ].c->getChainedPriority() ), t.effective( i ), t.n[ i ].name.c_str() ) );
        for ( int k = 0; k < 7; k++ ) if ( Category* x = Category::exists( t.n[ i ].name + ".k" + std::to_string( k ) ) ) ok( "inherited priority of categories created meanwhile", x->getChainedPriority() == ( x->getPriority() == 800 ? t.effective( i ) : int( x->getPriority() ) ), x->getName() );
    }
    for ( auto b : by ) delete b;
    tear( t );
    ok( "appenders destroyed once", t.count == 0 && byCount == 0, fmt( "%d %d", int( t.count ), int( byCount ) ) );
}

// concurrent writers of one category tree: after joining, priorities must be consistent
SECTION( "concurrent-priorities-and-creation", 120, 4000 )
{
    Watch watch( "deadlock:concurrent-priorities-and-creation" );
    std::string top = uname( "p" ); Category& c = Category::getInstance( top ); c.setPriority( 300 );
    int T = r.in( 2, 5 ); std::atomic< int > go{ 0 }; int sd = r.in( 0, 1 << 30 ), M = r.in( 20, 120 );
    std::vector< std::string > names; for ( int i = 0; i < 12; i++ ) { std::string n = top; int d = r.in( 1, 4 ); for ( int k = 0; k < d; k++ ) n += "." + std::string( 1, char( 'a' + r.in( 0, 1 ) ) ); names.push_back( n ); }
    std::vector< std::map< std::string, Category* > > seenBy( T );
    auto work = [ & ]( int a ) {
        Rng q( sd + a ); go++; while ( go < T ) sched_yield();
        for ( int i = 0; i < M; i++ )
        {
            std::string n = q.pick( names ); Category& x = Category::getInstance( n );
            auto it = seenBy[ a ].insert( { n, &x } ); if ( it.first->second != &x ) fail( "one category per name", n );
            if ( q.coin( 0.5 ) ) x.setPriority( q.coin() ? 800 : q.pick( levels ) );
            if ( q.coin( 0.2 ) ) c.setPriority( q.pick( levels ) );
            if ( q.coin( 0.2 ) ) x.setAdditivity( q.coin() );
            int e = x.getChainedPriority(); if ( e < 0 || e >= 800 ) fail( "effective priority always set", n );
        }
    };
    std::vector< std::thread > th; for ( int a = 0; a < T; a++ ) th.emplace_back( work, a ); for ( auto& x : th ) x.join();
    std::map< std::string, Category* > all;
    for ( auto& m : seenBy ) for ( auto& p : m ) ok( "one category per name", all.insert( p ).first->second == p.second, p.first );
    for ( auto& p : all )
    {
        Category* x = p.second; ok( "name of a category", x->getName() == p.first && Category::exists( p.first ) == x );
        std::string pn = p.first.substr( 0, p.first.rfind( '.' ) ); ok( "parent of a category", x->getParent() == Category::exists( pn ), p.first );
        Category* y = x; while ( y->getPriority() == 800 ) y = y->getParent();
        ok( "inherited priority after concurrent changes", x->getChainedPriority() == y->getPriority(), fmt( "%s: %d instead of %d", p.first.c_str(), int( x->getChainedPriority() ), int( y->getPriority() ) ) );
    }
    event( "categories created concurrently", all.size() );
}

// one thread, any history of calls, against a model of the hierarchy
SECTION( "history-of-configuration", 500, 20000 )
{
    struct MC { int prio; bool add; std::vector< int > apps; std::set< int > owned; };
    std::vector< std::string > names; std::string top = uname( "h" ); names.push_back( top );
    for ( int i = 0; i < 6; i++ ) names.push_back( r.pick( names ) + "." + std::string( 1, char( 'a' + r.in( 0, 2 ) ) ) );
    std::map< std::string, MC > m; m[ "" ] = MC{ Category::getRootPriority(), true, {}, {} };
    std::function< void( const std::string& ) > create = [ & ]( const std::string& n ) { if ( m.count( n ) ) return; size_t d = n.rfind( '.' ); create( d == std::string::npos ? "" : n.substr( 0, d ) ); m[ n ] = MC{ 800, true, {}, {} }; };
    create( top ); Category::getInstance( top ).setAdditivity( false ); m[ top ].add = false;
    auto up = []( const std::string& n ) { size_t d = n.rfind( '.' ); return d == std::string::npos ? std::string() : n.substr( 0, d ); };
    auto eff = [ & ]( std::string n ) { while ( m[ n ].prio == 800 ) n = up( n ); return m[ n ].prio; };
    struct MA { Recorder* a; bool alive; std::atomic< int > cnt; std::vector< std::string > exp; int thr; std::string name; };
    std::vector< std::unique_ptr< MA > > as;
    auto kill = [ & ]( int k ) { as[ k ]->alive = false; };
    int ops = r.in( 20, 80 ); int seq = 0;
    for ( int o = 0; o < ops; o++ )
    {
        std::string n = r.pick( names );
        if ( !m.count( n ) ) ok( "unknown category does not exist", Category::exists( n ) == 0, n );
        Category& c = Category::getInstance( n ); create( n );
        MC& x = m[ n ];
        switch ( r.in( 0, 8 ) )
        {
        case 0: { int p = r.coin( 0.4 ) ? 800 : r.pick( levels ); c.setPriority( p ); x.prio = p; } break;
        case 1: if ( n != top ) { x.add = r.coin(); c.setAdditivity( x.add ); } break;
        case 2: case 3: { // new appender
            as.emplace_back( new MA ); MA& a = *as.back(); a.cnt = 0; a.alive = true; a.thr = 800; a.name = uname( "m" ); a.a = new Recorder( a.name, 0, &a.cnt ); bool own = r.coin( 0.7 );
            if ( own ) { c.addAppender( a.a ); x.owned.insert( as.size() - 1 ); if ( r.coin( 0.2 ) ) c.addAppender( a.a ); } else { c.addAppender( *a.a ); if ( r.coin( 0.2 ) ) c.addAppender( *a.a ); }
            x.apps.push_back( as.size() - 1 ); } break;
        case 4: if ( !x.apps.empty() ) { int i = r.in( 0, int( x.apps.size() ) - 1 ), k = x.apps[ i ]; c.removeAppender( as[ k ]->a ); x.apps.erase( x.apps.begin() + i ); if ( x.owned.erase( k ) ) { kill( k ); ok( "owned appender destroyed on removal", as[ k ]->cnt == 0 ); } else ok( "appender of others not destroyed", as[ k ]->cnt == 1 ); } break;
        case 5: if ( r.coin( 0.3 ) ) { c.removeAllAppenders(); for ( int k : x.apps ) if ( x.owned.count( k ) ) { kill( k ); ok( "owned appender destroyed on removal", as[ k ]->cnt == 0 ); } else ok( "appender of others not destroyed", as[ k ]->cnt == 1 ); x.apps.clear(); x.owned.clear(); } break;
        case 6: { // share: attach an existing, unowned one
            std::vector< int > cand; for ( size_t k = 0; k < as.size(); k++ ) { bool ow = false; for ( auto& q : m ) ow |= q.second.owned.count( k ) > 0; if ( as[ k ]->alive && !ow && !std::count( x.apps.begin(), x.apps.end(), int( k ) ) ) cand.push_back( k ); }
            if ( !cand.empty() ) { int k = r.pick( cand ); c.addAppender( *as[ k ]->a ); x.apps.push_back( k ); } } break;
        case 7: if ( !x.apps.empty() ) { int k = r.pick( x.apps ); as[ k ]->thr = r.coin( 0.3 ) ? 800 : r.pick( levels ); as[ k ]->a->setThreshold( as[ k ]->thr ); ok( "threshold", as[ k ]->a->getThreshold() == as[ k ]->thr ); } break;
        case 8: ok( "null appender refused", throws( [ & ] { c.addAppender( (Appender*)0 ); } ) ); break;
        }
        // getters
        AppenderSet s = c.getAllAppenders(); std::set< Appender* > w; for ( int k : x.apps ) w.insert( as[ k ]->a );
        ok( "appenders of a category", s == w, n );
        ok( "some appender of a category", w.empty() ? c.getAppender() == 0 : w.count( c.getAppender() ) == 1 );
        for ( size_t k = 0; k < as.size(); k++ ) if ( as[ k ]->alive )
        {
            bool here = std::count( x.apps.begin(), x.apps.end(), int( k ) );
            ok( "appender by name", c.getAppender( as[ k ]->name ) == ( here ? as[ k ]->a : 0 ), n );
            ok( "ownership", c.ownsAppender( as[ k ]->a ) == ( x.owned.count( k ) > 0 ) );
            ok( "registered appender", Appender::getAppender( as[ k ]->name ) == as[ k ]->a );
        }
        else ok( "destroyed appender not registered", Appender::getAppender( as[ k ]->name ) == 0 );
        for ( auto& q : m ) if ( !q.first.empty() ) { Category* y = Category::exists( q.first ); if ( !ok( "category exists", y != 0, q.first ) ) continue; ok( "additivity", y->getAdditivity() == q.second.add ); ok( "priority", y->getPriority() == q.second.prio ); ok( "inherited priority", y->getChainedPriority() == eff( q.first ), q.first ); ok( "parent", y->getParent() == Category::exists( up( q.first ) ) || ( up( q.first ).empty() && y->getParent() == &Category::getRoot() ) ); }
        // a record
        n = r.pick( names ); if ( !m.count( n ) ) continue;
        int p = r.pick( levels ); std::string msg = body( r, 0, seq++ );
        emit( Category::getInstance( n ), p, msg, r.in( 0, 8 ) );
        if ( p <= eff( n ) ) for ( std::string q = n; !q.empty(); q = up( q ) ) { for ( int k : m[ q ].apps ) if ( p <= as[ k ]->thr ) as[ k ]->exp.push_back( n + "|" + msg ); if ( !m[ q ].add ) break; }
        for ( auto& a : as ) if ( a->alive ) ok( "number of records received", a->a->recs.size() == a->exp.size(), n + fmt( " %zu instead of %zu", a->a->recs.size(), a->exp.size() ) );
    }
    for ( auto& a : as ) if ( a->alive ) { bool good = a->a->recs.size() == a->exp.size(); for ( size_t i = 0; good && i < a->exp.size(); i++ ) good = a->a->recs[ i ].cat + "|" + a->a->recs[ i ].msg == a->exp[ i ]; ok( "records received", good ); }
    for ( auto& q : m ) if ( !q.first.empty() ) Category::getInstance( q.first ).removeAllAppenders();
    for ( size_t k = 0; k < as.size(); k++ ) { bool ow = false; for ( auto& q : m ) ow |= q.second.owned.count( k ) > 0; if ( as[ k ]->alive && ow ) as[ k ]->alive = false; if ( as[ k ]->alive ) { ok( "appender of others not destroyed", as[ k ]->cnt == 1 ); delete as[ k ]->a; } ok( "appender destroyed once", as[ k ]->cnt == 0 ); }
}

// ---- files, streams, queues ----------------------------------------------------------------------
static std::string scratch()
{
    if ( const char* e = getenv( "VERIF_SCRATCH" ) ) return e;
    static std::string d; if ( d.empty() ) { char b[] = "/tmp/vhlogXXXXXX"; d = mkdtemp( b ) ? b : "/tmp"; atexit( [] { std::string c = "rm -rf '" + d + "'"; if ( d.compare( 0, 10, "/tmp/vhlog" ) == 0 && system( c.c_str() ) ) {} } ); }
    return d;
}
static std::string slurp( const std::string& f ) { std::ifstream i( f.c_str(), std::ios::binary ); std::ostringstream o; o << i.rdbuf(); return o.str(); }
static std::vector< std::string > lines( const std::string& s, bool& whole ) { std::vector< std::string > v; size_t p = 0; while ( p < s.size() ) { size_t e = s.find( '\n', p ); if ( e == std::string::npos ) { whole = false; break; } v.push_back( s.substr( p, e - p ) ); p = e + 1; } return v; }
/// all threads' lines whole, once, in each thread's order
static bool checkLines( const std::vector< std::string >& v, const std::vector< std::vector< std::string > >& plan, std::string& why, bool ordered = true )
{
    std::vector< size_t > pos( plan.size(), 0 ); std::set< std::string > seenL;
    for ( auto& l : v )
    {
        int a = -1, s = -1; if ( !parse( l, a, s ) || a < 0 || a >= int( plan.size() ) || s < 0 || s >= int( plan[ a ].size() ) || plan[ a ][ s ] != l ) { why = "broken line " + l.substr( 0, 100 ); return false; }
        if ( ordered && size_t( s ) != pos[ a ] ) { why = fmt( "thread %d: line %d where %zu was due", a, s, pos[ a ] ); return false; }
        if ( !seenL.insert( l ).second ) { why = "twice " + l.substr( 0, 60 ); return false; }
        pos[ a ]++;
    }
    for ( size_t a = 0; a < plan.size(); a++ ) if ( pos[ a ] != plan[ a ].size() ) { why = fmt( "%zu of %zu lines of thread %zu", pos[ a ], plan[ a ].size(), a ); return false; }
    return true;
}
static PatternLayout* plain() { PatternLayout* p = new PatternLayout; p->setConversionPattern( "%m%n" ); return p; }

SECTION( "file-stream-and-queue-appenders", 120, 4000 )
{
    Watch watch( "deadlock:file-stream-and-queue-appenders" );
    std::string top = uname( "f" ); Category &c1 = Category::getInstance( top + ".a" ), &c2 = Category::getInstance( top + ".b" ); Category& c0 = Category::getInstance( top ); c0.setAdditivity( false ); c0.setPriority( 800 > 700 ? 700 : 0 );
    std::string fn = scratch() + "/" + top; int T = r.in( 2, 5 ), M = r.in( 30, 200 );
    bool byTwo = r.coin();
    FileAppender* f1 = new FileAppender( uname( "fa" ), fn, r.coin() ); f1->setLayout( plain() );
    FileAppender* f2 = byTwo ? new FileAppender( uname( "fa" ), fn ) : 0; if ( f2 ) f2->setLayout( plain() ); // two appenders on one file
    if ( f2 ) f1->setAppend( true );
    std::ostringstream os; OstreamAppender* oa = new OstreamAppender( uname( "oa" ), &os ); oa->setLayout( plain() );
    StringQueueAppender* qa = new StringQueueAppender( uname( "qa" ) ); qa->setLayout( plain() );
    std::string roll = fn + ".roll"; RollingFileAppender* ra = new RollingFileAppender( uname( "ra" ), roll, r.in( 500, 3000 ), 5000 ); ra->setLayout( plain() );
    // stream, queue and rolling file are shared by two sibling categories
    c1.addAppender( *oa ); c2.addAppender( *oa ); c1.addAppender( *qa ); c2.addAppender( *qa ); c1.addAppender( *ra ); c2.addAppender( *ra );
    c1.addAppender( *f1 ); c2.addAppender( f2 ? *f2 : *f1 );
    std::vector< std::vector< std::string > > plan( T ); for ( int a = 0; a < T; a++ ) for ( int s = 0; s < M; s++ ) plan[ a ].push_back( body( r, a, s ) );
    std::atomic< int > go{ 0 }, left{ T }; bool churn = r.coin( 0.6 ); int X = churn ? 2 : 1;
    std::vector< std::string > popped; std::vector< std::string > moved; std::atomic< int > rolls{ 0 };
    std::vector< std::thread > th;
    th.emplace_back( [ & ] { go++; while ( go < T + X ) sched_yield(); for ( ;; ) { bool fin = left == 0; size_t n = qa->queueSize(); std::string m = qa->popMessage(); if ( m.empty() ) { if ( n ) fail( "queue size", "not empty but nothing to pop" ); if ( fin ) break; sched_yield(); } else popped.push_back( m ); } } );
    if ( churn ) th.emplace_back( [ & ] { go++; while ( go < T + X ) sched_yield(); int k = 0; while ( left > 0 && k < 20 ) {
        // log rotation by renaming: what is written goes to the old file until the appenders are reopened
        std::string nn = fn + ".old" + std::to_string( k++ ); if ( rename( fn.c_str(), nn.c_str() ) == 0 ) moved.push_back( nn );
        f1->setAppend( true ); Appender::reopenAll(); rolls++;
        oa->setLayout( plain() ); qa->setLayout( plain() ); ra->setMaximumFileSize( 700 + 100 * ( k % 9 ) ); ra->reopen(); ra->setThreshold( 800 ); f1->setMode( 0600 ); sched_yield(); } } );
    for ( int a = 0; a < T; a++ ) th.emplace_back( [ &, a ] { go++; while ( go < T + X ) sched_yield(); for ( int s = 0; s < M; s++ ) { Category& c = ( a + s / 7 ) & 1 ? c1 : c2; emit( c, 500, plan[ a ][ s ], s % 7 ); } left--; } );
    for ( auto& x : th ) x.join();
    c0.removeAllAppenders(); c1.removeAllAppenders(); c2.removeAllAppenders();
    f1->close(); if ( f2 ) f2->close(); ra->close();
    std::string why; bool whole = true; std::string all; for ( auto& n : moved ) all += slurp( n ); all += slurp( fn );
    auto L = lines( all, whole );
    // two appenders on a renamed file are reopened one after the other: only the set of lines is defined then
    ok( "lines of a file", checkLines( L, plan, why, !( byTwo && churn ) ) && whole, why );
    whole = true; ok( "lines of a stream", checkLines( lines( os.str(), whole ), plan, why ) && whole, why );
    std::string pq; for ( auto& p : popped ) pq += p; whole = true; ok( "messages of a queue", checkLines( lines( pq, whole ), plan, why ) && whole && popped.size() == size_t( T * M ), why );
    std::string rs; int nb = 0; for ( int i = 5000; i >= 1; i-- ) { std::string n = roll + "." + std::to_string( i ); struct stat sb; if ( stat( n.c_str(), &sb ) == 0 ) { rs += slurp( n ); nb++; remove( n.c_str() ); } else if ( nb ) fail( "gap in the numbering of backups", n ); }
    rs += slurp( roll ); whole = true; ok( "lines of rolling files", checkLines( lines( rs, whole ), plan, why ) && whole, why );
    event( "file rotations during logging", rolls ); event( "rolled files", nb ); event( "lines read back", L.size() );
    remove( fn.c_str() ); remove( roll.c_str() ); for ( auto& n : moved ) remove( n.c_str() );
    delete f1; delete f2; delete oa; delete qa; delete ra;
}

SECTION( "registry-of-appenders", 200, 5000 )
{
    std::vector< std::unique_ptr< Recorder > > v; std::map< std::string, Recorder* > reg; std::string base = uname( "r" );
    int n = r.in( 2, 8 );
    for ( int o = 0; o < 3 * n; o++ )
    {
        if ( v.empty() || r.coin( 0.6 ) ) { std::string nm = base + std::string( 1, char( 'a' + r.in( 0, 3 ) ) ); v.emplace_back( new Recorder( nm ) ); v.back()->failReopen = r.coin( 0.3 ); reg[ nm ] = v.back().get(); }
        else { int i = r.in( 0, int( v.size() ) - 1 ); auto it = reg.find( v[ i ]->getName() ); if ( it != reg.end() && it->second == v[ i ].get() ) reg.erase( it ); v.erase( v.begin() + i ); }
        for ( char c = 'a'; c < 'e'; c++ ) { auto it = reg.find( base + c ); ok( "registered appender", Appender::getAppender( base + c ) == ( it == reg.end() ? 0 : it->second ) ); }
        std::map< Recorder*, uint64_t > ro, cl; for ( auto& q : v ) { ro[ q.get() ] = q->reopened.load(); cl[ q.get() ] = q->closed; }
        bool all = true; for ( auto& q : reg ) all &= !q.second->failReopen;
        ok( "result of reopening all", Appender::reopenAll() == all );
        Appender::closeAll();
        for ( auto& q : reg ) { ok( "every registered appender reopened", q.second->reopened == ro[ q.second ] + 1 ); ok( "every registered appender closed", q.second->closed == cl[ q.second ] + 1 ); }
    }
}

SECTION( "diagnostic-contexts", 150, 5000 )
{
    Watch watch( "deadlock:diagnostic-contexts" );
    int T = r.in( 2, 5 ), M = r.in( 20, 100 ), sd = r.in( 0, 1 << 30 ); std::atomic< int > go{ 0 };
    std::vector< std::vector< std::string > > start; std::unique_ptr< NDC::ContextStack > stack;
    NDC::clear(); std::vector< std::string > own; for ( int i = r.in( 0, 4 ); i > 0; i-- ) { own.push_back( "p" + std::to_string( i ) ); NDC::push( own.back() ); }
    stack.reset( NDC::cloneStack() );
    std::string top = uname( "n" ); Category& c = Category::getInstance( top ); c.setAdditivity( false ); c.setPriority( 700 ); Recorder rec( uname( "a" ), 2 ); c.addAppender( rec );
    std::vector< std::vector< std::string > > exp( T ); std::vector< std::string > bad( T );
    auto join = []( const std::vector< std::string >& v ) { std::string s; for ( auto& x : v ) s += ( s.empty() && &x == &v[ 0 ] ? "" : " " ) + x; return s; };
    auto work = [ & ]( int a ) {
        Rng q( sd + a ); go++; while ( go < T ) sched_yield(); std::vector< std::string > mine;
        if ( NDC::getDepth() != 0 || NDC::get() != "" ) bad[ a ] = "context of a new thread not empty";
        if ( NDC::pop() != "" || NDC::getDepth() != 0 ) bad[ a ] = "pop of an empty context";
        if ( a % 2 ) { NDC::inherit( stack.get() ); mine = own; }
        for ( int i = 0; i < M; i++ )
        {
            switch ( q.in( 0, 5 ) ) { case 0: case 1: case 2: mine.push_back( "t" + std::to_string( a ) + "." + std::to_string( i ) ); NDC::push( mine.back() ); break; case 3: case 4: { std::string w = mine.empty() ? "" : mine.back(); if ( !mine.empty() ) mine.pop_back(); if ( NDC::pop() != w ) bad[ a ] = "popped context"; break; } case 5: if ( q.coin( 0.2 ) ) { NDC::clear(); mine.clear(); } break; }
            if ( NDC::getDepth() != mine.size() ) bad[ a ] = "depth";
            if ( NDC::get() != join( mine ) ) bad[ a ] = NDC::get() + " instead of " + join( mine );
            c.info( "<" + std::to_string( a ) + ":" + std::to_string( i ) + ">" ); exp[ a ].push_back( join( mine ) );
        }
    };
    std::vector< std::thread > th; for ( int a = 0; a < T; a++ ) th.emplace_back( work, a ); for ( auto& x : th ) x.join();
    for ( int a = 0; a < T; a++ ) ok( "context of a thread", bad[ a ].empty(), bad[ a ] );
    bool good = rec.recs.size() == size_t( T * M ); for ( auto& x : rec.recs ) { int a = -1, s = -1; good = good && parse( x.msg, a, s ) && a >= 0 && a < T && s >= 0 && s < M && exp[ a ][ s ] == x.ndc; }
    ok( "context in the record is that of its thread", good );
    ok( "context of this thread untouched", NDC::getDepth() == own.size() && NDC::get() == join( own ) ); NDC::clear();
    c.removeAllAppenders();
}

SECTION( "messages-and-streams", 300, 10000 )
{
    std::string top = uname( "s" ); Category& c = Category::getInstance( top ); c.setAdditivity( false ); int pr = r.pick( levels ); c.setPriority( pr ); Recorder rec( uname( "a" ) ); c.addAppender( rec );
    std::vector< std::pair< int, std::string > > exp;
    for ( int k = 0; k < 8; k++ )
    {
        int p = r.pick( levels ); std::string w; size_t L = r.coin( 0.4 ) ? r.in( 1000, 1050 ) : r.coin( 0.3 ) ? r.in( 2000, 30000 ) : r.in( 0, 60 );
        std::string s; for ( size_t i = 0; i < L; i++ ) s += char( r.in( 32, 126 ) );
        int i = r.in( -1000000, 1000000 ); double d = r.sgn() * r.logu( 1e-6, 1e6 ); unsigned long u = r.u64();
        std::vector< char > b( L + 400 );
        switch ( r.in( 0, 5 ) )
        {
        case 0: snprintf( &b[ 0 ], b.size(), "%d %s %g %lu%%", i, s.c_str(), d, u ); w = &b[ 0 ]; c.log( p, "%d %s %g %lu%%", i, s.c_str(), d, u ); exp.push_back( { p, w } ); break;
        case 1: snprintf( &b[ 0 ], b.size(), "%s|%08x|%-20.3f|", s.c_str(), unsigned( i ), d ); w = &b[ 0 ]; va( c, p, "%s|%08x|%-20.3f|", s.c_str(), unsigned( i ), d ); exp.push_back( { p, w } ); break;
        case 2: c.log( p, s ); exp.push_back( { p, s } ); break;
        case 3: { std::ostringstream o; o << i << ' ' << s << d << true << 'c'; { CategoryStream st = c.getStream( p ); st << i << ' ' << s << d << true << 'c'; } exp.push_back( { p, o.str() } ); break; }
        case 4: { // several records through one stream, with manipulators
            CategoryStream st = c.getStream( p ); int R = r.in( 1, 4 );
            for ( int q = 0; q < R; q++ )
            {
                std::ostringstream o; bool lft = r.coin( 0.4 ), any = false; int w2 = r.coin( 0.4 ) ? r.in( 1, 20 ) : 0;
                if ( lft ) { st << log4cpp::left; o.setf( std::ios::left ); any = true; } if ( w2 ) { st.width( w2 ); o.width( w2 ); any = true; }
                if ( r.coin( 0.8 ) ) { st << i << s; o << i << s; any = true; }
                int e = r.in( 0, 2 ); if ( e == 0 ) st << log4cpp::eol; else if ( e == 1 ) st << CategoryStream::ENDLINE; else st.flush();
                if ( any ) exp.push_back( { p, o.str() } );
            } break; }
        case 5: { FixedContextCategory f( top, "ctx" ); f.setPriority( p ); f.log( p, s ); exp.push_back( { -p - 1, s } ); break; }
        }
    }
    std::vector< std::pair< int, std::string > > want; for ( auto& e : exp ) if ( e.first < 0 || e.first <= pr ) want.push_back( e );
    bool good = rec.recs.size() == want.size(); std::string why = fmt( "%zu records instead of %zu", rec.recs.size(), want.size() );
    for ( size_t i = 0; good && i < want.size(); i++ ) { auto& x = rec.recs[ i ]; bool fix = want[ i ].first < 0; int p = fix ? -want[ i ].first - 1 : want[ i ].first; good = x.msg == want[ i ].second && x.prio == p && x.cat == top && x.ndc == ( fix ? "ctx" : "" ); why = "record " + std::to_string( i ) + " " + x.msg.substr( 0, 100 ) + " instead of " + want[ i ].second.substr( 0, 100 ); }
    ok( "messages arrive whole", good, why );
    // a destroyed fixed context category is no longer part of the hierarchy
    c.setPriority( 300 ); Category::getInstance( top + ".z" ).setPriority( 800 ); ok( "priority after fixed contexts", Category::getInstance( top + ".z" ).getChainedPriority() == 300 );
    c.removeAllAppenders();
}

SECTION( "remote-syslog", 60, 1500 )
{
    Watch watch( "deadlock:remote-syslog" );
    int s = socket( AF_INET, SOCK_DGRAM, 0 ); sockaddr_in a; memset( &a, 0, sizeof a ); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl( INADDR_LOOPBACK ); socklen_t al = sizeof a;
    int big = 4 << 20; if ( s >= 0 ) setsockopt( s, SOL_SOCKET, SO_RCVBUF, &big, sizeof big );
    if ( s < 0 || bind( s, (sockaddr*)&a, sizeof a ) || getsockname( s, (sockaddr*)&a, &al ) ) { event( "no loopback network" ); ok( "loopback network missing: nothing to observe", true ); if ( s >= 0 ) close( s ); return; }
    timeval tv = { 3, 0 }; setsockopt( s, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv );
    std::string top = uname( "y" ); Category &c = Category::getInstance( top ), &c2 = Category::getInstance( top + "2" ); c.setAdditivity( false ); c2.setAdditivity( false ); c.setPriority( 750 ); c2.setPriority( 750 );
    int fac = r.coin() ? LOG_USER : LOG_LOCAL3; int bp = ntohs( a.sin_port );
    RemoteSyslogAppender* ap = new RemoteSyslogAppender( uname( "ra" ), "name", "127.0.0.1", fac, bp ); ap->setLayout( plain() );
    c.addAppender( *ap ); c2.addAppender( *ap );
    int T = r.in( 1, 3 ), M = r.in( 2, 8 ); std::vector< std::vector< std::pair< int, std::string > > > plan( T );
    for ( int t = 0; t < T; t++ ) for ( int i = 0; i < M; i++ ) { std::string m = body( r, t, i ); if ( T > 1 && m.size() > 800 ) m.resize( 800 ); if ( T == 1 && r.coin( 0.3 ) ) { m.resize( 890 + r.in( 0, 20 ), 'x' ); } plan[ t ].push_back( { r.pick( levels ), m } ); }
    std::vector< std::thread > th; std::atomic< int > go{ 0 };
    for ( int t = 0; t < T; t++ ) th.emplace_back( [ &, t ] { go++; while ( go < T ) sched_yield(); for ( int i = 0; i < M; i++ ) { emit( ( t + i ) & 1 ? c : c2, plan[ t ][ i ].first, plan[ t ][ i ].second, i % 3 ); if ( t == 0 && i == M / 2 ) ap->reopen(); } } );
    for ( auto& x : th ) x.join();
    static const int sys[ 9 ] = { 0, 1, 2, 3, 4, 5, 6, 7, 7 };
    std::vector< size_t > pos( T, 0 ); bool good = true; std::string why; int total = T * M, got = 0; std::string part; int partPri = -1;
    while ( got < total && good )
    {
        char b[ 8192 ]; ssize_t n = recv( s, b, sizeof b, 0 ); if ( n < 0 ) { good = false; why = fmt( "%d of %d records received", got, total ); break; }
        event( "datagrams received" ); std::string d( b, n ); if ( n > 900 ) { good = false; why = fmt( "datagram of %d bytes", int( n ) ); break; }
        size_t e = d.find( '>' ); int pri; if ( d[ 0 ] != '<' || e == std::string::npos || sscanf( d.c_str(), "<%d>", &pri ) != 1 ) { good = false; why = "no priority in " + d.substr( 0, 60 ); break; }
        if ( !part.empty() && pri != partPri ) { good = false; why = "part with another priority"; break; }
        partPri = pri; part += d.substr( e + 1 ); if ( part[ part.size() - 1 ] != '\n' ) continue;
        part.resize( part.size() - 1 ); int t = -1, i = -1;
        if ( !parse( part, t, i ) || t < 0 || t >= T || size_t( i ) != pos[ t ] || plan[ t ][ i ].second != part ) { good = false; why = "broken record " + part.substr( 0, 80 ); break; }
        int lv = std::find( levels.begin(), levels.end(), plan[ t ][ i ].first ) - levels.begin();
        if ( pri != fac + sys[ lv ] ) { good = false; why = fmt( "priority %d instead of %d", pri, fac + sys[ lv ] ); break; }
        pos[ t ]++; got++; part.clear();
    }
    ok( "records sent to a remote syslog", good, why );
    c.removeAllAppenders(); c2.removeAllAppenders(); delete ap; close( s );
}
VH_MAIN
