// C28: serial ports on pseudo terminals, file search in scratch directories, block timers under a
// controlled clock. Models of the line, of the descriptor table and of the directory, and the clock
// itself are the oracles; the terminal and clock calls of the library are observed at the libc border.
#include "vh.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <dirent.h>
#include <dlfcn.h>
#include <fstream>
#include <list>
#include <memory>
#include <mutex>
#include <poll.h>
#include <pthread.h>
#include <pty.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <termios.h>
#include <thread>
#include <log4cpp/AppenderSkeleton.hh>
#include <log4cpp/Category.hh>
#include <utUtil/BlockTimer.h>
#include <utUtil/Exception.h>
#include <utUtil/GlobFiles.h>
#include <utUtil/OS.h>
#include <utUtil/SerialPort.h>
#undef N
#undef O
#undef E
using namespace vh;
using namespace Ubitrack::Util;
namespace fs = boost::filesystem;

// ---- the libc border: terminal settings are recorded, clocks can be advanced and stepped
static std::atomic< long long > advance_ns{ 0 }, step_ns{ 0 };
static thread_local bool failSet = false;
static std::atomic< int > setCalls{ 0 };
static struct termios lastSet; static int lastSetFd = -1;
static int rawClock( clockid_t c, struct timespec* t ) { return int( syscall( SYS_clock_gettime, c, t ) ); }
static void shift( struct timespec* t, long long d )
{
    long long n = t->tv_sec * 1000000000ll + t->tv_nsec + d; t->tv_sec = n / 1000000000ll; t->tv_nsec = n % 1000000000ll;
}
extern "C" int clock_gettime( clockid_t c, struct timespec* t ) noexcept
{
    int r = rawClock( c, t ); if ( r == 0 ) shift( t, advance_ns + ( c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? step_ns.load() : 0 ) ); return r;
}
extern "C" int gettimeofday( struct timeval* tv, void* ) noexcept
{
    struct timespec t; clock_gettime( CLOCK_REALTIME, &t ); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0;
}
extern "C" int tcsetattr( int fd, int a, const struct termios* t ) noexcept
{
    typedef int ( *Fn )( int, int, const struct termios* ); static Fn real = (Fn)dlsym( RTLD_NEXT, "tcsetattr" );
    setCalls++; lastSet = *t; lastSetFd = fd;
    if ( failSet ) { errno = EIO; return -1; }
    return real( fd, a, t );
}
static double nowReal() { struct timespec t; rawClock( CLOCK_MONOTONIC, &t ); return t.tv_sec + t.tv_nsec * 1e-9; }
static std::string scratch() { const char* e = getenv( "VERIF_SCRATCH" ); return e ? e : "."; }

static const std::vector< unsigned long > rates = { 9600, 19200, 38400, 57600, 115200, 230400 };
static speed_t code( unsigned long b ) { switch ( b ) { case 9600: return B9600; case 19200: return B19200; case 38400: return B38400; case 57600: return B57600; case 115200: return B115200; default: return B230400; } }

/// descriptor table: number -> identity of the open file
static std::map< int, std::string > table()
{
    std::map< int, std::string > m;
    for ( int f = 0; f < 512; f++ ) { struct stat s; if ( fstat( f, &s ) == 0 ) m[ f ] = fmt( "%llx:%llx:%llx", (unsigned long long)s.st_dev, (unsigned long long)s.st_ino, (unsigned long long)s.st_rdev ); }
    return m;
}
struct Pty
{
    int master = -1; std::string name; struct termios cooked;
    Pty()
    {
        int slave; char b[ 256 ]; if ( openpty( &master, &slave, b, 0, 0 ) != 0 ) throw std::runtime_error( "no pseudo terminal" );
        name = b; tcgetattr( slave, &cooked ); keep = slave;
    }
    ~Pty() { hang(); if ( keep >= 0 ) ::close( keep ); }
    void hang() { if ( master >= 0 ) ::close( master ); master = -1; }
    int keep; // keeps the line up while the port is closed
};
static std::string bytes( Rng& r, int n ) { std::string s( n, 0 ); for ( auto& c : s ) c = char( r.u64() ); return s; }
static void put( int fd, const std::string& s ) { size_t o = 0; while ( o < s.size() ) { ssize_t k = ::write( fd, s.data() + o, s.size() - o ); if ( k > 0 ) o += k; else if ( errno != EINTR ) break; } }
static std::string getn( int fd, size_t n, double seconds )
{
    std::string s; double end = nowReal() + seconds;
    while ( s.size() < n && nowReal() < end )
    {
        struct pollfd p = { fd, POLLIN, 0 }; if ( poll( &p, 1, 100 ) <= 0 ) continue;
        char b[ 4096 ]; ssize_t k = ::read( fd, b, std::min( sizeof b, n - s.size() ) ); if ( k > 0 ) s.append( b, k ); else if ( k == 0 || errno != EINTR ) break;
    }
    return s;
}
static std::string extra( int fd ) { std::string s; struct pollfd p = { fd, POLLIN, 0 }; while ( poll( &p, 1, 5 ) > 0 && ( p.revents & POLLIN ) ) { char b[ 256 ]; ssize_t k = ::read( fd, b, sizeof b ); if ( k <= 0 ) break; s.append( b, k ); } return s; }

SECTION( "serial-transfer", 40, 1500 )
{
    Watch w( "serial-hang" );
    Pty p; SerialPort port( p.name, r.pick( rates ), 8, r.in( 0, 2 ), r.in( 1, 2 ) );
    port.open( r.in( 1, 3 ), 0 );
    std::string up = bytes( r, r.in( 0, r.coin() ? 300 : 20000 ) ), down = bytes( r, r.in( 0, r.coin() ? 300 : 20000 ) );
    if ( idx % 4 == 0 ) { up.clear(); for ( int i = 0; i < 256; i++ ) up += char( i ); down = up; }
    int mode = r.in( 0, 2 );
    Rng r1( r.u64() ), r2( r.u64() );
    std::string got, far; bool overlong = false;
    auto sendAll = [ & ]() { size_t o = 0; while ( o < up.size() ) { size_t n = std::min( up.size() - o, size_t( r1.in( 1, 700 ) ) ); unsigned long k = port.send( (const unsigned char*)up.data() + o, n ); if ( k > n ) { overlong = true; break; } o += k; } };
    auto readAll = [ & ]()
    {
        int idle = 0;
        while ( got.size() < down.size() && idle < 100 )
        {
            size_t n = r2.in( 1, 900 ); std::vector< unsigned char > b( n, 0 );
            unsigned long k = port.read( b.data(), n ); if ( k > n ) { overlong = true; break; }
            if ( k == 0 ) idle++; else { idle = 0; got.append( (char*)b.data(), k ); }
        }
    };
    if ( mode == 0 )
    {
        std::thread a( [ & ] { far = getn( p.master, up.size(), 60 ); } ), b( [ & ] { put( p.master, down ); } );
        sendAll(); readAll(); a.join(); b.join();
    }
    else
    {
        // both directions at the same time, port used by one sending and one reading thread
        std::thread a( [ & ] { far = getn( p.master, up.size(), 60 ); } ), b( [ & ] { put( p.master, down ); } ), c( sendAll );
        readAll(); a.join(); b.join(); c.join();
    }
    ok( "serial-count-in-range", !overlong, "more bytes reported than given" );
    ok( "serial-sent-in-order", far == up, fmt( "%zu bytes sent, %zu arrived", up.size(), far.size() ) );
    ok( "serial-received-in-order", got == down, fmt( "%zu bytes on the line, %zu received", down.size(), got.size() ) );
    std::string e = extra( p.master ); ok( "serial-nothing-added", e.empty(), fmt( "%zu bytes echoed", e.size() ) );
    unsigned char c; ok( "serial-nothing-left", port.bytesOnRead() == 0 && port.read( &c, 1 ) == 0, "bytes invented" );
    port.close(); event( "bytes-transferred", up.size() + down.size() );
    sample( fmt( "mode %d up %zu down %zu", mode, up.size(), down.size() ) );
}

SECTION( "serial-settings", 300, 8000 )
{
    Pty p; bool good = r.coin( 0.8 );
    unsigned long baud = good ? r.pick( rates ) : r.coin() ? (unsigned long)r.in( 0, 300000 ) : ( r.u64() >> r.in( 0, 60 ) );
    if ( !good && std::count( rates.begin(), rates.end(), baud ) ) good = true;
    int bits = r.in( 5, 8 ), par = r.in( 0, 2 ), stop = r.in( 1, 2 ), vt = r.in( 0, 40 ), vm = r.in( 0, 40 );
    auto before = table(); int calls = setCalls; bool dflt = r.coin( 0.1 );
    std::unique_ptr< SerialPort > port( dflt ? new SerialPort( p.name, baud ) : new SerialPort( p.name, baud, bits, par, stop ) );
    if ( dflt ) { bits = 8; par = 0; stop = 1; }
    ok( "serial-baud-kept", port->getBaudRate() == baud );
    // odd starting state of the line
    struct termios odd = p.cooked; odd.c_iflag ^= tcflag_t( r.u64() & ( ICRNL | INLCR | IGNCR | ISTRIP | IXON | IXOFF | PARMRK | INPCK ) ); odd.c_lflag ^= tcflag_t( r.u64() & ( ECHO | ICANON | ISIG | ECHONL | IEXTEN ) ); odd.c_oflag ^= tcflag_t( r.u64() & ( OPOST | ONLCR | OCRNL ) );
    odd.c_cflag ^= tcflag_t( r.u64() & ( HUPCL | CLOCAL ) ); odd.c_cc[ VTIME ] = cc_t( r.in( 0, 20 ) ); odd.c_cc[ VMIN ] = cc_t( r.in( 0, 20 ) );
    tcsetattr( p.keep, TCSANOW, &odd ); tcgetattr( p.keep, &odd ); calls = setCalls;
    bool threw = false; try { if ( r.coin( 0.1 ) ) { vt = 5; vm = 0; port->open(); } else port->open( vt, vm ); } catch ( const Exception& ) { threw = true; }
    if ( !good )
    {
        ok( "serial-unsupported-rate-reported", threw, fmt( "rate %lu accepted", baud ) );
        ok( "serial-failed-open-leaks", table() == before, "descriptor table changed" );
        ok( "serial-failed-open-closed", throws( [ & ] { unsigned char c; port->read( &c, 1 ); } ), "port open after a failed open" );
        return;
    }
    ok( "serial-supported-rate", !threw, fmt( "rate %lu refused", baud ) ); if ( threw ) return;
    ok( "serial-configured-once-or-more", setCalls > calls );
    struct termios t = lastSet;
    ok( "serial-speed", cfgetospeed( &t ) == code( baud ) && cfgetispeed( &t ) == code( baud ), fmt( "rate %lu", baud ) );
    static const tcflag_t sizes[] = { CS5, CS6, CS7, CS8 };
    ok( "serial-data-bits", ( t.c_cflag & CSIZE ) == sizes[ bits - 5 ], fmt( "%d bits", bits ) );
    ok( "serial-parity", bool( t.c_cflag & PARENB ) == ( par != 0 ) && ( par == 0 || bool( t.c_cflag & PARODD ) == ( par == 1 ) ), fmt( "parity %d flags %o", par, t.c_cflag ) );
    ok( "serial-stop-bits", bool( t.c_cflag & CSTOPB ) == ( stop == 2 ), fmt( "%d stop bits", stop ) );
    ok( "serial-receiver-on", ( t.c_cflag & CREAD ) && ( t.c_cflag & CLOCAL ) );
    ok( "serial-raw-input", !( t.c_iflag & ( ICRNL | INLCR | IGNCR | ISTRIP | IXON | IXOFF | PARMRK ) ), fmt( "iflag %o", t.c_iflag ) );
    ok( "serial-raw-output", !( t.c_oflag & OPOST ) );
    ok( "serial-raw-local", !( t.c_lflag & ( ECHO | ECHONL | ICANON | ISIG | IEXTEN ) ), fmt( "lflag %o", t.c_lflag ) );
    ok( "serial-timing", t.c_cc[ VTIME ] == vt && t.c_cc[ VMIN ] == vm, fmt( "want %d %d got %d %d", vt, vm, t.c_cc[ VTIME ], t.c_cc[ VMIN ] ) );
    if ( r.coin() ) port->close(); else port.reset();
    struct termios after; tcgetattr( p.keep, &after );
    ok( "serial-restored", after.c_iflag == odd.c_iflag && after.c_oflag == odd.c_oflag && after.c_lflag == odd.c_lflag && after.c_cflag == odd.c_cflag && after.c_cc[ VTIME ] == odd.c_cc[ VTIME ] && after.c_cc[ VMIN ] == odd.c_cc[ VMIN ], "line settings not restored by close" );
    port.reset(); ok( "serial-no-descriptor-left", table() == before );
}

SECTION( "serial-history", 250, 8000 )
{
    Watch w( "serial-hang" );
    Pty lines[ 4 ]; std::string plain = scratch() + "/notatty" + std::to_string( getpid() ); { std::ofstream o( plain.c_str() ); o << "x"; }
    auto base = table(); // what is open apart from the ports and the foreign files
    struct Slot { std::unique_ptr< SerialPort > port; bool open, usable; int line; };
    std::vector< Slot > s; std::vector< int > foreign; std::map< int, std::string > own;
    int ops = r.in( 10, 60 ); std::string hist; int opened = 0;
    for ( int i = 0; i < ops; i++ )
    {
        int op = r.in( 0, 9 ); hist += char( '0' + op );
        if ( s.size() < 4 && ( op == 0 || s.empty() ) )
        {
            // one line for each port: closing a port restores the settings of its line
            int line = 0; for ( bool again = true; again; ) { again = false; for ( auto& x : s ) if ( x.line == line ) { line++; again = true; } }
            int k = r.in( 0, 5 ); std::string n = k == 0 ? plain : k == 1 ? scratch() + "/missing" : k == 2 ? scratch() : k == 3 ? std::string( "/dev/null" ) : lines[ line ].name;
            s.push_back( Slot{ std::unique_ptr< SerialPort >( new SerialPort( n, r.pick( rates ) ) ), false, k > 3, line } );
            continue;
        }
        Slot& t = s.empty() ? s.front() : s[ r.in( 0, int( s.size() ) - 1 ) ];
        if ( op <= 3 )
        {
            bool inject = t.usable && !t.open && r.coin( 0.15 ); failSet = inject;
            bool th = throws( [ & ] { t.port->open( 1, 0 ); } ); failSet = false;
            ok( "serial-open-result", th == ( !t.open && ( !t.usable || inject ) ), fmt( "open: %s, history %s", th ? "failed" : "worked", hist.c_str() ) );
            if ( t.usable && !inject ) { t.open = true; opened++; }
        }
        else if ( op <= 5 ) { t.port->close(); t.open = false; }
        else if ( op == 6 ) { if ( !s.empty() ) { size_t k = &t - &s[ 0 ]; s.erase( s.begin() + k ); } }
        else if ( op == 7 )
        {
            // a foreign file takes the lowest free descriptor
            if ( foreign.size() < 5 || r.coin() ) { int f = ::open( plain.c_str(), O_RDONLY ); foreign.push_back( f ); }
            else { ::close( foreign.back() ); foreign.pop_back(); }
        }
        else
        {
            unsigned char c[ 4 ] = { 1, 2, 3, 4 }; int k = r.in( 0, 4 ); unsigned long v = 0; long at = foreign.empty() ? 0 : lseek( foreign[ 0 ], 0, SEEK_CUR );
            bool th = throws( [ & ] { if ( k == 0 ) v = t.port->send( c, 4 ); else if ( k == 1 ) { t.port->flush(); } else if ( k == 2 ) v = t.port->bytesOnRead(); else if ( k == 3 ) { if ( t.open ) t.port->flush(); v = t.port->read( c, 1 ); } else t.port->sendBreak(); } );
            ok( "serial-use-result", th == !t.open, fmt( "operation %d on a %s port %s, history %s", k, t.open ? "open" : "closed", th ? "failed" : "worked", hist.c_str() ) );
            if ( !th && k == 0 ) { ok( "serial-history-sent", v == 4 ); ok( "serial-history-arrived", getn( lines[ t.line ].master, 4, 5 ) == std::string( "\1\2\3\4" ) ); }
            if ( !foreign.empty() ) ok( "serial-foreign-untouched", lseek( foreign[ 0 ], 0, SEEK_CUR ) == at, "a foreign file was read" );
        }
        // descriptor table = base + foreign files + one terminal per open port
        auto now = table(); int nOpen = 0; for ( auto& x : s ) nOpen += x.open; size_t foreignAlive = 0; int ttys = 0;
        for ( int f : foreign ) foreignAlive += now.count( f ) && now[ f ] != base[ 0 ] ? 1 : 0;
        base.erase( -1 );
        bool baseOk = true; for ( auto& b : base ) { auto it = now.find( b.first ); if ( it == now.end() || it->second != b.second ) baseOk = false; }
        ttys = int( now.size() ) - int( base.size() ) - int( foreign.size() );
        ok( "serial-foreign-descriptors", baseOk && foreignAlive == foreign.size(), "a foreign descriptor was closed, history " + hist );
        ok( "serial-descriptor-count", ttys == nOpen, fmt( "%d open ports hold %d descriptors, history %s", nOpen, ttys, hist.c_str() ) );
    }
    s.clear();
    for ( int f : foreign ) ok( "serial-foreign-after", ::close( f ) == 0, "a foreign descriptor was closed" );
    ok( "serial-no-descriptor-left", table() == base, "history " + hist );
    event( "ports-opened", opened ); remove( plain.c_str() );
}

SECTION( "serial-timeout", 12, 200 )
{
    Watch w( "serial-hang" );
    Pty p; SerialPort port( p.name, 9600 ); int vt = r.in( 1, 3 ), vm = 0; port.open( vt, vm );
    unsigned char b[ 64 ]; double t0 = nowReal(); unsigned long k = port.read( b, sizeof b ); double dt = nowReal() - t0;
    ok( "serial-timeout-empty", k == 0, fmt( "%lu bytes from an idle line", k ) );
    ok( "serial-timeout-waits", dt >= vt * 0.1 - 0.02, fmt( "returned after %.3f of %.1f s", dt, vt * 0.1 ) );
    std::string d = bytes( r, r.in( 1, 60 ) );
    put( p.master, d ); k = port.read( b, sizeof b ); std::string g( (char*)b, k );
    while ( g.size() < d.size() && ( k = port.read( b, sizeof b ) ) > 0 ) g.append( (char*)b, k );
    ok( "serial-timeout-data", g == d );
    // bytes that arrive while waiting
    std::thread a( [ & ] { usleep( 30000 ); put( p.master, d ); } );
    k = port.read( b, sizeof b ); a.join(); g.assign( (char*)b, k ); while ( g.size() < d.size() && ( k = port.read( b, sizeof b ) ) > 0 ) g.append( (char*)b, k );
    ok( "serial-timeout-late-data", g == d );
    port.close(); ok( "serial-timeout-closed", throws( [ & ] { port.read( b, 1 ); } ) );
    // a minimum number of bytes
    port.open( 0, 5 ); std::thread c( [ & ] { for ( int i = 0; i < 5; i++ ) { usleep( 3000 ); put( p.master, std::string( 1, char( i ) ) ); } } );
    k = port.read( b, sizeof b ); c.join(); ok( "serial-minimum", k == 5 && !memcmp( b, "\0\1\2\3\4", 5 ), fmt( "%lu bytes", k ) );
}

SECTION( "serial-queue", 120, 4000 )
{
    Watch w( "serial-hang" );
    Pty p; SerialPort port( p.name, 115200 ); port.open( 1, 0 ); std::string model; int fl = 0;
    auto settle = [ & ]() { for ( int i = 0; i < 2000 && port.bytesOnRead() < model.size(); i++ ) usleep( 500 ); };
    for ( int i = 0; i < 12; i++ )
    {
        int op = r.in( 0, 5 );
        if ( op <= 2 ) { std::string d = bytes( r, r.in( 1, 100 ) ); put( p.master, d ); model += d; settle(); }
        else if ( op == 3 ) { port.flush(); model.clear(); fl++; }
        else if ( !model.empty() ) { size_t n = r.in( 1, int( model.size() ) ); std::vector< unsigned char > b( n ); unsigned long k = port.read( b.data(), n ); ok( "serial-queue-read", k == n && !memcmp( b.data(), model.data(), n ), fmt( "%lu of %zu", k, n ) ); model.erase( 0, k ); }
        settle(); unsigned long v = port.bytesOnRead();
        ok( "serial-queue-length", v == model.size(), fmt( "%lu reported, %zu in the queue", v, model.size() ) );
    }
    event( "flushes", fl );
}

SECTION( "serial-gone", 60, 1500 )
{
    Watch w( "serial-hang" );
    auto base = table(); int ops = r.in( 1, 6 ); std::string hist;
    {
        Pty p; SerialPort port( p.name, 9600 ); port.open( 1, 0 );
        if ( r.coin() ) put( p.master, "abc" );
        unsigned char b[ 8 ] = { 0 }; bool data = false; if ( r.coin() ) { port.read( b, 3 ); data = true; } (void)data;
        p.hang();
        for ( int i = 0; i < ops; i++ )
        {
            int op = r.in( 0, 3 ); hist += char( '0' + op ); unsigned long v = 0;
            if ( op == 0 ) ok( "serial-gone-send", throws( [ & ] { v = port.send( b, 8 ); } ), fmt( "sending %lu bytes into a line that is gone reported as success", v ) );
            else if ( op == 1 ) { bool th = throws( [ & ] { v = port.read( b, 8 ); } ); ok( "serial-gone-read", th || v <= 8, fmt( "read reports %lu bytes", v ) ); }
            else if ( op == 2 ) { bool th = throws( [ & ] { v = port.bytesOnRead(); } ); ok( "serial-gone-poll", th || v <= 8, fmt( "%lu bytes reported", v ) ); }
            else { port.close(); ok( "serial-gone-reopen", throws( [ & ] { port.open(); } ), "line that is gone opened" ); ok( "serial-gone-closed", throws( [ & ] { port.bytesOnRead(); } ) ); break; }
        }
    }
    ok( "serial-no-descriptor-left", table() == base, "history " + hist );
}

// ---- file search ------------------------------------------------------------------------
static void wipe( const std::string& d )
{
    if ( DIR* h = opendir( d.c_str() ) )
    {
        while ( dirent* e = readdir( h ) ) { std::string n = e->d_name; if ( n == "." || n == ".." ) continue; std::string f = d + "/" + n; struct stat s; if ( lstat( f.c_str(), &s ) == 0 && S_ISDIR( s.st_mode ) ) wipe( f ); else unlink( f.c_str() ); }
        closedir( h ); rmdir( d.c_str() );
    }
}
static bool endsWith( const std::string& s, const std::string& e ) { return s.size() >= e.size() && s.compare( s.size() - e.size(), e.size(), e ) == 0; }
SECTION( "glob-model", 1500, 40000 )
{
    std::string dir = scratch() + "/glob" + std::to_string( getpid() ) + "_" + std::to_string( idx ); mkdir( dir.c_str(), 0755 );
    struct Entry { std::string name; bool file, dir; }; std::vector< Entry > es; std::set< std::string > used;
    static const std::vector< std::string > ext = { ".jpg", ".JPG", ".png", ".PNG", ".bmp", ".BMP", ".cal", ".BoostBinary", ".jpeg", ".Jpg", ".txt", "", ".jpg~", ".jpgx", "jpg", ".calx", ".cal.bak", ".CAL", ".boostbinary", "." };
    static const std::vector< std::string > stem = { "a", "b", "img10", "img9", "img09", "A", "_", ".hidden", "x y", "\xc3\xa4", "", "a.b", "-", "z+", "[1]", "\xff" };
    int n = r.in( 0, 14 );
    for ( int i = 0; i < n; i++ )
    {
        std::string nm = r.pick( stem ) + ( r.coin( 0.3 ) ? std::to_string( r.in( 0, 200 ) ) : "" ) + r.pick( ext );
        if ( nm.empty() || nm == "." || nm == ".." || nm.find_first_not_of( '.' ) == std::string::npos || !used.insert( nm ).second ) continue;
        std::string f = dir + "/" + nm; int k = r.in( 0, 11 ); Entry e = { nm, false, false };
        if ( k == 8 ) { mkdir( f.c_str(), 0755 ); e.dir = true; std::ofstream o( ( f + "/inner.jpg" ).c_str() ); }
        else if ( k == 9 ) { if ( symlink( "/does/not/exist", f.c_str() ) ) continue; }
        else if ( k == 10 ) { if ( symlink( nm.c_str(), f.c_str() ) ) continue; } // link to itself
        else if ( k == 11 ) { bool toDir = r.coin(); if ( symlink( toDir ? "/usr" : "/etc/passwd", f.c_str() ) ) continue; e.dir = toDir; e.file = !toDir; }
        else { std::ofstream o( f.c_str() ); if ( r.coin() ) o << "data"; e.file = true; }
        es.push_back( e );
    }
    int kind = r.in( 0, 8 ); std::list< fs::path > got, prior; std::string arg = dir + ( r.coin( 0.2 ) ? "/" : "" );
    if ( r.coin( 0.2 ) ) for ( int i = r.in( 1, 3 ); i > 0; --i ) prior.push_back( fs::path( dir + "/" + r.pick( stem ) + "prior" ) );
    got = prior; bool glDirs = false; std::function< bool( const std::string& ) > match; std::string pat; int en = -1;
    auto anyOf = []( const std::string& s, std::initializer_list< const char* > l ) { for ( auto e : l ) if ( endsWith( s, e ) ) return true; return false; };
    switch ( kind )
    {
    case 0: en = PATTERN_OPENCV_IMAGE_FILES; match = [ & ]( const std::string& s ) { return anyOf( s, { ".jpg", ".JPG", ".png", ".PNG", ".bmp", ".BMP" } ); }; break;
    case 1: en = PATTERN_UBITRACK_CALIBRATION_FILES; match = [ & ]( const std::string& s ) { return endsWith( s, ".cal" ); }; break;
    case 2: en = PATTERN_UBITRACK_BOOST_BINARY; match = [ & ]( const std::string& s ) { return endsWith( s, ".BoostBinary" ); }; break;
    case 3: en = PATTERN_DIRECTORIES; glDirs = true; match = []( const std::string& ) { return false; }; break;
    case 4: pat = ".*"; match = []( const std::string& ) { return true; }; break;
    case 5: pat = "img[0-9]+\\..*"; match = []( const std::string& s ) { size_t i = 3; if ( s.compare( 0, 3, "img" ) ) return false; while ( i < s.size() && isdigit( (unsigned char)s[ i ] ) ) i++; return i > 3 && i < s.size() && s[ i ] == '.'; }; break;
    case 6: pat = "a"; match = []( const std::string& s ) { return s == "a"; }; break;
    case 7: pat = ".*\\.(jpg|txt)"; glDirs = true; match = [ & ]( const std::string& s ) { return anyOf( s, { ".jpg", ".txt" } ); }; break;
    default: pat = "[^.]*"; match = []( const std::string& s ) { return s.find( '.' ) == std::string::npos; }; break;
    }
    std::vector< std::string > want; for ( auto& q : prior ) want.push_back( q.filename().string() ); size_t own = 0;
    for ( auto& e : es ) if ( ( e.file && match( e.name ) ) || ( e.dir && glDirs ) ) { want.push_back( e.name ); own++; }
    std::sort( want.begin(), want.end() );
    std::string what; auto before = table();
    bool th = throws( [ & ] { if ( en >= 0 ) globFiles( arg, FilePattern( en ), got ); else globFiles( arg, pat, got, glDirs ); }, &what );
    ok( "glob-no-descriptor-left", table() == before );
    std::string in; for ( auto& e : es ) in += e.name + ( e.dir ? "/" : e.file ? "" : "@" ) + " ";
    if ( own == 0 && prior.empty() ) ok( "glob-nothing-found-reported", th && what.find( "No suitable" ) != std::string::npos, "kind " + std::to_string( kind ) + " in " + in + ": " + what );
    else if ( own > 0 )
    {
        std::vector< std::string > g; bool parents = true; for ( auto& q : got ) { g.push_back( q.filename().string() ); if ( q.parent_path().string() != dir ) parents = false; }
        ok( "glob-found", !th, what + " kind " + std::to_string( kind ) + " in " + in );
        std::string gs, ws; for ( auto& x : g ) gs += x + " "; for ( auto& x : want ) ws += x + " ";
        std::vector< std::string > sg = g; std::sort( sg.begin(), sg.end() );
        ok( "glob-exact", sg == want, "kind " + std::to_string( kind ) + " got " + gs + " want " + ws + " in " + in );
        ok( "glob-sorted", g == sg, gs ); ok( "glob-paths", parents, "path outside of the directory" );
    }
    // a single file is returned whatever the pattern
    for ( auto& e : es ) if ( e.file ) { std::list< fs::path > one; globFiles( dir + "/" + e.name, FilePattern( r.in( 0, 3 ) ), one ); ok( "glob-single", one.size() == 1 && one.front().string() == dir + "/" + e.name, e.name ); break; }
    std::list< fs::path > none; ok( "glob-missing-reported", throws( [ & ] { globFiles( dir + "/nosuch", FilePattern( r.in( 0, 3 ) ), none ); } ) && none.empty() );
    if ( r.coin( 0.05 ) ) ok( "glob-bad-pattern-reported", throws( [ & ] { std::list< fs::path > l; globFiles( dir, std::string( "(" ), l ); } ) );
    event( "entries", es.size() ); event( "found", own ); wipe( dir );
}

// ---- block timers -----------------------------------------------------------------------
struct Rec { std::string msg, file; unsigned line; int prio; };
class Recorder : public log4cpp::AppenderSkeleton
{
public:
    std::vector< Rec > recs; Recorder() : AppenderSkeleton( "rec" ) {}
    bool reopen() override { return true; } void close() override {} bool requiresLayout() const override { return false; } void setLayout( log4cpp::Layout* l ) override { delete l; }
protected:
    void _append( const log4cpp::LoggingEvent& e ) override { recs.push_back( Rec{ e.message, e.file, e.line, int( e.priority ) } ); }
};
static void spend( long long us ) { advance_ns += us * 1000; }
struct Left : std::runtime_error { Left() : std::runtime_error( "left" ) {} };
struct Model { long long n = 0; double us = 0, slack = 0; };
static double field( const std::string& s, const std::string& k ) { size_t p = s.find( k + ":" ); return p == std::string::npos ? NAN : atof( s.c_str() + p + k.size() + 1 ); }

struct Nest
{
    Rng& r; std::vector< std::unique_ptr< BlockTimer > >& t; std::vector< Model > m; int blocks = 0; bool steps; unsigned firstLine = 0;
    Nest( Rng& r_, std::vector< std::unique_ptr< BlockTimer > >& t_, bool st ) : r( r_ ), t( t_ ), m( t_.size() ), steps( st ) {}
    void body( int depth, bool& leave )
    {
        int k = r.in( 0, 3 );
        for ( int i = 0; i < k && blocks < 60; i++ ) { spend( r.in( 0, 1 ) ? r.in( 0, 50 ) : r.in( 0, 2000000 ) ); if ( steps && r.coin( 0.3 ) ) step_ns += ( r.coin() ? 1 : -1 ) * (long long)( r.logu( 1e3, 1e16 ) ); if ( depth > 0 ) block( depth - 1 ); }
        leave = r.coin( 0.2 );
    }
    void block( int depth )
    {
        size_t k = r.in( 0, int( t.size() ) - 1 ); blocks++;
        double w0 = nowReal(); long long a0 = advance_ns; bool leave = false;
        try
        {
            BlockTimer& timer = *t[ k ];
            if ( r.coin() ) { UBITRACK_TIME( timer ); body( depth, leave ); if ( leave ) throw Left(); }
            else { BlockTimer::Time x( timer, "file.cpp", 42 ); body( depth, leave ); if ( leave ) throw Left(); }
        }
        catch ( const Left& ) { event( "left-by-exception" ); }
        m[ k ].n++; m[ k ].us += ( advance_ns - a0 ) * 1e-3; m[ k ].slack += ( nowReal() - w0 ) * 1e6 + 1;
        event( "timed-blocks" );
    }
};

SECTION( "timer-model", 1500, 60000 )
{
    advance_ns = 0; step_ns = 0; bool steps = idx % 2;
    static Recorder* rec = 0; static log4cpp::Category* cat = 0;
    if ( !rec ) { rec = new Recorder; cat = &log4cpp::Category::getInstance( "verif.timer" ); cat->setAdditivity( false ); cat->addAppender( rec ); cat->setPriority( log4cpp::Priority::INFO ); }
    rec->recs.clear();
    std::vector< std::unique_ptr< BlockTimer > > t; std::vector< int > logs; double w0 = nowReal(); long long a0 = advance_ns;
    int nt = r.in( 1, 4 );
    for ( int i = 0; i < nt; i++ ) { int k = r.in( 0, 2 ); logs.push_back( k ); std::string nm = "timer" + std::to_string( i ); t.emplace_back( k == 0 ? new BlockTimer( nm ) : k == 1 ? new BlockTimer( nm, "verif.timer" ) : new BlockTimer( nm, *cat ) ); ok( "timer-starts-empty", t[ i ]->getRuns() == 0 && t[ i ]->getTotalTime() == 0 && t[ i ]->getName() == nm ); }
    Nest nest( r, t, steps ); int top = r.in( 0, 6 ); for ( int i = 0; i < top; i++ ) nest.block( r.in( 0, 4 ) );
    size_t expectLogs = 0;
    for ( int i = 0; i < nt; i++ )
    {
        Model& m = nest.m[ i ]; const BlockTimer& b = *t[ i ];
        ok( "timer-counts", (long long)b.getRuns() == m.n, fmt( "%zu runs counted, %lld made", b.getRuns(), m.n ) );
        ok( "timer-accumulates", b.getTotalTime() * 1e3 >= m.us - m.n - 1 && b.getTotalTime() * 1e3 <= m.us + m.slack + 1, fmt( "total %.3f us, elapsed %.3f us (+%.1f), %lld runs%s", b.getTotalTime() * 1e3, m.us, m.slack, m.n, steps ? ", system time stepped" : "" ) );
        if ( m.n ) ok( "timer-average", std::fabs( b.getAvgTime() * m.n - b.getTotalTime() ) <= 1e-9 * ( 1 + b.getTotalTime() ) );
        if ( m.n && r.coin( 0.3 ) )
        {
            std::ostringstream o; o << b; std::string s = o.str(); double alive = ( advance_ns - a0 ) * 1e-6;
            ok( "timer-prints-name", s.find( b.getName() ) != std::string::npos, s );
            ok( "timer-prints-runs", field( s, "runs" ) == double( m.n ), s );
            ok( "timer-prints-total", std::fabs( field( s, "total" ) - b.getTotalTime() ) <= 1e-5 * b.getTotalTime() + 1e-9, s );
            ok( "timer-prints-average", std::fabs( field( s, "avg" ) - b.getAvgTime() ) <= 1e-5 * b.getAvgTime() + 1e-9, s );
            double rt = field( s, "totalRuntime" ); ok( "timer-prints-runtime", rt >= alive * ( 1 - 1e-5 ) - 0.002 && rt <= ( alive + ( nowReal() - w0 ) * 1e3 ) * ( 1 + 1e-5 ) + 0.002, fmt( "alive %.4f ms ", alive ) + s );
            if ( rt > 1 ) ok( "timer-prints-rate", std::fabs( field( s, "call per second" ) * rt / 1000.0 - m.n ) <= 2e-5 * m.n, s );
        }
        if ( logs[ i ] && m.n ) expectLogs++;
    }
    rec->recs.clear(); std::vector< size_t > runs; for ( auto& x : t ) runs.push_back( x->getRuns() );
    std::vector< std::string > names; for ( auto& x : t ) names.push_back( x->getName() );
    t.clear();
    ok( "timer-logs-once", rec->recs.size() == expectLogs, fmt( "%zu records, expected %zu", rec->recs.size(), expectLogs ) );
    for ( auto& q : rec->recs ) { bool named = false; for ( size_t i = 0; i < names.size(); i++ ) if ( q.msg.find( names[ i ] ) != std::string::npos && field( q.msg, "runs" ) == double( runs[ i ] ) ) named = true; ok( "timer-log-text", named, q.msg ); ok( "timer-log-place", ( q.file == "file.cpp" && q.line == 42 ) || ( endsWith( q.file, "c28.cpp" ) && q.line > 0 ), q.file + fmt( ":%u", q.line ) ); ok( "timer-log-priority", q.prio == log4cpp::Priority::INFO ); }
    advance_ns = 0; step_ns = 0;
}

SECTION( "timer-location", 200, 3000 )
{
    static Recorder* rec = 0; static log4cpp::Category* cat = 0;
    if ( !rec ) { rec = new Recorder; cat = &log4cpp::Category::getInstance( "verif.timer2" ); cat->setAdditivity( false ); cat->addAppender( rec ); cat->setPriority( log4cpp::Priority::INFO ); }
    rec->recs.clear(); std::string f = "f" + std::to_string( r.in( 0, 99 ) ) + ".cpp"; unsigned line = r.in( 1, 99999 ); bool anon = r.coin( 0.3 );
    { BlockTimer t( "t", *cat ); if ( anon ) { BlockTimer::Time a( t ); } else { BlockTimer::Time a( t, f.c_str(), line ); } int more = r.in( 0, 3 ); for ( int i = 0; i < more; i++ ) { BlockTimer::Time a( t, "other.cpp", 7 ); } if ( r.coin() ) { BlockTimer::Time b( t ); }
      ok( "timer-initialized", t.initialized() ); }
    ok( "timer-location-once", rec->recs.size() == 1 );
    for ( auto& q : rec->recs ) if ( anon ) ok( "timer-location-none", q.file.empty() && q.line == 0, fmt( "line %u of a block without location", q.line ) ); else ok( "timer-location", q.file == f && q.line == line, q.file + fmt( ":%u", q.line ) );
    { BlockTimer t( "quiet", *cat ); } ok( "timer-unused-quiet", rec->recs.size() == 1 );
}

static void onUsr( int ) {}
SECTION( "sleep", 12, 300 )
{
    struct sigaction sa; memset( &sa, 0, sizeof sa ); sa.sa_handler = onUsr; sigaction( SIGUSR2, &sa, 0 );
    unsigned ms = r.in( 0, 60 ), ns = r.coin() ? unsigned( r.in( 0, 40000000 ) ) : 0; if ( idx % 6 == 0 ) { ms = 1; ns = 999000000u + r.in( 0, 2 ) * 500000; } if ( idx == 0 ) { ms = 1001; ns = 0; }
    double want = ms * 1e-3 + ns * 1e-9; bool sig = r.coin(); pthread_t self = pthread_self(); std::atomic< bool > stop{ false };
    std::thread k; if ( sig ) k = std::thread( [ & ] { for ( int i = 0; i < 3 && !stop; i++ ) { usleep( useconds_t( want * 2e5 ) + 300 ); if ( !stop ) pthread_kill( self, SIGUSR2 ); } } );
    double best = 1e9; for ( int i = 0; i < 3; i++ ) { double t0 = nowReal(); Ubitrack::Util::sleep( ms, ns ); double dt = nowReal() - t0; ok( "sleep-long-enough", dt >= want - 1e-6, fmt( "slept %.6f of %.6f s%s", dt, want, sig ? ", signals delivered" : "" ) ); best = std::min( best, dt ); if ( want > 0.5 ) break; }
    stop = true; if ( sig ) { k.join(); event( "sleeps-with-signals" ); }
    ok( "sleep-not-too-long", best <= want * 1.5 + 0.5, fmt( "slept %.6f instead of %.6f s", best, want ) );
}

SECTION( "counter", 30, 600 )
{
    double f = getHighPerformanceFrequency(); ok( "counter-frequency", f > 0 && f == getHighPerformanceFrequency() );
    advance_ns = 0; step_ns = 0; long long last = getHighPerformanceCounter(); bool mono = true;
    for ( int i = 0; i < 2000; i++ ) { if ( i % 100 == 50 ) step_ns += ( r.coin() ? 1 : -1 ) * (long long)r.logu( 1e3, 1e15 ); long long c = getHighPerformanceCounter(); if ( c < last ) mono = false; last = c; }
    ok( "counter-monotonic", mono, "the counter ran backwards" );
    double w0 = nowReal(); long long c0 = getHighPerformanceCounter(); double adv = r.logu( 1e-6, 1e6 ); advance_ns += (long long)( adv * 1e9 ); long long c1 = getHighPerformanceCounter(); double w1 = nowReal();
    double d = ( c1 - c0 ) / f; ok( "counter-rate", d >= adv - 2.0 / f - 1e-9 * adv && d <= adv + ( w1 - w0 ) + 2.0 / f + 1e-9 * adv, fmt( "%.9g s counted, %.9g s elapsed", d, adv ) );
    advance_ns = 0; step_ns = 0;
}
VH_MAIN
