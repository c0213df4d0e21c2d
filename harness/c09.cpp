// C09: clock synchronisation and time conversion
#include "vh.h"
#include <utMeasurement/Timestamp.h>
#include <utMeasurement/TimestampSync.h>
#include <cmath>
#include <iostream>
#include <utMeasurement/TimestampSyncLS.h>
#include <utUtil/OS.h>
#include <time.h>
#include <thread>
using namespace Ubitrack;
using Measurement::Timestamp; using Measurement::TimestampSync; using Measurement::TimestampSyncLS;
using vh::Rng;
struct Quiet { Quiet() { std::cerr.setstate( std::ios::failbit ); } } quiet; // TimestampSyncLS traces to cerr

/// a pair of clocks: native ticks (whole numbers) and local nanoseconds, exactly linear
struct Clocks
{
    double freq, drift; long long n0; Timestamp l0; double dt; double nativePerEvent;
    Clocks( Rng& r )
    {
        static const double F[] = { 30, 1000, 10000, 48000, 1e6, 1e7, 1e9 };
        freq = F[ r.in( 0, 6 ) ]; drift = r.coin( 0.4 ) ? 0 : r.sgn() * r.logu( 1e-7, 1e-4 );
        n0 = r.coin( 0.3 ) ? 0 : (long long)r.logu( 1, 1e14 ); l0 = r.coin( 0.2 ) ? Timestamp( 1000000000ull ) : Timestamp( 1400000000ull ) * 1000000000ull + r.u64() % 400000000000000000ull;
        nativePerEvent = std::max( 1.0, std::floor( freq * r.logu( 0.005, 0.3 ) ) ); dt = nativePerEvent / freq;
    }
    double native( long long k ) const { return double( n0 + (long long)( k * nativePerEvent ) ); }
    /// true local time of the event, relative to l0, in ns
    double rel( long long k ) const { return k * nativePerEvent / freq * ( 1 + drift ) * 1e9; }
    std::string str() const { return vh::fmt( "freq %g drift %g start %lld interval %g s ", freq, drift, n0, dt ); }
};
static double devi( Timestamp a, Timestamp b ) { return double( (long long)( a - b ) ); }

SECTION( "sync.exact", 1500, 30000 )
{
    Clocks c( r ); vh::sample( c.str() ); TimestampSync s( c.freq ); int N = r.in( 150, 600 ); vh::ok( "events0", s.getEventCount() == 0 );
    for ( int k = 0; k < N; k++ )
    {
        Timestamp t = c.l0 + (long long)c.rel( k ), g = s.convertNativeToLocal( c.native( k ), t );
        // without jitter and drift the estimate is the clock itself; with drift the lag stays below the drift collected over a few events
        double tol = c.drift == 0 ? 200 : 200 + 3 * std::fabs( c.drift ) * c.dt * 1e9; vh::small( c.drift == 0 ? "exact.noDrift" : "exact.drift", devi( g, t ), tol, c.str() + vh::fmt( "event %d", k ) );
        if ( k == 0 ) vh::ok( "exact.first", g == t, c.str() );
    }
    vh::ok( "events", s.getEventCount() == unsigned( N ) );
}
SECTION( "sync.jitter", 1500, 30000 )
{
    Clocks c( r ); double J = r.logu( 1e-6, 5e-3 ) * 1e9; vh::sample( c.str() + vh::fmt( "jitter %g ns", J ) ); TimestampSync s( c.freq ); int N = r.in( 400, 1500 ); double sum = 0; int cnt = 0; Timestamp last = 0;
    for ( int k = 0; k < N; k++ )
    {
        Timestamp t = c.l0 + (long long)c.rel( k ), l = t + (long long)( r.u01() * J ), g = s.convertNativeToLocal( c.native( k ), l );
        double e = devi( g, t ), slack = 1e3 + 5 * std::fabs( c.drift ) * c.dt * 1e9; vh::ok( "jitter.finite", std::fabs( e ) < 1e9 * 3600, c.str() );
        // inside the jitter band, widened by what the drift has collected; from the first event on
        vh::small( k < 50 ? "jitter.early" : "jitter.band", e - J / 2, J / 2 * ( k < 50 ? 3 : 1 ) + slack, c.str() + vh::fmt( "jitter %g event %d", J, k ) );
        if ( k > 200 ) { sum += e; cnt++; }
        if ( k > 100 && J < 1e9 * c.dt ) vh::ok( "jitter.monotone", g > last, c.str() ); last = g;
    }
    vh::small( "jitter.mean", sum / cnt - J / 2, 0.2 * J + 1e3 + 5 * std::fabs( c.drift ) * c.dt * 1e9, c.str() );
}
SECTION( "sync.wrongFrequency", 800, 10000 )
{
    // "need not be correct, but the order of magnitude should be"
    Clocks c( r ); double f = c.freq * r.uni( 0.7, 1.4 ); vh::sample( c.str() + vh::fmt( "configured %g", f ) ); TimestampSync s( f ); int N = r.in( 600, 1500 ); double worst = 0, e = 0;
    for ( int k = 0; k < N; k++ ) { Timestamp t = c.l0 + (long long)c.rel( k ); e = std::fabs( devi( s.convertNativeToLocal( c.native( k ), t ), t ) ); if ( k > 500 ) worst = std::max( worst, e ); }
    vh::small( "wrongFrequency.settled", worst / ( c.dt * 1e9 ), 1e-4, c.str() + vh::fmt( "configured %g", f ) );
}
SECTION( "sync.outlier", 800, 10000 )
{
    Clocks c( r ); c.drift = 0; double J = r.logu( 1e-5, 2e-3 ) * 1e9; TimestampSync s( c.freq ); int warm = r.in( 300, 600 ), burst = r.in( 1, 8 ), after = 100; double delay = r.logu( 0.2, 1000 ) * 1e9 * ( r.coin( 0.3 ) ? -1 : 1 );
    if ( delay < 0 ) c.l0 += 2000000000000ull; vh::sample( c.str() + vh::fmt( "jitter %g burst %d delay %g", J, burst, delay ) );
    for ( int k = 0; k < warm + burst + after; k++ )
    {
        Timestamp t = c.l0 + (long long)c.rel( k ), l = t + (long long)( r.u01() * J ); bool out = k >= warm && k < warm + burst; if ( out ) l += (long long)delay;
        double e = devi( s.convertNativeToLocal( c.native( k ), l ), t ); if ( k >= warm ) vh::small( out ? "outlier.during" : "outlier.after", e - J / 2, J / 2 + 1e3, c.str() + vh::fmt( "jitter %g burst %d delay %g event %d", J, burst, delay, k ) );
    }
}
SECTION( "sync.step", 500, 6000 )
{
    // the local clock is set, or the device restarts its counter: the estimate settles on the new relation
    Clocks c( r ); c.drift = 0; c.n0 = (long long)( c.freq * r.logu( 10, 1e5 ) ); TimestampSync s( c.freq ); int warm = int( r.logu( 100, 20000 ) ), N = 3000; bool restart = r.coin(); double step = r.sgn() * r.logu( 1e-2, 1e4 ) * 1e9; double e = 0; vh::sample( c.str() + ( restart ? "restart" : vh::fmt( "step %g", step ) ) );
    for ( int k = 0; k < warm + N; k++ ) { Timestamp t = c.l0 + (long long)c.rel( k ) + ( k >= warm && !restart ? (long long)step : 0 ); double n = restart && k >= warm ? c.native( k ) - c.native( warm ) + 1000 : c.native( k ); e = devi( s.convertNativeToLocal( n, t ), t ); }
    vh::small( "step.settled", e / ( restart ? ( c.native( warm ) - 1000 ) / c.freq * 1e9 : step ), 0.03, c.str() + ( restart ? "restart" : vh::fmt( "step %g", step ) ) );
}
SECTION( "sync.metamorphic", 1500, 20000 )
{
    // only differences matter: shifting either clock shifts the answer, exactly
    Clocks c( r ); double J = r.coin( 0.2 ) ? 0 : r.logu( 1e-6, 1e-1 ) * 1e9; if ( c.n0 > (long long)1e12 ) c.n0 = 12345; double f = c.freq * r.uni( 0.8, 1.2 ); TimestampSync a( f ), b( f ), d( f ); long long dn = (long long)r.logu( 1, 1e12 ) * ( r.coin() ? 1 : -1 ), dl = (long long)( r.u64() % 1000000000000000ull ); int N = r.in( 50, 400 ); vh::sample( c.str() );
    TimestampSync e( 1.0 ); e.setFrequency( f, 1e9 ); TimestampSync u( f * 1024, 1e9 ), m( f, 1e9 * 4 );
    for ( int k = 0; k < N; k++ )
    {
        Timestamp l = c.l0 + (long long)( c.rel( k ) + r.u01() * J ), g = a.convertNativeToLocal( c.native( k ), l ); if ( r.coin( 0.02 ) ) l += 700000000;
        (void)g;
    }
    TimestampSync a2( f ); Rng q( r.u64() );
    for ( int k = 0; k < N; k++ )
    {
        Timestamp l = c.l0 + (long long)( c.rel( k ) + q.u01() * J ); if ( q.coin( 0.02 ) ) l += 700000000; double n = c.native( k );
        Timestamp g = a2.convertNativeToLocal( n, l );
        vh::ok( "shift.native", b.convertNativeToLocal( n + double( dn ), l ) == g, c.str() + vh::fmt( "native shift %lld event %d", dn, k ) );
        vh::ok( "shift.local", d.convertNativeToLocal( n, l + dl ) == g + dl, c.str() + vh::fmt( "local shift %lld event %d", dl, k ) );
        vh::ok( "setFrequency", e.convertNativeToLocal( n, l ) == g, c.str() );
        vh::small( "unit.native", devi( u.convertNativeToLocal( n * 1024, l ), g ), 8, c.str() + vh::fmt( "event %d", k ) );
    }
}
SECTION( "syncLS", 1200, 20000 )
{
    Clocks c( r ); double J = r.coin( 0.3 ) ? 0 : r.logu( 1e-6, 5e-3 ) * 1e9; int N = r.in( 50, 600 ); TimestampSyncLS s; vh::sample( c.str() + vh::fmt( "jitter %g", J ) );
    for ( int k = 0; k < N; k++ )
    {
        Timestamp t = c.l0 + (long long)c.rel( k ), l = t + (long long)( r.u01() * J ); double e = devi( s.convertNativeToLocal( c.native( k ), l ), t );
        if ( k < 10 ) vh::small( "ls.start", e - J / 2, J / 2 + 2, c.str() );
        else if ( J == 0 ) vh::small( "ls.exact", e, 100 + 1e-7 * c.rel( k ), c.str() + vh::fmt( "event %d", k ) );
        else vh::small( k < 100 ? "ls.jitter.early" : "ls.jitter", e - J / 2, ( k < 100 ? 2.0 : 0.6 ) * J + 1e3, c.str() + vh::fmt( "jitter %g event %d", J, k ) );
    }
    vh::ok( "ls.events", s.getEventCount() == unsigned( N ) );
}
SECTION( "syncLS.backwards", 400, 5000 )
{
    // jitter that puts later local readings before the first one
    Clocks c( r ); c.drift = 0; double J = r.logu( 1e-3, 5e-2 ) * 1e9; TimestampSyncLS s; int N = r.in( 50, 300 ); vh::sample( c.str() );
    for ( int k = 0; k < N; k++ )
    {
        Timestamp t = c.l0 + (long long)c.rel( k ), l = t + ( k == 0 ? (long long)J : (long long)( r.u01() * J ) ); double e = devi( s.convertNativeToLocal( c.native( k ), l ), t );
        vh::small( "ls.late.first", e - J / 2, 3 * J + 1e3, c.str() + vh::fmt( "jitter %g event %d", J, k ) );
    }
}
SECTION( "now", 200, 2000 )
{
    TimestampSync s( 1e9 ); TimestampSyncLS ls; Timestamp prev = 0; timespec prevEnd = { 0, 0 }; double pa = 0, pb = 0, pc = 0;
    for ( int i = 0; i < 50; i++ )
    {
        timespec a, b; clock_gettime( CLOCK_REALTIME, &a ); Timestamp t = Measurement::now(); clock_gettime( CLOCK_REALTIME, &b );
        Timestamp ta = a.tv_sec * 1000000000ull + a.tv_nsec, tb = b.tv_sec * 1000000000ull + b.tv_nsec, tp = prevEnd.tv_sec * 1000000000ull + prevEnd.tv_nsec;
        if ( tb >= ta && ta >= tp ) { vh::ok( "now.bracket", t + 1000 >= ta && t <= tb, vh::fmt( "%llu not in [%llu,%llu]", t, (unsigned long long)ta, (unsigned long long)tb ) ); vh::ok( "now.forward", t >= prev ); }
        prev = t; prevEnd = b;
        clock_gettime( CLOCK_MONOTONIC, &a ); double c = Util::getHighPerformanceCounter() / Util::getHighPerformanceFrequency(); clock_gettime( CLOCK_MONOTONIC, &b );
        double fa = a.tv_sec + a.tv_nsec * 1e-9, fb = b.tv_sec + b.tv_nsec * 1e-9; if ( i ) vh::ok( "counter.advance", c - pc >= fa - pb - 5e-6 && c - pc <= fb - pa + 5e-6, vh::fmt( "advanced by %.9f while between %.9f and %.9f passed", c - pc, fa - pb, fb - pa ) ); pa = fa; pb = fb; pc = c;
        Timestamp g = s.convertNativeToLocal( double( i ) * 1e3 ), h = ls.convertNativeToLocal( double( i ) * 1e3 ); if ( i == 0 ) { Timestamp n = Measurement::now(); vh::ok( "sync.usesNow", n - g < 10000000000ull && n - h < 10000000000ull ); }
    }
}
SECTION( "sleep", 40, 200 )
{
    unsigned ms = r.coin( 0.3 ) ? 0 : r.in( 0, 30 ), ns = r.coin( 0.4 ) ? 0 : r.coin( 0.2 ) ? 1000000000u + r.in( 0, 1000 ) : r.in( 0, 40000000 ); if ( idx == 3 ) ms = 1001; if ( idx == 5 ) { ms = 999; ns = 1500000; }
    vh::sample( vh::fmt( "%u ms %u ns", ms, ns ) ); timespec a, b; clock_gettime( CLOCK_MONOTONIC, &a ); if ( ns ) Util::sleep( ms, ns ); else Util::sleep( ms ); clock_gettime( CLOCK_MONOTONIC, &b );
    double el = ( b.tv_sec - a.tv_sec ) + ( b.tv_nsec - a.tv_nsec ) * 1e-9, want = ms * 1e-3 + ns * 1e-9; vh::ok( "sleep.atLeast", el >= want - 1e-4, vh::fmt( "slept %.6f s instead of %.6f", el, want ) ); vh::ok( "sleep.bounded", el < want + 20, vh::fmt( "slept %.3f", el ) );
}
/// reference civil date of days since 1970 (proleptic Gregorian)
static void civil( long long z, int& y, int& m, int& d ) { z += 719468; long long era = ( z >= 0 ? z : z - 146096 ) / 146097; unsigned doe = unsigned( z - era * 146097 ), yoe = ( doe - doe / 1460 + doe / 36524 - doe / 146096 ) / 365; long long yy = yoe + era * 400; unsigned doy = doe - ( 365 * yoe + yoe / 4 - yoe / 100 ), mp = ( 5 * doy + 2 ) / 153; d = doy - ( 153 * mp + 2 ) / 5 + 1; m = mp < 10 ? mp + 3 : mp - 9; y = int( yy + ( m <= 2 ) ); }
SECTION( "format", 8000, 200000 )
{
    static const char* W[] = { "Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat" }; static const char* M[] = { "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec" };
    Timestamp t; switch ( r.in( 0, 4 ) ) { case 0: t = r.u64(); break; case 1: t = r.u64() % 2000000000000000000ull; break; case 2: t = ( r.u64() % 40000 ) * 86400000000000ull + ( r.coin() ? 0 : r.coin() ? 999999999ull : 86399999999999ull ); break; case 3: t = r.u64() % 1000000000000ull; break; default: t = r.in( 0, 3 ) * 1000000000ull + r.in( 0, 1 ) * 999999999ull; }
    long long sec = t / 1000000000ull, day = sec / 86400; int y, m, d; civil( day, y, m, d ); int sod = int( sec % 86400 );
    std::string want = vh::fmt( "%s %s%3d %02d:%02d:%02d %d UTC", W[ ( day + 4 ) % 7 ], M[ m - 1 ], d, sod / 3600, sod / 60 % 60, sod % 60, y ), got = Measurement::timestampToString( t ); vh::sample( vh::fmt( "%llu ", t ) + got );
    vh::ok( "format.long", got == want, vh::fmt( "%llu: got '%s' want '%s'", t, got.c_str(), want.c_str() ) );
    static int zone = 99; int z = int( idx / 500 ) % 13 - 6; if ( z != zone ) { zone = z; setenv( "TZ", z == 0 ? "UTC0" : vh::fmt( "XXX%+d:%02d", -z, z % 2 ? 30 : 0 ).c_str(), 1 ); tzset(); }
    long long off = z * 3600 + ( z % 2 ? ( z < 0 ? -1800 : 1800 ) : 0 ), ls = ( ( sec + off ) % 86400 + 86400 ) % 86400;
    want = vh::fmt( "%02d:%02d:%02d.%06d", int( ls / 3600 ), int( ls / 60 % 60 ), int( ls % 60 ), int( t % 1000000000ull / 1000 ) ); got = Measurement::timestampToShortString( t );
    vh::ok( "format.short", got == want, vh::fmt( "%llu zone %d: got '%s' want '%s'", t, z, got.c_str(), want.c_str() ) );
}
VH_MAIN
