// C06, mixed sequences
#include "c06.h"
// random sequences of differently typed values in one stream
struct Step { std::function< void( boost::archive::text_oarchive& ) > wt; std::function< void( boost::archive::binary_oarchive& ) > wb; std::function< void( msgpack::packer< msgpack::sbuffer >& ) > wm;
    std::function< bool( boost::archive::text_iarchive& ) > rt; std::function< bool( boost::archive::binary_iarchive& ) > rb; std::function< bool( msgpack::unpacker& ) > rm; const char* name; };
template< class T > static Step step( Rng& r, const char* name )
{
    T v = G< T >::gen( r ), w = Target< T >::make( r ); Step s; s.name = name;
    s.wt = [ v ]( boost::archive::text_oarchive& a ) { BA::serialize( a, v ); }; s.wb = [ v ]( boost::archive::binary_oarchive& a ) { BA::serialize( a, v ); }; s.wm = [ v ]( msgpack::packer< msgpack::sbuffer >& a ) { MA::serialize( a, v ); };
    s.rt = [ v, w ]( boost::archive::text_iarchive& a ) { T x = w; BA::deserialize( a, x ); return same( v, x ); }; s.rb = [ v, w ]( boost::archive::binary_iarchive& a ) { T x = w; BA::deserialize( a, x ); return same( v, x ); }; s.rm = [ v, w ]( msgpack::unpacker& a ) { T x = w; MA::deserialize( a, x ); return same( v, x ); };
    return s;
}
SECTION( "sequences", 600, 20000 )
{
    std::vector< std::function< Step() > > mk;
#define X( T, N ) mk.push_back( [ & ] { return step< T >( r, N ); } );
#define XM( T, N ) mk.push_back( [ & ] { return step< UMe::Measurement< T > >( r, "Measurement." N ); } );
    SER_MATH_TYPES( X ) SER_LIST_TYPES( X ) SER_MATH_TYPES( XM ) SER_LIST_TYPES( XM )
#undef X
#undef XM
    std::vector< Step > q; int n = r.in( 1, 25 ); for ( int i = 0; i < n; i++ ) q.push_back( mk[ r.in( 0, int( mk.size() ) - 1 ) ]() ); std::string names; for ( auto& s : q ) names += std::string( s.name ) + " "; vh::sample( names );
    { std::stringstream s; { boost::archive::text_oarchive a( s ); for ( auto& x : q ) x.wt( a ); } boost::archive::text_iarchive a( s ); bool good = true; for ( auto& x : q ) good = good && x.rt( a ); vh::ok( "sequence.text", good, names ); std::string rest; s >> rest; vh::ok( "sequence.text.rest", rest.empty(), names ); }
    { std::stringstream s; { boost::archive::binary_oarchive a( s ); for ( auto& x : q ) x.wb( a ); } { boost::archive::binary_iarchive a( s ); bool good = true; for ( auto& x : q ) good = good && x.rb( a ); vh::ok( "sequence.binary", good, names ); } vh::ok( "sequence.binary.rest", s.peek() == EOF, names ); }
    { msgpack::sbuffer b; msgpack::packer< msgpack::sbuffer > pk( &b ); for ( auto& x : q ) x.wm( pk ); msgpack::unpacker u; u.reserve_buffer( b.size() ); std::memcpy( u.buffer(), b.data(), b.size() ); u.buffer_consumed( b.size() ); bool good = true; for ( auto& x : q ) good = good && x.rm( u ); msgpack::object_handle oh; vh::ok( "sequence.msgpack", good, names ); vh::ok( "sequence.msgpack.rest", !u.next( oh ), names ); }
}
