// Replaces operator new: refuses huge blocks with bad_alloc (AddressSanitizer would end the process instead).
#pragma once
#include <new>
#include <cstdlib>
// a damaged length may ask for any amount of memory: refuse large blocks the way a real allocator does
static const std::size_t LIMIT = 64u << 20;
void* operator new( std::size_t n ) { if ( n > LIMIT ) throw std::bad_alloc(); void* p = std::malloc( n ? n : 1 ); if ( !p ) throw std::bad_alloc(); return p; }
void* operator new[]( std::size_t n ) { if ( n > LIMIT ) throw std::bad_alloc(); void* p = std::malloc( n ? n : 1 ); if ( !p ) throw std::bad_alloc(); return p; }
void operator delete( void* p ) noexcept { std::free( p ); }
void operator delete[]( void* p ) noexcept { std::free( p ); }
void operator delete( void* p, std::size_t ) noexcept { std::free( p ); }
void operator delete[]( void* p, std::size_t ) noexcept { std::free( p ); }

