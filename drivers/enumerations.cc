// Enumeration of combinations and permutations.
#include "harness.hh"

#include <algorithm>
#include <cstdint>
#include <limits>
#include <list>
#include <numeric>
#include <stdexcept>
#include <vector>

#include <aleph/math/Combinations.hh>

using namespace vh;
using namespace aleph::math;

struct Visitor
{
  J* visits;
  long long stop;
  long long calls;

  template <class It> bool operator()( It first, It last )
  {
    J v = J::arr();
    for( auto it = first; it != last; ++it )
      v.push( J( static_cast<long long>( *it ) ) );
    visits->push( v );
    ++calls;
    return stop > 0 && calls >= stop;
  }
};

template <class C> J enumerate( const J& c )
{
  C x;
  for( auto&& v : c["x"].a )
    x.push_back( int( v.i ) );
  auto mid = std::next( x.begin(), c["r"].i );

  J visits = J::arr();
  Visitor f = { &visits, c["stop"].i, 0 };

  auto kind            = c["kind"].s;
  std::uintmax_t count = 0;
  if( kind == "combination" )
  {
    count = count_each_combination( x.begin(), mid, x.end() );
    f     = for_each_combination( x.begin(), mid, x.end(), f );
  }
  else if( kind == "permutation" )
  {
    count = count_each_permutation( x.begin(), mid, x.end() );
    f     = for_each_permutation( x.begin(), mid, x.end(), f );
  }
  else if( kind == "circular" )
  {
    count = count_each_circular_permutation( x.begin(), mid, x.end() );
    f     = for_each_circular_permutation( x.begin(), mid, x.end(), f );
  }
  else if( kind == "reversible" )
  {
    count = count_each_reversible_permutation( x.begin(), mid, x.end() );
    f     = for_each_reversible_permutation( x.begin(), mid, x.end(), f );
  }
  else
  {
    count = count_each_reversible_circular_permutation( x.begin(), mid, x.end() );
    f     = for_each_reversible_circular_permutation( x.begin(), mid, x.end(), f );
  }
  J after = J::arr();
  for( auto&& v : x )
    after.push( J( static_cast<long long>( v ) ) );
  return J::obj().set( "visits", visits ).set( "after", after ).set( "calls", J( f.calls ) ).set( "count", J( static_cast<long long>( count ) ) );
}

template <class U> J count( const J& c )
{
  U d1 = U( c["d1"].i ), d2 = U( c["d2"].i );
  auto kind   = c["kind"].s;
  long long r = -1;
  try
  {
    r = (long long) ( kind == "combination" ? count_each_combination( d1, d2 )
                    : kind == "permutation" ? count_each_permutation( d1, d2 )
                    : kind == "circular" ? count_each_circular_permutation( d1, d2 )
                    : kind == "reversible" ? count_each_reversible_permutation( d1, d2 )
                    : count_each_reversible_circular_permutation( d1, d2 ) );
  }
  catch( std::overflow_error& )
  {
  }
  return J::obj().set( "count", J( r ) );
}

int main( int argc, char** argv )
{
  return vh::run( argc, argv, [] ( const J& c ) {
    if( c["k"].s == "count" )
      return c["top"].i == 255 ? count<unsigned char>( c ) : c["top"].i == 127 ? count<signed char>( c )
           : c["top"].i == 65535 ? count<unsigned short>( c ) : count<unsigned long>( c );
    return c["c"].s == "list" ? enumerate< std::list<int> >( c ) : enumerate< std::vector<int> >( c );
  } );
}
