// Text, paths, vectors.
#include "harness.hh"

#include <algorithm>
#include <cstring>
#include <iomanip>
#include <iterator>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

#include <aleph/utilities/ContainerOperators.hh>
#include <aleph/utilities/Filesystem.hh>
#include <aleph/utilities/Format.hh>
#include <aleph/utilities/String.hh>
#include <aleph/utilities/UnorderedSetOperations.hh>
#include <aleph/utilities/Values.hh>

using namespace vh;
namespace u = aleph::utilities;

std::string text( const J& a )
{
  std::string s;
  for( auto&& c : a.a )
    s.push_back( char( c.i ) );
  return s;
}

J codes( const std::string& s )
{
  J r = J::arr();
  for( auto&& c : s )
    r.push( J( static_cast<long long>( c ) ) );
  return r;
}

J all( const std::vector<std::string>& v )
{
  J r = J::arr();
  for( auto&& s : v )
    r.push( codes( s ) );
  return r;
}

template <class T> std::vector<T> vec( const J& a )
{
  std::vector<T> v;
  for( auto&& x : a.a )
    v.push_back( T( x.i ) );
  return v;
}

template <class C> J ints( const C& c )
{
  J r = J::arr();
  for( auto&& x : c )
    r.push( num( double( x ) ) );
  return r;
}

template <class T> J vectors( const J& c )
{
  auto a = vec<T>( c["a"] ), b = vec<T>( c["b"] );
  return J::obj().set( "sum", ints( u::operator+( a, b ) ) ).set( "difference", ints( u::operator-( a, b ) ) ).set( "multiple", ints( u::operator*( int( c["f"].i ), a ) ) );
}

template <class T> J intersection( const J& c )
{
  auto a = vec<T>( c["a"] ), b = vec<T>( c["b"] );
  std::unordered_set<T> A( a.begin(), a.end() ), B( b.begin(), b.end() ), C;
  u::set_intersection( A, B, C );
  return J::obj().set( "c", ints( C ) );
}

template <class F> bool succeeds( F f )
{
  try
  {
    f();
  }
  catch( std::out_of_range& )
  {
    return false;
  }
  return true;
}

J call( const J& c )
{
  auto k = c["k"].s;
  if( k == "text" )
  {
    auto s = text( c["s"] );
    return J::obj().set( "left", codes( u::ltrim( s ) ) ).set( "right", codes( u::rtrim( s ) ) ).set( "both", codes( u::trim( s ) ) )
                   .set( "words", all( u::splitByWhitespace( s ) ) ).set( "count", J( static_cast<long long>( u::countTokens( s ) ) ) )
                   .set( "fields", all( u::split( s ) ) ).set( "commas", all( u::split( s, std::string( "[,;]+" ) ) ) );
  }
  if( k == "path" )
  {
    auto s = text( c["s"] );
    return J::obj().set( "base", codes( u::basename( s ) ) ).set( "stem", codes( u::stem( s ) ) ).set( "extension", codes( u::extension( s ) ) );
  }
  if( k == "number" )
  {
    auto s  = text( c["s"] );
    bool ok = true;
    auto v  = c["t"].s == "float" ? double( u::convert<float>( s, ok ) ) : u::convert<double>( s, ok );
    auto w  = c["t"].s == "float" ? double( u::convert<float>( s ) ) : u::convert<double>( s );
    return J::obj().set( "ok", J( ok ) ).set( "v", near( v, 1000 ) ).set( "w", near( w, 1000 ) );
  }
  if( k == "integer" )
  {
    bool ok = true;
    auto v  = c["t"].s == "long" ? double( u::convert<long>( text( c["s"] ), ok ) ) : double( u::convert<int>( text( c["s"] ), ok ) );
    return J::obj().set( "ok", J( ok ) ).set( "v", num( v, 1000 ) );
  }
  if( k == "format" )
  {
    char fill = char( c["fill"].i );
    if( c["t"].s == "unsigned" )
      return J::obj().set( "s", codes( fill == '0' ? u::format( unsigned( c["n"].i ), unsigned( c["N"].i ) ) : u::format( unsigned( c["n"].i ), unsigned( c["N"].i ), fill ) ) );
    return J::obj().set( "s", codes( u::format( std::size_t( c["n"].i ), std::size_t( c["N"].i ), fill ) ) );
  }
  if( k == "vector" )
    return c["t"].s == "int" ? vectors<int>( c ) : vectors<double>( c );
  if( k == "close" )
  {
    auto a = vec<double>( c["a"] ), b = vec<double>( c["b"] );
    return J::obj().set( "close", J( u::allclose( a.begin(), a.end(), b.begin(), b.end(), double( c["r"].i ) / 16, double( c["t"].i ) / 16 ) ) )
                   .set( "same", J( u::allclose( a.begin(), a.end(), b.begin(), b.end() ) ) );
  }
  if( k == "common" )
    return c["t"].s == "int" ? intersection<int>( c ) : intersection<unsigned short>( c );
  if( k == "range" )
  {
    int x = int( c["x"].i ), lo = int( c["lo"].i ), hi = int( c["hi"].i );
    return J::obj().set( "inside", J( succeeds( [&] { u::ensureRange( x, lo, hi ); } ) ) ).set( "larger", J( succeeds( [&] { u::ensureLarger( x, lo ); } ) ) );
  }
  throw std::runtime_error( "unknown case" );
}

int main( int argc, char** argv )
{
  return vh::run( argc, argv, [] ( const J& c ) { return call( c ); } );
}
