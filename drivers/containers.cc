// Persistence pairings, sparse matrices, points, conversions to diagrams.
#include "common.hh"

#include <algorithm>
#include <iterator>
#include <limits>
#include <sstream>

#include <aleph/geometry/Point.hh>
#include <aleph/math/SparseMatrix.hh>
#include <aleph/persistenceDiagrams/Calculation.hh>
#include <aleph/persistentHomology/Calculation.hh>
#include <aleph/persistentHomology/PersistencePairing.hh>
#include <aleph/topology/Conversions.hh>
#include <aleph/topology/filtrations/Data.hh>

using namespace vh;

J L( long long x )
{
  return J( x );
}

template <class I> I index( const J& x )
{
  return x.i < 0 ? std::numeric_limits<I>::max() : I( x.i );
}

template <class I> J back( I x )
{
  return L( x == std::numeric_limits<I>::max() ? -1LL : static_cast<long long>( x ) );
}

template <class I> void add( aleph::PersistencePairing<I>& P, const J& c, const J& d )
{
  if( d.i < 0 )
    P.add( I( c.i ) );
  else
    P.add( I( c.i ), I( d.i ) );
}

template <class I> J pairings( const J& c )
{
  using Pairing = aleph::PersistencePairing<I>;
  Pairing Ps[2];
  J out = J::arr();
  for( auto&& op : c["ops"].a )
  {
    auto o  = op["op"].s;
    auto& P = Ps[ op["r"].i - 1 ];
    const Pairing& Q = P;
    auto n  = static_cast<long long>( P.size() );
    J r;
    if( o == "add" )
    {
      add( P, op["c"], op["d"] );
      r = L( static_cast<long long>( P.size() ) );
    }
    else if( o == "erase" )
    {
      auto b  = std::min( static_cast<long long>( op["b"].i ), n );
      auto a  = std::min( static_cast<long long>( op["a"].i ), b );
      auto it = P.erase( P.begin() + a, P.begin() + b );
      r       = L( std::distance( P.begin(), it ) );
    }
    else if( o == "eraseOne" )
    {
      if( op["a"].i >= n )
        r = L( -1 );
      else
      {
        auto it = P.erase( P.begin() + op["a"].i );
        r       = L( std::distance( P.begin(), it ) );
      }
    }
    else if( o == "sort" )
    {
      std::sort( P.begin(), P.end() );
      r = L( n );
    }
    else if( o == "copy" )
    {
      Ps[ 2 - op["r"].i ] = P;
      r = L( n );
    }
    else if( o == "find" || o == "findCreator" )
    {
      auto c  = I( op["c"].i );
      auto it = o == "find" ? Q.find( c, index<I>( op["d"] ) ) : Q.find( c );
      auto h  = o == "find" ? Q.contains( c, index<I>( op["d"] ) ) : Q.contains( c );
      r = J::obj().set( "at", L( it == Q.end() ? -1LL : static_cast<long long>( std::distance( Q.begin(), it ) ) ) ).set( "has", J( h ) );
    }
    else if( o == "equal" )
      r = J::obj().set( "eq", J( Ps[0] == Ps[1] ) ).set( "ne", J( Ps[0] != Ps[1] ) );
    else
    {
      J a = J::arr();
      for( auto&& p : Q )
        a.push( J::arr().push( back<I>( p.first ) ).push( back<I>( p.second ) ) );
      r = J::obj().set( "pairs", a ).set( "size", L( static_cast<long long>( Q.size() ) ) ).set( "empty", J( Q.empty() ) );
    }
    out.push( r );
  }
  return out;
}

template <class I> J sparse( const J& c )
{
  aleph::math::SparseBinaryMatrix<I> M( I( c["n"].i ) );
  J out = J::arr();
  for( auto&& op : c["ops"].a )
  {
    auto o = op["op"].s;
    J r;
    try
    {
      if( o == "set" )
      {
        M.set( I( op["row"].i ), I( op["c"].i ) );
        r = J( "ok" );
      }
      else if( o == "get" )
      {
        std::vector<I> column;
        M.get( I( op["c"].i ), std::back_inserter( column ) );
        J a = J::arr();
        for( auto&& x : column )
          a.push( L( static_cast<long long>( x ) ) );
        r = J::obj().set( "state", J( "ok" ) ).set( "entry", J( M.get( I( op["row"].i ), I( op["c"].i ) ) ) ).set( "column", a )
                    .set( "n", L( static_cast<long long>( M.numEntries( I( op["c"].i ) ) ) ) );
      }
      else if( o == "indices" )
      {
        auto m = op["map"].as<I>();
        M.setIndices( m.begin(), m.end() );
        r = J( "ok" );
      }
      else if( o == "index" )
        r = L( static_cast<long long>( M.getIndex( I( op["c"].i ) ) ) );
      else
        r = L( static_cast<long long>( M.numColumns() ) );
    }
    catch( std::length_error& ) { r = J( "length_error" ); }
    catch( std::out_of_range& ) { r = o == "get" ? J::obj().set( "state", J( "out_of_range" ) ) : J( "out_of_range" ); }
    out.push( r );
  }
  return out;
}

template <class T> std::vector<T> values( const J& v )
{
  std::vector<T> r;
  for( auto&& x : v.a )
    r.push_back( enc<T>( x.i ) );
  return r;
}

template <class D> J points( const D& d )
{
  J r = J::arr();
  for( auto&& p : d )
    r.push( J::arr().push( dec( p.x() ) ).push( p.isUnpaired() ? num( std::numeric_limits<double>::infinity() ) : dec( p.y() ) ) );
  return J::obj().set( "points", r ).set( "dimension", L( static_cast<long long>( d.dimension() ) ) );
}

template <class I, class T> J convert( const J& c )
{
  auto k = c["k"].s;
  if( k == "function" )
  {
    using Simplex = aleph::topology::Simplex<T, unsigned>;
    auto f = values<T>( c["f"] );
    std::vector<Simplex> simplices;
    for( unsigned i = 0; i < f.size(); i++ )
      simplices.push_back( Simplex( i, f[i] ) );
    for( unsigned i = 0; i + 1 < f.size(); i++ )
      simplices.push_back( Simplex( { i, i + 1 }, std::max( f[i], f[i+1] ) ) );
    aleph::topology::SimplicialComplex<Simplex> K( simplices.begin(), simplices.end() );
    K.sort( aleph::topology::filtrations::Data<Simplex>() );
    std::vector<T> data;
    for( auto&& s : K )
      data.push_back( s.data() );
    auto M = aleph::topology::makeBoundaryMatrix( K );
    return points( aleph::calculatePersistenceDiagram( c["dual"].b ? M.dualize() : M, data ) );
  }

  aleph::PersistencePairing<I> P;
  for( auto&& p : c["P"].a )
    add( P, p.a[0], p.a[1] );

  if( k == "values" )
    return points( aleph::makePersistenceDiagram( P, values<T>( c["v"] ) ) );

  auto K = complexFrom< aleph::topology::Simplex<T, unsigned> >( c["K"], c["v"] );
  J r    = J::arr();
  for( auto&& d : aleph::makePersistenceDiagrams( P, K ) )
    r.push( points( d ) );
  return J::obj().set( "diagrams", r );
}

template <class T> J compare( const J& c )
{
  using P = aleph::geometry::Point<T>;
  auto p  = c["p"].as<T>();
  auto q  = c["q"].as<T>();
  P a( p.begin(), p.end() ), b( q.begin(), q.end() );
  if( q.size() == 2 )
    b = P( { q[0], q[1] } );
  std::ostringstream s;
  s << a;
  std::istringstream in( s.str() );
  J text = J::arr(), coordinates = J::arr();
  for( T x; in >> x; )
    text.push( num( double( x ) ) );
  for( auto&& x : a )
    coordinates.push( num( double( x ) ) );
  return J::obj().set( "eq", J( a == b ) ).set( "ne", J( a != b ) ).set( "lt", J( a < b ) ).set( "d", L( static_cast<long long>( a.dimension() ) ) )
                 .set( "size", L( static_cast<long long>( a.size() ) ) ).set( "coordinates", coordinates ).set( "text", text );
}

int main( int argc, char** argv )
{
  return vh::run( argc, argv, [] ( const J& c ) {
    auto k = c["k"].s;
    auto t = c["t"].s;
    if( k == "pairing" )
      return t == "s" ? pairings<unsigned short>( c ) : t == "l" ? pairings<std::size_t>( c ) : pairings<unsigned>( c );
    if( k == "sparse" )
      return t == "s" ? sparse<unsigned short>( c ) : t == "i" ? sparse<int>( c ) : sparse<unsigned>( c );
    if( k == "points" )
      return t == "s" ? compare<float>( c ) : t == "i" ? compare<int>( c ) : compare<double>( c );
    return t == "s" ? convert<unsigned, float>( c ) : convert<std::size_t, double>( c );
  } );
}
