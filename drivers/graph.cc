// Cliques, clique graphs, intersections, paths, degrees and curvature.
#include "common.hh"

#include <aleph/math/SymmetricMatrix.hh>

#include <aleph/topology/CliqueGraph.hh>
#include <aleph/topology/CombinatorialCurvature.hh>
#include <aleph/topology/FloydWarshall.hh>
#include <aleph/topology/Intersections.hh>
#include <aleph/topology/MaximalCliques.hh>

#include <aleph/topology/filtrations/Degree.hh>

using namespace aleph;
using namespace aleph::topology;
using namespace vh;

template <class C> J listOfLists( const C& c )
{
  J r = J::arr();
  for( auto&& x : c )
    r.push( J::seq( x ) );
  return r;
}

template <class S> J cliques( const J& c )
{
  auto K = complexFrom<S>( c["K"], c["W"] );
  J r = J::arr();
  r.push( listOfLists( maximalCliquesKoch( K ) ) );
  r.push( listOfLists( maximalCliquesBronKerbosch( K ) ) );
  return r;
}

template <class S> J cliqueGraph( const J& c )
{
  using D = typename S::DataType;
  auto K = complexFrom<S>( c["K"], c["W"], 4.0 );
  unsigned d = static_cast<unsigned>( c["d"].i );
  auto f = c["f"].s;

  if( f == "default" ) return complexTo( getCliqueGraph( K, d ), 4.0 );
  if( f == "max" )     return complexTo( getCliqueGraph( K, d, [] ( D a, D b ) { return std::max( a, b ); } ), 4.0 );
  if( f == "min" )     return complexTo( getCliqueGraph( K, d, [] ( D a, D b ) { return std::min( a, b ); } ), 4.0 );
  return complexTo( getCliqueGraph( K, d, [] ( D a, D b ) { return a + b; } ), 4.0 );
}

template <class S> J intersections( const J& c )
{
  using V = typename S::VertexType;
  auto K = complexFrom<S>( c["K"], c["W"] );
  auto sv = c["s"].as<V>();
  auto tv = c["t2"].as<V>();
  S s( sv.begin(), sv.end() );
  S t( tv.begin(), tv.end() );

  auto list = [] ( const std::set<S>& x )
  {
    J r = J::arr();
    for( auto&& y : x )
      r.push( vertices( y ) );
    return r;
  };

  J r = J::obj();
  r.set( "size", J( sizeOfIntersection( s, t ) ) );
  r.set( "pair", vertices( intersect( s, t ) ) );
  r.set( "all", list( intersect( K, s ) ) );
  r.set( "dim", list( intersectWithConstrainedDimension( K, s ) ) );
  auto l = lastLexicographicalIntersection( K, s );
  J last = J::obj();
  last.set( "s", vertices( l ) ).set( "w", dec( l.data() ) );
  r.set( "last", last );
  return r;
}

template <class S> J paths( const J& c )
{
  using D = typename S::DataType;
  double scale = double( c["scale"].i );
  auto K = complexFrom<S>( c["K"], c["W"], scale );
  auto M = c["w"].i ? floydWarshall( K, enc<D>( c["w"].i, scale ) ) : floydWarshall( K );
  auto n = M.numRows();

  J m = J::arr();
  for( decltype(n) i = 0; i < n; i++ )
  {
    J row = J::arr();
    for( decltype(n) j = 0; j < n; j++ )
    {
      auto x = M( i, j );
      row.push( x == ( std::numeric_limits<D>::has_infinity ? std::numeric_limits<D>::infinity() : std::numeric_limits<D>::max() )
                ? J( PLUS_INF ) : dec( x, scale ) );
    }
    m.push( row );
  }
  J r = J::obj();
  r.set( "rows", J( static_cast<long long>( n ) ) ).set( "size", J( static_cast<long long>( M.size() ) ) );
  r.set( "empty", J( n == 0 ) ).set( "M", m );
  return r;
}

template <class S> J degrees( const J& c )
{
  auto K = complexFrom<S>( c["K"], c["W"] );
  J r = J::obj();

  std::vector<unsigned> d;
  filtrations::degrees( K, std::back_inserter( d ) );
  r.set( "degrees", J::seq( d ) );

  J nd = J::arr();
  for( auto&& s : K )
    nd.push( J( filtrations::n_degree( K, s ) ) );
  r.set( "nDegrees", nd );

  J all = J::arr();
  for( std::size_t p = 1; p <= K.dimension(); p++ )
  {
    J ss = J::arr();
    for( auto range = K.range( p ); range.first != range.second; ++range.first )
      ss.push( vertices( *range.first ) );

    std::vector<int> x;
    curvature( K, std::back_inserter( x ), static_cast<unsigned>( p ) );

    auto L = K;
    {
      std::vector<S> simplices;
      for( auto s : K )
      {
        s.setData( 1 );
        simplices.push_back( s );
      }
      L = SimplicialComplex<S>( simplices.begin(), simplices.end() );
    }
    // Same simplices in the same order, but unit weights
    std::vector<double> w;
    weightedCurvature( L, std::back_inserter( w ), static_cast<unsigned>( p ) );
    J ws = J::arr();
    for( auto&& y : w )
      ws.push( num( y ) );

    J o = J::obj();
    o.set( "s", ss ).set( "c", J::seq( x ) ).set( "w", ws );

    // Powers of four as weights, so that all results are exact
    {
      std::vector<S> simplices;
      std::size_t i = 0;
      for( auto s : K )
      {
        s.setData( static_cast<typename S::DataType>( 1 << ( 2 * c["P"][i++].i ) ) );
        simplices.push_back( s );
      }
      L = SimplicialComplex<S>( simplices.begin(), simplices.end() );
    }
    J vs = J::arr(), us = J::arr();
    for( auto range = L.range( p ); range.first != range.second; ++range.first )
      us.push( vertices( *range.first ) );
    w.clear();
    if( p == 1 )
      weightedCurvature( L, std::back_inserter( w ) );
    else
      weightedCurvature( L, std::back_inserter( w ), static_cast<unsigned>( p ) );
    for( auto&& y : w )
      vs.push( num( y, 16 ) );
    all.push( o.set( "u", us ).set( "v", vs ) );
  }
  r.set( "curvature", all );

  if( K.dimension() >= 2 )
  {
    auto n = K.dimension();
    J ss = J::arr(), ns = J::arr();
    for( auto range = K.range( n - 2 ); range.first != range.second; ++range.first )
      ss.push( vertices( *range.first ) );
    std::vector<double> x;
    angleDefectCurvature( K, std::back_inserter( x ) );
    for( auto&& y : x )
      ns.push( num( ( 2 * M_PI - y ) / std::acos( 1.0 / double( n ) ) ) );
    J o = J::obj();
    o.set( "s", ss ).set( "n", ns );
    r.set( "defect", o );
  }
  return r;
}

template <class T, class I> J matrix( const J& c )
{
  using M_t = math::SymmetricMatrix<T, I>;
  M_t A( static_cast<I>( c["n"].i ) );
  M_t B;
  J out = J::arr();
  for( auto&& op : c["ops"].a )
  {
    auto o = op["op"].s;
    J r;
    if( o == "set" || o == "get" )
    {
      auto i = static_cast<I>( op["i"].i );
      auto j = static_cast<I>( op["j"].i );
      try
      {
        if( o == "set" )
        {
          A( i, j ) = static_cast<T>( op["v"].i );
          r = J( "ok" );
        }
        else
        {
          const M_t& C = A;
          r = J::arr();
          r.push( num( double( C( i, j ) ) ) );
          r.push( num( double( A( j, i ) ) ) );
        }
      }
      catch( std::out_of_range& ) { r = J( "out_of_range" ); }
    }
    else if( o == "copy" )   { M_t C( A ); B.swap( C ); r = J( static_cast<long long>( B.numRows() ) ); }
    else if( o == "assign" ) { A = B; r = J( static_cast<long long>( A.numRows() ) ); }
    else if( o == "swap" )
    {
      A.swap( B );
      r = J::arr();
      r.push( J( static_cast<long long>( A.numRows() ) ) ); r.push( J( static_cast<long long>( B.numRows() ) ) );
    }
    else if( o == "fresh" )  { B = M_t( static_cast<I>( op["n"].i ) ); r = J( static_cast<long long>( B.numRows() ) ); }
    else if( o == "all" )
    {
      r = J::arr();
      for( I i = 0; i < A.numRows(); i++ )
      {
        J row = J::arr();
        for( I j = 0; j < A.numRows(); j++ )
          row.push( num( double( A( i, j ) ) ) );
        r.push( row );
      }
    }
    out.push( r );
  }
  return out;
}

template <class S> J dispatch( const J& c )
{
  auto k = c["k"].s;
  if( k == "cliques" )       return cliques<S>( c );
  if( k == "cliquegraph" )   return cliqueGraph<S>( c );
  if( k == "intersections" ) return intersections<S>( c );
  if( k == "paths" )         return paths<S>( c );
  return degrees<S>( c );
}

J handle( const J& c )
{
  if( c["k"].s == "matrix" )
  {
    if( c["t"].s == "d" ) return matrix<double, std::size_t>( c );
    if( c["t"].s == "s" ) return matrix<float, unsigned short>( c );
    return matrix<int, unsigned>( c );
  }
  if( c["t"].s == "d" ) return dispatch< Simplex<double, unsigned> >( c );
  if( c["t"].s == "s" ) return c["k"].s == "degrees" ? degrees< Simplex<float, unsigned> >( c ) : dispatch< Simplex<double, unsigned short> >( c );
  if( c["t"].s == "i" ) return paths< Simplex<int, unsigned> >( c );
  if( c["t"].s == "u" ) return paths< Simplex<unsigned, unsigned> >( c );
  return dispatch< Simplex<float, unsigned> >( c );
}

int main( int argc, char** argv )
{
  return run( argc, argv, handle );
}
