// Laplacians, pseudo-inverses, heat kernels, spectral bisection.
#include "common.hh"

#include <algorithm>
#include <cmath>

#include <aleph/geometry/HeatKernel.hh>
#include <aleph/topology/Partitions.hh>

using namespace vh;

const double UNIT = 1048576.0;

template <class M> J matrix( const M& m, double scale )
{
  J r = J::arr();
  for( int i = 0; i < int( m.rows() ); i++ )
  {
    J row = J::arr();
    for( int j = 0; j < int( m.cols() ); j++ )
      row.push( near( double( m( i, j ) ), scale ) );
    r.push( row );
  }
  return r;
}

template <class D, class V> J answer( const J& c )
{
  using Simplex = aleph::topology::Simplex<D, V>;
  auto K        = complexFrom<Simplex>( c["K"], c["W"] );
  auto k        = c["k"].s;
  J out         = J::obj();

  if( c.has( "order" ) )
  {
    try
    {
      auto parts = aleph::topology::bisect( K );
      J r        = J::arr();
      for( auto&& p : parts )
        r.push( complexTo( p ) );
      out.set( "error", J( false ) ).set( "parts", r );
    }
    catch( std::runtime_error& )
    {
      out.set( "error", J( true ) );
    }
    return out;
  }

  std::vector<V> vs;
  K.vertices( std::back_inserter( vs ) );
  J a = J::arr();
  for( auto&& v : vs )
    a.push( J( static_cast<long long>( v ) ) );
  out.set( "vs", a );

  auto n = int( vs.size() );

  if( k == "matrices" )
  {
    out.set( "W", matrix( aleph::geometry::weightedAdjacencyMatrix( K ), 1 ) );
    out.set( "L", matrix( aleph::geometry::weightedLaplacianMatrix( K ), 1 ) );
    out.set( "P", matrix( aleph::geometry::pinvWeightedLaplacianMatrix( K ), double( c["s"].i ) ) );
    return out;
  }

  aleph::geometry::HeatKernel hk( K );
  if( k == "interval" )
  {
    J s = J::arr();
    for( auto&& t : hk.logarithmicSamplingInterval( unsigned( c["n"].i ) ) )
      s.push( near( 4 * std::log( 10.0 ) / t, 1000 ) );
    return out.set( "s", s );
  }

  double t = double( c["p"].i ) / double( c["q"].i );
  J H      = J::arr();
  J H2     = J::arr();
  J diag   = J::arr();
  for( int i = 0; i < n; i++ )
  {
    J r  = J::arr();
    J r2 = J::arr();
    for( int j = 0; j < n; j++ )
    {
      r.push( near( hk( i, j, t ), UNIT ) );
      r2.push( near( hk( i, j, 2 * t ), UNIT ) );
    }
    H.push( r );
    H2.push( r2 );
    diag.push( near( hk( i, t ), UNIT ) );
  }
  J all = J::arr();
  for( auto&& x : hk( t ) )
    all.push( near( x, UNIT ) );
  return out.set( "H", H ).set( "double", H2 ).set( "auto", diag ).set( "all", all )
            .set( "trace", near( hk.trace( t ), UNIT ) )
            .set( "logdet", near( -std::log( hk.determinant( t ) ), 1000 ) );
}

int main( int argc, char** argv )
{
  return vh::run( argc, argv, [] ( const J& c ) {
    auto t = c["type"].s;
    if( t == "float" )
      return answer<float, unsigned>( c );
    if( t == "short" )
      return answer<double, unsigned short>( c );
    return answer<double, unsigned>( c );
  } );
}
