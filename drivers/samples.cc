// Random graphs, samples from spheres and tori.
#include "common.hh"

#include <cmath>
#include <limits>

#include <aleph/geometry/SphereSampling.hh>
#include <aleph/geometry/TorusSampling.hh>
#include <aleph/topology/RandomGraph.hh>

using namespace vh;

template <class T> J cloud( const aleph::containers::PointCloud<T>& pc )
{
  J r = J::arr();
  for( std::size_t i = 0; i < pc.size(); i++ )
  {
    J p = J::arr();
    for( auto&& x : pc[i] )
      p.push( near( double( x ), 10000 ) );
    r.push( p );
  }
  return r;
}

template <class T> std::vector< std::pair<T, T> > angles( const J& a )
{
  std::vector< std::pair<T, T> > r;
  for( auto&& p : a.a )
    r.push_back( std::make_pair( T( p.a[0].i * M_PI / 12 ), T( p.a[1].i * M_PI / 12 ) ) );
  return r;
}

J count( unsigned n )
{
  return J( static_cast<long long>( n ) );
}

template <class T> J answer( const J& c )
{
  auto k = c["k"].s;
  if( k == "sphere" )
  {
    T r = T( c["r"].i );
    auto a = angles<T>( c["angles"] );
    auto&& m = c["c"].a;
    if( m[0].i == 0 && m[1].i == 0 && m[2].i == 0 )
      return J::obj().set( "p", cloud( aleph::geometry::makeSphere( a, r ) ) );
    return J::obj().set( "p", cloud( aleph::geometry::makeSphere( a, r, T( m[0].i ), T( m[1].i ), T( m[2].i ) ) ) );
  }
  if( k == "torus" )
    return J::obj().set( "p", cloud( aleph::geometry::makeTorus( angles<T>( c["angles"] ), T( c["R"].i ), T( c["r"].i ) ) ) );

  auto n = unsigned( c["n"].i );
  if( k == "sampleSphere" || k == "sampleTorus" )
  {
    bool sphere = k == "sampleSphere";
    auto a      = sphere ? aleph::geometry::sphereSampling<T>( n )
                         : aleph::geometry::torusRejectionSampling<T>( T( c["R"].i ), T( c["r"].i ), n );
    bool inRange = true;
    unsigned caps = 0, north = 0, q[4] = { 0, 0, 0, 0 };
    T eps = 8 * std::numeric_limits<T>::epsilon();
    for( auto&& p : a )
    {
      T theta = p.first;
      T other = p.second;
      inRange = inRange && theta >= 0 && theta <= T( 2 * M_PI ) * ( 1 + eps ) && other >= 0 && other <= T( sphere ? M_PI : 2 * M_PI ) * ( 1 + eps );
      if( sphere )
      {
        caps  += std::abs( std::cos( other ) ) > T( 0.5 );
        north += std::cos( other ) > 0;
      }
      else
      {
        caps  += std::cos( theta ) > 0;
        north += std::sin( theta ) > 0;
      }
      T around = sphere ? theta : other;
      q[ ( std::cos( around ) > 0 ? 1 : 0 ) + ( std::sin( around ) > 0 ? 2 : 0 ) ]++;
    }
    J quadrants = J::arr();
    for( auto&& x : q )
      quadrants.push( count( x ) );
    return J::obj().set( "n", count( unsigned( a.size() ) ) ).set( "inRange", J( inRange ) ).set( sphere ? "caps" : "outer", count( caps ) )
                   .set( sphere ? "north" : "top", count( north ) ).set( "quadrants", quadrants );
  }

  double p = double( c["p"].i ) / double( c["q"].i );
  if( k == "graph" )
    return J::obj().set( "K", complexTo( aleph::topology::generateErdosRenyiGraph( n, p ) ) );
  return J::obj().set( "K", complexTo( aleph::topology::generateWeightedRandomGraph( n, p ) ) );
}

int main( int argc, char** argv )
{
  return vh::run( argc, argv, [] ( const J& c ) { return c["type"].s == "float" ? answer<float>( c ) : answer<double>( c ); } );
}
