// Rips expansion, Vietoris-Rips complexes, nearest-neighbour queries.
#include "common.hh"

#include <aleph/containers/PointCloud.hh>

#include <aleph/geometry/BruteForce.hh>
#include <aleph/geometry/FLANN.hh>
#include <aleph/geometry/RipsExpander.hh>
#include <aleph/geometry/RipsExpanderTopDown.hh>
#include <aleph/geometry/VietorisRipsComplex.hh>

#include <aleph/geometry/distances/Euclidean.hh>
#include <aleph/geometry/distances/Hamming.hh>
#include <aleph/geometry/distances/Manhattan.hh>

using namespace aleph;
using namespace aleph::geometry;
using namespace vh;

template <class S> J expansion( const J& c )
{
  using K_t = topology::SimplicialComplex<S>;
  using D_t = typename S::DataType;
  double scale = double( c["scale"].i );

  std::vector<S> v;
  for( auto&& x : c["items"].a )
  {
    auto vs = x["s"].as<typename S::VertexType>();
    v.push_back( S( vs.begin(), vs.end(), enc<D_t>( x["w"].i, scale ) ) );
  }
  K_t K( v.begin(), v.end() );
  unsigned d    = static_cast<unsigned>( c["d"].i );
  unsigned kmin = static_cast<unsigned>( c["kmin"].i );

  std::vector<D_t> f;
  for( auto&& x : c["f"].a )
    f.push_back( enc<D_t>( x.i, scale ) );

  RipsExpander<K_t> expander;
  RipsExpanderTopDown<K_t> topdown;

  J r = J::obj();
  auto X = expander( K, d );
  r.set( "expanded", complexTo( X, scale ) );
  r.set( "maximum", complexTo( expander.assignMaximumWeight( X ), scale ) );
  r.set( "data", complexTo( expander.assignMaximumData( X, f.begin(), f.end() ), scale ) );
  r.set( "minimum", complexTo( expander.assignData( X, f.begin(), f.end(), std::numeric_limits<D_t>::max(),
                                                    [] ( const D_t& a, const D_t& b ) { return std::min( a, b ); } ), scale ) );
  auto T = topdown( K, d );
  r.set( "topdown", complexTo( T, scale ) );
  r.set( "topdownWeights", complexTo( topdown.assignMaximumWeight( T, K ), scale ) );
  r.set( "topdownFrom", complexTo( topdown( K, d, kmin ), scale ) );
  return r;
}

template <class T> containers::PointCloud<T> cloud( const J& pts )
{
  containers::PointCloud<T> pc( pts.size(), pts.size() ? pts[0].size() : 1 );
  for( std::size_t i = 0; i < pts.size(); i++ )
  {
    std::vector<T> p;
    for( auto&& x : pts[i].a )
      p.push_back( enc<T>( x.i ) );
    pc.set( i, p.begin(), p.end() );
  }
  return pc;
}

// Distances are recorded squared for the Euclidean metric, so that they are
// integers for integer points.
template <class T> J dist( T x, double u, bool squared )
{
  double d = double( x ) / u;
  return num( squared ? d * d : d, 1.0, digits<T>() );
}

// Distances grow with the points, except for the number of different coordinates
template <class T> double unitOf( const J& c )
{
  return c["metric"].s == "hamming" ? 1.0 : unit<T>().factor;
}

template <class Complex> J weighted( const Complex& K, bool squared, double u )
{
  J r = J::arr();
  for( auto&& s : K )
  {
    J x = J::obj();
    x.set( "s", vertices( s ) );
    x.set( "w", dist( s.data(), u, squared ) );
    r.push( x );
  }
  return r;
}

template <class NN, class T> J rips( const containers::PointCloud<T>& pc, const J& c, bool squared, double hair )
{
  NN nn( pc );
  double u = unitOf<T>( c );
  double R = double( c["R"].i ) / 2.0 * u * ( 1.0 + double( c["hair"].i ) * hair );
  unsigned d = static_cast<unsigned>( c["d"].i );
  J r = J::obj();
  r.set( "plain", weighted( buildVietorisRipsComplex( nn, static_cast<T>( R ), d ), squared, u ) );
  auto f = c["f"].as<T>();
  r.set( "valued", weighted( buildVietorisRipsComplex( nn, static_cast<T>( R ), d, f.begin(), f.end() ), false, 1.0 ) );
  return r;
}

template <class NN, class T> J query( const containers::PointCloud<T>& pc, const J& c, bool squared, double hair )
{
  NN nn( pc );
  using I = typename NN::IndexType;
  std::vector< std::vector<I> > indices;
  std::vector< std::vector<T> > distances;

  // Leftovers of an earlier query must not matter.
  indices.assign( 2, std::vector<I>( 3 ) );
  distances.assign( 5, std::vector<T>( 2 ) );

  J r = J::obj();
  for( int pass = 0; pass < 2; pass++ )
  {
    if( pass == 0 )
      nn.radiusSearch( static_cast<T>( double( c["R"].i ) / 2.0 * unitOf<T>( c ) * ( 1.0 + double( c["hair"].i ) * hair ) ), indices, distances );
    else
      nn.neighbourSearch( static_cast<unsigned>( c["k"].i ), indices, distances );
    J I_ = J::arr(), D_ = J::arr();
    for( auto&& row : indices )
    {
      J q = J::arr();
      for( auto&& i : row ) q.push( J( static_cast<long long>( i ) ) );
      I_.push( q );
    }
    for( auto&& row : distances )
    {
      J q = J::arr();
      for( auto&& x : row ) q.push( dist( x, unitOf<T>( c ), squared ) );
      D_.push( q );
    }
    r.set( pass == 0 ? "ri" : "ki", I_ );
    r.set( pass == 0 ? "rd" : "kd", D_ );
  }
  r.set( "size", J( nn.size() ) );
  return r;
}

template <class T, class Distance> J metric( const J& c, bool squared )
{
  using PC = containers::PointCloud<T>;
  auto pc = cloud<T>( c["pts"] );
  J r = J::arr();
  // FLANN has radii of single precision
  if( c["k_"].s == "rips" )
  {
    r.push( rips< BruteForce<PC, Distance>, T >( pc, c, squared, 1e-9 ) );
    r.push( rips< FLANN<PC, Distance>, T >( pc, c, squared, 2e-7 ) );
  }
  else
  {
    r.push( query< BruteForce<PC, Distance>, T >( pc, c, squared, 1e-9 ) );
    r.push( query< FLANN<PC, Distance>, T >( pc, c, squared, 2e-7 ) );
  }
  return r;
}

template <class T> J metrics( const J& c )
{
  std::string m = c["metric"].s;
  if( m == "euclidean" ) return metric<T, distances::Euclidean<T> >( c, true );
  if( m == "manhattan" ) return metric<T, distances::Manhattan<T> >( c, false );
  return metric<T, distances::Hamming<T> >( c, false );
}

J handle( const J& c )
{
  if( c["k_"].s == "expansion" )
  {
    std::string t = c["t"].s;
    if( t == "du" ) return expansion< topology::Simplex<double, unsigned> >( c );
    if( t == "fs" ) return expansion< topology::Simplex<float, unsigned short> >( c );
    return expansion< topology::Simplex<double, int> >( c );
  }
  return c["t"].s == "d" ? metrics<double>( c ) : metrics<float>( c );
}

int main( int argc, char** argv )
{
  return run( argc, argv, handle );
}
